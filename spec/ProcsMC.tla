-------------------------------- MODULE ProcsMC --------------------------------
EXTENDS Procs, Json
CONSTANTS SimLen, Pars, MaxLen
VARIABLES act, log, n
mvars == <<vars, act, log, n>>
N(i) == LET a == IF i < 0 THEN -i ELSE i IN
        [n |-> i < 0, d |-> CASE a = 0 -> <<>> [] a < 10 -> <<a>> [] a < 100 -> <<a \div 10, a % 10>> [] OTHER -> <<a \div 100, (a \div 10) % 10, a % 10>>]
P(lo, loi, hi, hii) == [k |-> "int", lo |-> N(lo), loi |-> loi, hi |-> N(hi), hii |-> hii]
Ints == {P(lo, loi, hi, hii) : lo \in {-11, -1, 0, 9}, hi \in {-1, 0, 9, 11, 100}, loi \in BOOLEAN, hii \in BOOLEAN}
Others == {[k |-> "dur"], [k |-> "css"], [k |-> "url"], [k |-> "bool"], [k |-> "enum", m |-> <<"a", "ab", "">>], [k |-> "str", min |-> 1, max |-> 3], [k |-> "str", min |-> 0, max |-> 2], [k |-> "str", min |-> 2, max |-> 1]}
Urls == {[k |-> "url"], [k |-> "urls"]}
Css == {[k |-> "css"]}
Durs == {[k |-> "dur"]}
AllP == Ints \cup Others
SomeP == Others \cup {P(-11, TRUE, 9, FALSE), P(0, FALSE, 100, TRUE), P(-1, FALSE, 11, TRUE), P(9, TRUE, 9, TRUE)}
LongP == Durs \cup Urls \cup Css
UrlTok == DOMAIN Scheme \cup {"//", "u:p@", "://", "1http:", "_a:", "\n", "a"} \cup Host \cup Port \cup DOMAIN Path \cup DOMAIN Query \cup BadHost \cup BadPort \cup BadPath
Tokens(k) == CASE k = "int" -> {"+", "-", "0", "1", "9", "x", " ", "."}
               [] k = "str" -> {"x", "é"}
               [] k = "dur" -> {"0", "1", "5", ".", "-", "h", "m", "s", "n", "µ", "x"}
               [] k = "css" -> {"#", "0", "f", "A", "g", "\n"}
               [] k \in {"url", "urls"} -> UrlTok
               [] k = "bool" -> {"true", "false", "t", "1", "True", " "}
               [] k = "enum" -> {"a", "b", "A", ","}
Init == InitWith(Pars) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0
Useful(c) == IF par.k \in {"url", "urls"} THEN q.st # "any" ELSE TRUE
FeedA == n < MaxLen /\ n' = n + 1 /\ \E c \in Tokens(par.k) : Useful(c) /\ Feed(c) /\ act' = [k |-> "op", c |-> c]
EndA == \E ok \in Verdicts : Answer(ok, Value) /\ n' = 0 /\ act' = [k |-> "end"]
Next0 == FeedA \/ (SimLen = 0 /\ EndA)
Next == Next0 /\ log' = (IF act'.k = "op" THEN Append(log, act'.c) ELSE <<>>)
Spec == Init /\ [][Next]_mvars
View == <<vars, n>>
(* every prefix of a walk is a text of its own *)
PrintSim == Len(log') = SimLen => PrintT("SIM " \o ToJson([par |-> par, acts |-> [i \in 1..Len(log') |-> [k |-> "op", c |-> log'[i]]]]))
PrintText == act'.k = "op" => PrintT("TXT " \o ToJson([par |-> par, s |-> log']))
----------------------------------------------------------------------------
(* the machines against independent definitions of the languages, for short texts *)
RECURSIVE Zeros(_)
Zeros(k) == IF k = 0 THEN "" ELSE "0" \o Zeros(k - 1)
Spell(i) == LET a == IF i < 0 THEN -i ELSE i IN {s \o Zeros(z) \o ToString(a) : s \in (IF i < 0 THEN {"-"} ELSE IF i = 0 THEN {"", "-"} ELSE {""}), z \in 0..3}
IsPlus == par.k = "int" /\ q.plus
ToInt(x) == (IF x.n THEN -1 ELSE 1) * (CASE Len(x.d) = 0 -> 0 [] Len(x.d) = 1 -> x.d[1] [] Len(x.d) = 2 -> 10 * x.d[1] + x.d[2] [] OTHER -> 100 * x.d[1] + 10 * x.d[2] + x.d[3])
InB(i) == (IF par.loi THEN i >= ToInt(par.lo) ELSE i > ToInt(par.lo)) /\ (IF par.hii THEN i <= ToInt(par.hi) ELSE i < ToInt(par.hi))
IntLang == (par.k = "int" /\ ~IsPlus /\ n <= 3) =>
    /\ (Verdicts = {TRUE}) = (\E i \in -99..999 : InB(i) /\ inp \in Spell(i))
    /\ Verdicts = {TRUE} => \E i \in -99..999 : inp \in Spell(i) /\ Value = <<"int", ToString(i)>>
DurNormal == par.k = "dur" => q.tot.s < 3600 /\ q.tot.n < 1000000000
NeedsUnit == (par.k = "dur" /\ Verdicts = {TRUE} /\ ~DurZero) => DurClose(q).st = "next"
CssLang == (par.k = "css" /\ Verdicts = {TRUE}) => n \in {0, 7}
UrlLang == (par.k = "url" /\ Verdicts = {TRUE} /\ n > 0) => q.s # "" \/ q.p # ""
Inv == IntLang /\ DurNormal /\ NeedsUnit /\ CssLang /\ UrlLang /\ Verdicts # {}
=============================================================================
