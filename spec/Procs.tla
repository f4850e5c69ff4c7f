--------------------------------- MODULE Procs ---------------------------------
(* Typed value processors, as machines that read a value text token by token.                      *)
(* par.k: "int" [lo, hi: numbers, loi, hii: bound included], "str" [min, max], "bool", "enum" [m],  *)
(* "dur", "css", "url", "urls".  A number is [n: negative, d: digits, no leading zeros].            *)
(* At the end of the text: Verdicts, the set of verdicts the documentation allows (both where it    *)
(* does not say), and Value, the typed value an accepted text denotes, as a list of strings.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES par, inp, q
vars == <<par, inp, q>>
Dig == [c \in {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"} |-> CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4
          [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8 [] c = "9" -> 9]
IsDig(c) == c \in DOMAIN Dig
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE ToString(Head(s)) \o Cat(Tail(s))
Pow10(k) == CASE k = 0 -> 1 [] k = 1 -> 10 [] k = 2 -> 100 [] k = 3 -> 1000 [] k = 4 -> 10000 [] k = 5 -> 100000 [] k = 6 -> 1000000 [] k = 7 -> 10000000 [] k = 8 -> 100000000 [] OTHER -> 1000000000
----------------------------------------------------------------------------
(* integers *)
IntQ0 == [st |-> "start", n |-> FALSE, plus |-> FALSE, d |-> <<>>]
IntFeed(c) == CASE q.st = "start" /\ c \in {"+", "-"} -> [q EXCEPT !.st = "sign", !.n = (c = "-"), !.plus = (c = "+")]
                [] q.st # "bad" /\ IsDig(c) -> [q EXCEPT !.st = "digits", !.d = IF @ = <<>> /\ c = "0" THEN @ ELSE Append(@, Dig[c])]
                [] OTHER -> [q EXCEPT !.st = "bad"]
RECURSIVE MagLt(_, _)
MagLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE IF a = <<>> THEN FALSE ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE MagLt(Tail(a), Tail(b))
Neg(a) == a.n /\ a.d # <<>>
Lt(a, b) == IF Neg(a) # Neg(b) THEN Neg(a) ELSE IF Neg(a) THEN MagLt(b.d, a.d) ELSE MagLt(a.d, b.d)
SameNum(a, b) == ~Lt(a, b) /\ ~Lt(b, a)
IntIn == LET v == [n |-> q.n, d |-> q.d] IN /\ Lt(par.lo, v) \/ (par.loi /\ SameNum(v, par.lo))
                                            /\ Lt(v, par.hi) \/ (par.hii /\ SameNum(v, par.hi))
IntVerdicts == IF q.st # "digits" \/ ~IntIn THEN {FALSE} ELSE IF q.plus THEN BOOLEAN ELSE {TRUE}
IntValue == <<"int", (IF Neg([n |-> q.n, d |-> q.d]) THEN "-" ELSE "") \o (IF q.d = <<>> THEN "0" ELSE Cat(q.d))>>
----------------------------------------------------------------------------
(* strings: bounds on the length, in bytes or in characters *)
StrQ0 == [b |-> 0, r |-> 0]
StrFeed(c) == [b |-> q.b + (IF c = "é" THEN 2 ELSE 1), r |-> q.r + 1]
StrVerdicts == {q.b >= par.min /\ q.b <= par.max, q.r >= par.min /\ q.r <= par.max}
----------------------------------------------------------------------------
(* words *)
WordVerdicts == {inp \in (IF par.k = "bool" THEN {"true", "false"} ELSE {par.m[i] : i \in DOMAIN par.m})}
----------------------------------------------------------------------------
(* durations: sign, then number unit pairs; or 0.  The value is [h, s below 3600, n below 10^9]. *)
Units == [ns |-> 0, us |-> 0, ms |-> 0, s |-> 0, m |-> 0, h |-> 0]
UnitOf(u) == IF u \in {"µs", "μs"} THEN "us" ELSE u
DurQ0 == [st |-> "start", n |-> FALSE, i |-> 0, f |-> 0, fd |-> 0, pre |-> FALSE, post |-> FALSE, u |-> "", tot |-> [h |-> 0, s |-> 0, n |-> 0]]
Norm(h, s, n) == LET s1 == s + n \div 1000000000 IN [h |-> h + s1 \div 3600, s |-> s1 % 3600, n |-> n % 1000000000]
Plus(a, b) == Norm(a.h + b.h, a.s + b.s, a.n + b.n)
(* i units and f / 10^fd of one *)
Amount(i, f, fd, u) ==
  CASE u = "h" -> Plus([h |-> i, s |-> 0, n |-> 0], Norm(0, (f * 3600) \div Pow10(fd), (((f * 3600) % Pow10(fd)) * Pow10(9 - fd))))
    [] u = "m" -> Plus([h |-> i \div 60, s |-> (i % 60) * 60, n |-> 0], Norm(0, (f * 60) \div Pow10(fd), (((f * 60) % Pow10(fd)) * Pow10(9 - fd))))
    [] u = "s" -> Norm(i \div 3600, i % 3600, f * Pow10(9 - fd))
    [] u = "ms" -> Norm(0, i \div 1000, (i % 1000) * 1000000 + (IF fd <= 6 THEN f * Pow10(6 - fd) ELSE f \div Pow10(fd - 6)))
    [] u = "us" -> Norm(0, i \div 1000000, (i % 1000000) * 1000 + (IF fd <= 3 THEN f * Pow10(3 - fd) ELSE f \div Pow10(fd - 3)))
    [] OTHER -> Norm(0, 0, i)
DurClose(x) == IF x.st = "unit" THEN IF UnitOf(x.u) \in DOMAIN Units
                                     THEN [x EXCEPT !.st = "next", !.tot = Plus(@, Amount(x.i, x.f, x.fd, UnitOf(x.u))), !.i = 0, !.f = 0, !.fd = 0, !.pre = FALSE, !.post = FALSE, !.u = ""]
                                     ELSE [x EXCEPT !.st = "bad"]
               ELSE x
DurFeed(c) ==
  IF q.st = "bad" THEN q
  ELSE IF IsDig(c) THEN LET x == DurClose(q) IN
     CASE x.st = "bad" -> x
       [] x.st = "frac" -> [x EXCEPT !.f = @ * 10 + Dig[c], !.fd = @ + 1, !.post = TRUE]
       [] OTHER -> [x EXCEPT !.st = "num", !.i = @ * 10 + Dig[c], !.pre = TRUE]
  ELSE IF c = "." THEN LET x == DurClose(q) IN
     CASE x.st \in {"bad", "frac"} -> [x EXCEPT !.st = "bad"] [] OTHER -> [x EXCEPT !.st = "frac"]
  ELSE IF c \in {"+", "-"} THEN (IF q.st = "start" THEN [q EXCEPT !.st = "sign", !.n = (c = "-")] ELSE [q EXCEPT !.st = IF q.st = "unit" THEN "unit" ELSE "bad", !.u = @ \o c])
  ELSE IF q.st = "unit" THEN [q EXCEPT !.u = @ \o c]
  ELSE IF q.st \in {"num", "frac"} /\ (q.pre \/ q.post) THEN [q EXCEPT !.st = "unit", !.u = c]
  ELSE [q EXCEPT !.st = "bad"]
DurMax == [h |-> 2562047, s |-> 2836, n |-> 854775807]
DurFits(t) == t.h < DurMax.h \/ (t.h = DurMax.h /\ (t.s < DurMax.s \/ (t.s = DurMax.s /\ t.n <= DurMax.n)))
DurMin == [DurMax EXCEPT !.n = 854775808]
DurZero == inp \in {"0", "+0", "-0"}
DurVerdicts == LET x == DurClose(q) IN
   CASE DurZero -> {TRUE} [] x.st # "next" -> {FALSE} [] x.n /\ x.tot = DurMin -> BOOLEAN [] OTHER -> {DurFits(x.tot)}
DurValue == LET x == DurClose(q) IN
   <<"dur", IF x.n /\ x.tot # [h |-> 0, s |-> 0, n |-> 0] THEN "-" ELSE "", ToString(x.tot.h), ToString(x.tot.s), ToString(x.tot.n)>>
----------------------------------------------------------------------------
(* colours: # and six hexadecimal digits; empty for none *)
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f", "A", "B", "C", "D", "E", "F"}
CssQ0 == [i |-> 0]
CssFeed(c) == [i |-> CASE q.i = 0 -> (IF c = "#" THEN 1 ELSE -1) [] q.i \in 1..6 -> (IF c \in Hex THEN q.i + 1 ELSE -1) [] OTHER -> -1]
CssVerdicts == {q.i \in {0, 7}}
----------------------------------------------------------------------------
(* URLs: absolute, or an absolute path; empty for none.  Each kind of part has tokens of its own. *)
Scheme == [x \in {"http:", "https:", "a+b.c-1:"} |-> CASE x = "http:" -> "http" [] x = "https:" -> "https" [] OTHER -> "a+b.c-1"]
Host == {"h", "example.com", "[::1]", "127.0.0.1"}
Port == {":80", ":"}
Path == [x \in {"/", "/a", "/a/b.c", "/A%20b", "/%2F"} |-> CASE x = "/A%20b" -> "/A b" [] x = "/%2F" -> "//" [] OTHER -> x]
Query == [x \in {"?", "?q=1", "?A=%20&b"} |-> CASE x = "?" -> "" [] x = "?q=1" -> "q=1" [] OTHER -> "A=%20&b"]
BadHost == {"[::1", "a b", "h%zz"}
BadPort == {":8x", ":-1"}
BadPath == {"/%zz", "/%", "/%2"}
Ctl == {"\n", "\t"}
UrlQ0 == [st |-> "start", s |-> "", u |-> "", h |-> "", p |-> "", r |-> "", bad |-> FALSE]
UrlFeed(c) ==
  LET to(x) == [q EXCEPT !.st = x] IN
  CASE c \in Ctl -> [q EXCEPT !.bad = TRUE]
    [] q.st = "start" /\ c \in DOMAIN Scheme -> [to("scheme") EXCEPT !.s = Scheme[c]]
    [] q.st = "start" /\ c \in {":", "1http:", "://", "_a:"} -> to("bad")
    [] q.st \in {"start", "rel"} /\ c \in {"a", "h", "example.com", "127.0.0.1"} -> to("rel")
    [] q.st = "rel" /\ (c \in DOMAIN Path \/ c \in DOMAIN Query) -> to("rel")
    [] q.st = "scheme" /\ c = "//" -> to("auth")
    [] q.st = "auth" /\ c = "u:p@" /\ q.u = "" -> [q EXCEPT !.u = "u:p"]
    [] q.st = "auth" /\ c \in Host -> [to("host") EXCEPT !.h = c]
    [] q.st = "auth" /\ c \in BadHost -> to("bad")
    [] q.st = "host" /\ c \in Port -> [to("port") EXCEPT !.h = @ \o c]
    [] q.st = "host" /\ c \in BadPort -> to("bad")
    [] q.st \in {"start", "scheme", "host", "port"} /\ c \in DOMAIN Path -> [to("path") EXCEPT !.p = Path[c]]
    [] q.st \in {"start", "scheme", "host", "port"} /\ c \in BadPath -> to("bad")
    [] q.st = "path" /\ q.p # "/" /\ c \in DOMAIN Path -> [q EXCEPT !.p = @ \o Path[c]]
    [] q.st = "path" /\ q.p # "/" /\ c \in BadPath -> to("bad")
    [] q.st \in {"host", "port", "path"} /\ c \in DOMAIN Query -> [to("query") EXCEPT !.r = Query[c]]
    [] q.st = "bad" -> to("any")         \* more text may make it well-formed again
    [] OTHER -> to("any")                \* not specified here
UrlVerdicts == CASE q.bad -> {FALSE} [] q.st \in {"bad", "rel"} -> {FALSE} [] q.st \in {"start", "path", "query", "host", "port"} -> {TRUE} [] OTHER -> BOOLEAN
UrlValue == IF q.st = "start" THEN <<"nil">> ELSE <<"url", q.s, q.u, q.h, q.p, q.r>>
UrlJudged == q.st # "any" /\ q.st # "scheme" /\ q.st # "auth"
----------------------------------------------------------------------------
Q0(k) == CASE k = "int" -> IntQ0 [] k = "str" -> StrQ0 [] k = "dur" -> DurQ0 [] k = "css" -> CssQ0 [] k \in {"url", "urls"} -> UrlQ0 [] OTHER -> [w |-> 0]
Step(c) == CASE par.k = "int" -> IntFeed(c) [] par.k = "str" -> StrFeed(c) [] par.k = "dur" -> DurFeed(c) [] par.k = "css" -> CssFeed(c)
             [] par.k \in {"url", "urls"} -> UrlFeed(c) [] OTHER -> q
Verdicts == CASE par.k = "int" -> IntVerdicts [] par.k = "str" -> StrVerdicts [] par.k = "dur" -> DurVerdicts [] par.k = "css" -> CssVerdicts
              [] par.k \in {"url", "urls"} -> UrlVerdicts [] OTHER -> WordVerdicts
Value == CASE par.k = "int" -> IntValue [] par.k = "dur" -> (IF DurZero THEN <<"dur", "", "0", "0", "0">> ELSE DurValue) [] par.k = "bool" -> <<"bool", inp>>
           [] par.k = "url" -> UrlValue [] OTHER -> <<"str", inp>>
Judged == par.k # "url" \/ UrlJudged
InitWith(P) == /\ par \in P /\ inp = "" /\ q = Q0(par.k)
Feed(c) == inp' = inp \o c /\ q' = Step(c) /\ UNCHANGED par
(* the processor is asked about the text and then starts over *)
Answer(ok, v) == /\ ok \in Verdicts
                 /\ (ok /\ Judged) => v = Value
                 /\ inp' = "" /\ q' = Q0(par.k) /\ UNCHANGED par
=============================================================================
