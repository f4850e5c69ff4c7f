--------------------------------- MODULE SpanMC ---------------------------------
EXTENDS Span, Json
CONSTANTS Opts, SimLen, Modes, MaxOps, MaxChain, Acts, Kinds, MaxCmds
VARIABLES act, log, ph, nt
mvars == <<vars, act, log, ph, nt>>

Path(o) == "/o" \o ToString(o)
Host(o) == "svc" \o ToString(o) \o ".test"
Body(o, i) == "b" \o ToString(o) \o "." \o ToString(i)
Sts(a) == IF SimLen = 0 THEN (CASE a = "ok" -> {0, 201, 404} [] a = "err" -> {0, 400} [] a = "abort" -> {405} [] OTHER -> {0}) ELSE CASE a = "ok" -> {0, 201, 399, 400, 404, 499, 503, 599, 600, 999} [] a = "err" -> {0, 400, 404, 500, 200, 399, 600} [] a = "abort" -> {0, 302, 405, 799} [] a = "next" -> {0, 401, 418, 601} [] OTHER -> {0}
Hs == {[a |-> a, st |-> st, sl |-> FALSE] : a \in Acts, st \in UNION {Sts(x) : x \in Acts}}
H == {h \in Hs : h.st \in Sts(h.a)}
Mw == [a |-> "mw", st |-> 0, sl |-> TRUE, b |-> ""]
Put(o, c, p) == [i \in 1..(Len(c) + 1) |-> IF i < p THEN c[i] @@ [b |-> Body(o, i)] ELSE IF i = p THEN Mw ELSE c[i - 1] @@ [b |-> Body(o, i)]]
(* no route: what the router itself runs *)
NotFound == <<Mw, [a |-> "ok", st |-> 0, sl |-> TRUE, b |-> ""], [a |-> "err", st |-> 404, sl |-> TRUE, b |-> "Not Found"]>>
NotAllowed == <<Mw, [a |-> "abort", st |-> 405, sl |-> TRUE, b |-> ""], [a |-> "err", st |-> 404, sl |-> TRUE, b |-> "Not Found"]>>
Chains(o) == UNION {{Put(o, c, p) : c \in [1..k -> H], p \in 1..(k + 1)} : k \in 1..MaxChain}
Fits(c) == \E i \in 1..Len(c) : c[i].a = "mw"
(* after a handler that swallows errors the rest may run after the middleware is done *)
Nestable(s, h) == h > Pos(O(s).chain) /\ ~O(s).chain[h].sl /\ Ran(O(s).chain, h) /\ \A i \in 1..Pos(O(s).chain) : O(s).chain[i].a # "swallow"
Before(s, h) == h < Pos(O(s).chain) /\ Ran(O(s).chain, h)
Places == {<<0, 0>>} \cup {<<s, h>> \in (Ops \X (1..MaxChain + 1)) : O(s).k = "srv" /\ h <= Len(O(s).chain) /\ (Nestable(s, h) \/ Before(s, h))}

OptSet(a, b, c, d, e, f, g) == [sle |-> a, slb |-> b, cle |-> c, clb |-> d, rle |-> e, rar |-> f, db |-> g]
NoOpt == OptSet(FALSE, FALSE, FALSE, FALSE, FALSE, FALSE, "")
AllOpt == OptSet(TRUE, TRUE, TRUE, TRUE, TRUE, TRUE, "3")
OptSets == CASE Opts = "none" -> {NoOpt} [] Opts = "two" -> {NoOpt, AllOpt}
             [] OTHER -> {OptSet(a, b, c, d, e, f, g) : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, d \in BOOLEAN, e \in BOOLEAN, f \in BOOLEAN, g \in {"", "0", "3"}}
Empty == {[srv |-> a, cli |-> b, red |-> c, addr |-> d, opt |-> o, ops |-> <<>>] :
            a \in Modes, b \in Modes, c \in Modes, d \in BOOLEAN, o \in OptSets}
Init == /\ \E x \in Empty : InitWith({x})
        /\ act = [k |-> "init"] /\ log = <<>> /\ ph = "build" /\ nt = 0
N == Len(par.ops) + 1
Add(x) == par' = [par EXCEPT !.ops = @ \o x] /\ UNCHANGED <<begun, worked, wt, outs, asg, claims, fam, ph, nt>>
Meths == IF SimLen > 0 THEN {"GET", "POST"} ELSE {"GET"}
Rb(o, m) == IF m = "POST" THEN "q" \o ToString(o) ELSE ""
Srv(o, by, m, sw8, c) == [k |-> "srv", by |-> by, at |-> 0, m |-> m, path |-> Path(o), rb |-> (IF by = 0 THEN "" ELSE Rb(by, m)), sw8 |-> sw8, chain |-> c]
One(S) == IF SimLen > 0 THEN RandomElement(S) ELSE CHOOSE x \in S : TRUE
(* under simulation one chain is drawn rather than all enumerated *)
Draw(o) == LET k == RandomElement(1..MaxChain)
               c == [i \in 1..k |-> IF i < k /\ RandomElement(1..3) > 1 THEN RandomElement({h \in H : h.a \in {"ok", "next"}}) ELSE RandomElement(H)]
               p == RandomElement(1..(k + 1)) IN
           IF RandomElement(1..12) = 1 THEN RandomElement({NotFound, NotAllowed}) ELSE Put(o, c, IF RandomElement(1..3) > 1 THEN 1 ELSE p)
ChainsFor(o) == IF SimLen > 0 THEN {Draw(o)} ELSE {c \in Chains(o) : Fits(c)} \cup {NotFound, NotAllowed}
AddSrv == "srv" \in Kinds /\ \E sw8 \in {"", "bad", "ext"} : \E m \in Meths, c \in ChainsFor(N) : Add(<<Srv(N, 0, m, sw8, c)>>)
AddCli == "cli" \in Kinds /\ \E p \in Places, nil \in BOOLEAN, m \in Meths :
            LET cl(s) == [k |-> "cli", by |-> p[1], at |-> p[2], srv |-> s, m |-> m, path |-> Path(IF s = 0 THEN N ELSE s), host |-> Host(N), rb |-> Rb(N, m), nilctx |-> nil] IN
            \/ Add(<<cl(0)>>)
            \/ N < MaxOps /\ \E c \in ChainsFor(N + 1) : Add(<<cl(N + 1), Srv(N + 1, N, m, "", c)>>)
Cmds == {[n |-> n, r |-> r] : n \in {"get", "incr"}, r \in IF SimLen > 0 THEN {"ok", "nil", "err", "txf"} ELSE {"ok", "nil", "err"}}
CmdLists(k) == IF SimLen > 0 THEN {[i \in 1..RandomElement(1..k) |-> RandomElement(Cmds)]} ELSE UNION {[1..j -> {c \in Cmds : c.n = "get"}] : j \in 1..k}
AddRed == "red" \in Kinds /\ \E p \in Places, k \in {"cmd", "pipe", "tx"} : \E cn \in {"up", "down", "drop"} \cup (IF k = "tx" THEN {"null", "exab"} ELSE {}) : \E c \in CmdLists(IF k = "cmd" THEN 1 ELSE MaxCmds) :
            Add(<<[k |-> k, by |-> p[1], at |-> p[2], cmds |-> c, conn |-> cn]>>)
Build == ph = "build" /\ N <= MaxOps /\ (AddSrv \/ AddCli \/ AddRed) /\ act' = [k |-> "op"]
Go == ph = "build" /\ N > 1 /\ SimLen = 0 /\ ph' = "run" /\ act' = [k |-> "go"] /\ UNCHANGED <<vars, nt>>
(* what is run by an operation is done before it is *)
Kids(o) == {x \in Ops : O(x).by = o}
Telling(o) == [said |-> Told(o), text |-> Logged(o).on /\ Logged(o).some, lib |-> IF Logged(o).on THEN Logged(o).lib ELSE {},
               layer |-> (IF IsRedis(o) THEN "cache" ELSE "http"), method |-> (IF IsRedis(o) THEN "" ELSE O(o).m),
               url |-> (IF IsRedis(o) THEN "" ELSE Url(o)), db |-> (IF IsRedis(o) THEN <<"Redis", par.opt.db>> ELSE <<"", "">>),
               stkeys |-> (IF IsRedis(o) THEN Keys(o) ELSE <<>>), stmt |-> (IF IsRedis(o) THEN Name(o) ELSE "")]
Spans(o) == LET p == SegParent(o)  c == ClientOf(o) IN
  {[seg |-> SegRoot(o), id |-> o, par |-> IF p = 0 THEN -1 ELSE p, tr |-> t, ty |-> (IF O(o).k = "srv" THEN "entry" ELSE "exit"),
    ref |-> (IF c # 0 THEN <<SegRoot(c), c>> ELSE IF O(o).k = "srv" /\ O(o).sw8 = "ext" THEN <<0, 3>> ELSE <<-1, -1>>),
    name |-> Name(o), peer |-> Peer(o), err |-> Failed(o), st |-> s, u |-> 0, t |-> 0, keys |-> <<>>] @@ Telling(o) :
    t \in 0..Cardinality({Top(x) : x \in Ops}), s \in Status(o)}
Play == /\ ph = "run" /\ act' = [k |-> "run"] /\ UNCHANGED <<ph, nt>>
        /\ \/ \E o \in Ops : O(o).by = 0 /\ Begin(o)
           \/ \E o \in Ops : O(o).by # 0 /\ O(o).by \notin worked /\ Begin(o)
           \/ \E o \in Ops : o \in begun /\ (\A x \in Kids(o) : RunsAt(x) => x \in outs) /\ Work(o, 0)
           \/ \E o \in Ops : Out(o)
           \/ \E o \in Ops : SpanOf(o) = "real" /\ o \in outs /\ \E e \in Spans(o), x \in Ops : SpanFor(x, e)
Next == (Build \/ (Go /\ TRUE) \/ Play) /\ log' = (IF act'.k = "op" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, ph>>
PrintSim == Len(log') = SimLen => PrintT("SIM " \o ToJson([par |-> par', acts |-> log']))
----------------------------------------------------------------------------
(* the middleware is transparent: without it the request does the same *)
Strip(c) == SelectSeq(c, LAMBDA h : h.a # "mw")
Up(c, i) == IF i > 0 THEN (IF i > Pos(c) THEN i - 1 ELSE i) ELSE -(IF -i > Pos(c) THEN -i - 1 ELSE -i)
Transparent == \A o \in Ops : O(o).k = "srv" =>
   LET a == Final(O(o).chain)  b == Final(Strip(O(o).chain)) IN
   a.st = b.st /\ a.body = b.body /\ a.pan = b.pan /\ [i \in 1..Len(a.calls) |-> Up(O(o).chain, a.calls[i])] = b.calls
OnceEach == \A o \in Ops : O(o).k = "srv" => LET c == Final(O(o).chain).calls IN \A i, j \in 1..Len(c) : c[i] = c[j] => i = j
(* no span without an operation that is over, no operation with two *)
OneSpan == \A k, j \in DOMAIN asg : (asg[k] = asg[j] => k = j) /\ asg[k] \in worked /\ SpanOf(asg[k]) = "real"
(* failed operations are marked, whatever the nesting *)
Families == \A o \in Ops : SpanOf(o) = "real" => SpanOf(Top(o)) = "real" /\ (ClientOf(o) # 0 => SpanOf(ClientOf(o)) = "real")
Off == \A o \in Ops : (O(o).k = "srv" /\ par.srv \in {"nil", "off"}) \/ (O(o).k = "cli" /\ par.cli \in {"nil", "off"}) \/ (IsRedis(o) /\ par.red \in {"nil", "off"}) => SpanOf(o) # "real"
(* no data of anything but the operation itself; none at all unless asked for; no error told of what did not fail *)
Own(o) == IF IsRedis(o) THEN {Piece(l, o, i) : l \in {"k", "e"}, i \in CmdIx(o)}
          ELSE LET s == IF O(o).k = "srv" THEN o ELSE O(o).srv IN IF s = 0 THEN {} ELSE {O(s).chain[i].b : i \in 1..Len(O(s).chain)}
Discreet == \A o \in Ops : Told(o) \subseteq Own(o) /\ (par.opt = NoOpt => Told(o) = {})
                          /\ (Logged(o).on => Failed(o)) /\ (O(o).k = "cli" => Told(o) \subseteq {CliOut(o).body})
(* whatever the options, an operation has at most one description: what it tells and what kind it is *)
Plain == par.opt = AllOpt => \A o \in Ops : Failed(o) => Logged(o).on
(* at rest everything is in place: every span found its operation *)
CanSettle == (ph = "run" /\ Finished /\ begun = {o \in Ops : RunsAt(o)} /\ ~Settled) => ENABLED Play
=============================================================================
