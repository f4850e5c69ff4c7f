--------------------------------- MODULE MaskMC ---------------------------------
EXTENDS Mask, Json
CONSTANTS SimLen, Kinds, Objs, Forms, Secs, Render, MaxP
VARIABLES act, log, hist    \* hist: what was printed when, with the configuration then
mvars == <<vars, act, log, hist>>
S2 == {<<>>, <<"x">>, <<"y">>}
S6 == {<<>>, <<"x">>, <<"y">>, <<"x", "y">>, <<"y", "x">>, <<"x", "x">>}
(* three ways to print: three stars, stars as long as the secret, only what is set *)
Stars(c, f) == <<f, c.kind, c.pub, "***">>
Long(c, f) == <<f, c.kind, c.pub, ToString(Len(c.u)), ToString(Len(c.p))>>
OnlySet(c, f) == <<f, c.kind, c.pub, ToString(c.u # <<>>), ToString(c.p # <<>>)>>
Text(c, f) == CASE Render = "stars" -> Stars(c, f) [] Render = "long" -> Long(c, f) [] OTHER -> OnlySet(c, f)
Init == Init0 /\ act = [k |-> "init"] /\ log = <<>> /\ hist = {}
MakeA == \E i \in Objs, k \in Kinds, v \in {"v", "w"}, u \in Secs, p \in Secs :
           i \notin DOMAIN cfg /\ Make(i, k, v, u, p) /\ act' = [k |-> "make", i |-> i, kind |-> k, v |-> v, u |-> u, p |-> p] /\ UNCHANGED hist
PubA == \E i \in Objs, v \in {"v", "w"} : SetPub(i, v) /\ cfg' # cfg /\ act' = [k |-> "pub", i |-> i, v |-> v] /\ UNCHANGED hist
UserA == \E i \in Objs, u \in Secs : SetUser(i, u) /\ cfg' # cfg /\ act' = [k |-> "user", i |-> i, u |-> u] /\ UNCHANGED hist
PassA == \E i \in Objs, p \in Secs : SetPass(i, p) /\ cfg' # cfg /\ act' = [k |-> "pass", i |-> i, p |-> p] /\ UNCHANGED hist
PrintA == \E i \in DOMAIN cfg, f \in Forms : LET s == Text(cfg[i], f) IN
            /\ Show(i, f, s) /\ act' = [k |-> "print", i |-> i, f |-> f]
            /\ hist' = hist \cup {[c |-> cfg[i], f |-> f, s |-> s]}
Next0 == MakeA \/ PubA \/ UserA \/ PassA \/ PrintA
Next == Next0 /\ log' = (IF SimLen = 0 THEN log ELSE Append(log, act'))
Spec == Init /\ [][Next]_mvars
View == <<vars, hist>>
Bound == Cardinality(hist) <= MaxP
PrintSim == (SimLen > 0 /\ Len(log) = SimLen) => PrintT("SIM " \o ToJson([par |-> "", acts |-> log]))
----------------------------------------------------------------------------
(* noninterference: from what was printed, every other secret of the same lengths is as possible as the real one *)
Blind == \A h \in hist : \A u \in {x \in Secs : Len(x) = Len(h.c.u)}, p \in {x \in Secs : Len(x) = Len(h.c.p)} :
            Text([h.c EXCEPT !.u = u, !.p = p], h.f) = h.s
Function == \A h, g \in hist : Key(h.c, h.f) = Key(g.c, g.f) => h.s = g.s
=============================================================================
