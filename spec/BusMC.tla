--------------------------------- MODULE BusMC ---------------------------------
EXTENDS Bus, Json, TLC
CONSTANTS SimLen, Threads, Pars, Ops, Ticks, Eager, MaxCalls, MaxSend
VARIABLES act, log, n, sent, bcl
mvars == <<vars, act, log, n, sent, bcl>>
B(c) == [cap |-> c, st |-> "block", nm |-> "x"]
RV(c, s, m) == [cap |-> c, st |-> s, nm |-> m]
(* receivers: distinct names, and two that share one *)
Recvs(S, C) == {<<RV(c1, s1, "a"), RV(c2, s2, m2)>> : c1 \in C, c2 \in C, s1 \in S, s2 \in S, m2 \in {"b"}}
Recv3(S, C) == {<<RV(c1, s1, "a"), RV(c2, s2, m2), RV(c3, s3, m3)>> : c1 \in C, c2 \in C, c3 \in C, s1 \in S, s2 \in S, s3 \in S, m2 \in {"a", "b"}, m3 \in {"b", "c"}}
Mk(bs, rvs) == {[buf |-> b, rv |-> v] : b \in bs, v \in rvs}
ParsS13 == Mk({1}, {<<RV(0, "block", "a"), RV(1, "block", "b")>>, <<RV(1, "block", "a"), RV(1, "drop", "b")>>})
ParsS15 == Mk({1}, {<<RV(1, "block", "a"), RV(1, "drop", "a")>>, <<RV(0, "drop", "a"), RV(1, "block", "b")>>})
ParsX13 == Mk({0, 1, 3}, Recv3({"block"}, {0, 1, 2}) \cup Recvs({"block", "drop"}, {0, 1, 2}))
ParsX14 == Mk({0, 1, 3}, Recv3({"drop"}, {0, 1, 2}) \cup Recvs({"block", "drop"}, {0, 1, 3}))
ParsX15 == Mk({0, 2}, Recv3({"block", "drop"}, {0, 1, 3}))

O13 == {"reg", "send", "recv", "go"}
O14 == {"reg", "send", "recv", "go", "drain"}
O15 == {"reg", "send", "recv", "go", "drain", "collect", "close", "bclose"}

Init == InitWith(Pars, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0 /\ sent = 0 /\ bcl = FALSE

Cl(t, o) == Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> o]
Going == started \/ \E t \in Threads : Pend(t, "go")
Sending == \E t \in Threads : Pend(t, "send")
Regd(r) == rs[r] # "no"
Regg(r) == \E t \in Threads : Pend(t, "reg") /\ pc[t].op.r = r
OpA == \E t \in Threads :
   /\ n < MaxCalls /\ n' = n + 1
   /\ \/ "go" \in Ops /\ ~Going /\ Cl(t, [o |-> "go"]) /\ UNCHANGED <<sent, bcl>>
      \/ "send" \in Ops /\ ~bcl /\ sent < MaxSend /\ sent' = sent + 1 /\ Cl(t, [o |-> "send", v |-> sent + 1]) /\ UNCHANGED bcl
      \/ \E r \in R : "reg" \in Ops /\ ~Regd(r) /\ ~Regg(r) /\ ~bcl /\ Cl(t, [o |-> "reg", r |-> r]) /\ UNCHANGED <<sent, bcl>>
      \/ \E r \in R, o \in {"recv", "drain", "close"} : o \in Ops /\ Regd(r) /\ Cl(t, [o |-> o, r |-> r]) /\ UNCHANGED <<sent, bcl>>
      \/ \E r \in R, d \in {2, 4} : "collect" \in Ops /\ Regd(r) /\ Cl(t, [o |-> "collect", r |-> r, d |-> d]) /\ UNCHANGED <<sent, bcl>>
      \/ "bclose" \in Ops /\ ~Sending /\ ~(\E x \in Threads : Pend(x, "reg")) /\ n > 3 /\ bcl' = TRUE /\ Cl(t, [o |-> "bclose"]) /\ UNCHANGED sent
Clock == \E d \in Ticks : Tick(d) /\ act' = [k |-> "tick", d |-> d] /\ n < MaxCalls /\ n' = n + 1 /\ UNCHANGED <<sent, bcl>>
IntS == /\ act' = [k |-> "int"] /\ UNCHANGED <<n, sent, bcl>>
        /\ \/ Internal
           \/ \E t \in Threads : pc[t].s = "done" /\ Return(t, pc[t].acc)
Next0 == IF Eager /\ ~Settled THEN IntS ELSE OpA \/ Clock \/ IntS
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, n, sent, bcl>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
(* the dispatcher and the clients cannot get stuck short of quiescence *)
NoWedge == Settled \/ ENABLED (Internal \/ \E t \in Threads : pc[t].s = "done" /\ Return(t, pc[t].acc))
=============================================================================
