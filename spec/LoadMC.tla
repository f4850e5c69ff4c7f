--------------------------------- MODULE LoadMC ---------------------------------
EXTENDS Load, Json, TLC
CONSTANTS SimLen, Threads, Mins, Ops, Eager, MaxTime, MaxLoads, MaxCalls
VARIABLES act, log, n
mvars == <<vars, act, log, n>>
MinsS == {0, 2}
MinsX == {-1, 0, 1, 2, 3, 4, 6, 10}
Init == InitWith({[min |-> m] : m \in Mins}, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0
OpA == n < MaxCalls /\ n' = n + 1 /\ \E t \in Threads, o \in Ops : Call(t, o) /\ act' = [k |-> "op", op |-> [o |-> o]]
ExtA == ver < 40 /\ (SimLen > 0 \/ ver < 1) /\ Ext /\ act' = [k |-> "op", op |-> [o |-> "ext"]] /\ UNCHANGED n
(* the environment ends the oldest load: it is applied at once when it succeeds *)
FinA == /\ Busy # {}
        /\ LET m == CHOOSE m \in Busy : \A x \in Busy : m <= x IN
           \E ok \in BOOLEAN : /\ (ok => ld[m].ap) /\ (~ok => ~ld[m].ap) /\ LoadEnd(m, ok) /\ act' = [k |-> "op", op |-> [o |-> "fin", ok |-> ok]]
        /\ UNCHANGED n
TickA == Settled /\ now < MaxTime /\ Tick(1) /\ act' = [k |-> "tick", d |-> 1] /\ UNCHANGED n
IntA == /\ act' = [k |-> "int"] /\ UNCHANGED n
        /\ \/ Internal
           \/ \E t \in Threads : (Len(ld) < MaxLoads /\ LoadBegin(t)) \/ (pc[t].s = "done" /\ Return(t, pc[t].r))
Next0 == IF Eager /\ ~Settled THEN IntA ELSE OpA \/ ExtA \/ FinA \/ TickA \/ IntA
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, n>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
NoWedge == Settled \/ Len(ld) >= MaxLoads \/ ENABLED IntA
=============================================================================
