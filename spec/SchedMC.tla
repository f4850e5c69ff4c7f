------------------------------- MODULE SchedMC -------------------------------
EXTENDS Sched, Json, TLC
CONSTANTS SimLen, Threads, Kinds, Is, Ts, Ops, Eager, MaxTime, MaxJobs, MaxCalls
VARIABLES act, log, n
mvars == <<vars, act, log, n>>
P == {[kind |-> k, i |-> i, t |-> t] : k \in Kinds, i \in Is, t \in Ts}
IVOf(p) == {p.i}
Init == InitWith(P, Threads, IVOf) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0
(* what a client may sensibly call, from a thread of its own (j = 0) or from inside job j *)
OpA == /\ n < MaxCalls /\ n' = n + 1
       /\ \E t \in Threads, o \in Ops : \E j \in {0} \cup Running :
            /\ Call(t, o) /\ act' = [k |-> "op", op |-> [o |-> o, j |-> j]]
EndA == \E j \in Running : JobEnd(j) /\ act' = [k |-> "op", op |-> [o |-> "end", j |-> j]] /\ UNCHANGED n
TickA == /\ Settled(TRUE, TRUE) /\ now < MaxTime /\ Tick(1, TRUE, TRUE) /\ act' = [k |-> "tick", d |-> 1] /\ UNCHANGED n
IntA == /\ act' = [k |-> "int"] /\ UNCHANGED n
        /\ \/ \E t \in Threads : Lin(t) \/ (pc[t].s = "done" /\ Return(t, pc[t].r))
           \/ Len(jobs) < MaxJobs /\ JobStart(TRUE)
           \/ \E j \in Running : Cancel(j, TRUE)
Next0 == IF Eager /\ ~Settled(TRUE, TRUE) THEN IntA ELSE OpA \/ EndA \/ TickA \/ IntA
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, n>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
(* no start lost, no call stuck: short of quiescence something can happen *)
NoWedge == Settled(TRUE, TRUE) \/ Len(jobs) >= MaxJobs \/ ENABLED IntA
=============================================================================
