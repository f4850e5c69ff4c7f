------------------------------ MODULE SchedTrace ------------------------------
EXTENDS Sched, Json, IOUtils, TLC
CONSTANTS Sch,   \* starts keep the schedule
          AnyIv,   \* ... of some interval, not necessarily the task's own
          Can,   \* cancel channels close exactly at timeout or stop
          Fin    \* nothing starts or remains after the stop
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
T == 1..9
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
IVOf(p) == IF AnyIv THEN 1..9 ELSE {p.i}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par}, T, IVOf)
Obs == /\ More /\ l' = l + 1 /\ UNCHANGED tr
       /\ \/ Ev.e = "call" /\ Call(Ev.t, Ev.op.o)
          \/ Ev.e = "ret" /\ Return(Ev.t, Ev.r)
          \/ Ev.e = "tick" /\ Tick(Ev.d, Sch, Can)
          \/ Ev.e = "quiet" /\ Quiet(Ev.g, Sch, Can, Fin)
          \/ Ev.e = "js" /\ (Sch => Ev.at = now) /\ Ev.n = Len(jobs) + 1 /\ JobStart(Sch)
          \/ Ev.e = "js" /\ ~Fin /\ Ev.n = Len(jobs) + 1 /\ status = "stopped" /\ ~hot
                /\ jobs' = Append(jobs, [s |-> now, c |-> -1, e |-> -1]) /\ UNCHANGED <<par, now, status, iv, next, hot, stopT, pc>>
          \/ Ev.e = "je" /\ JobEnd(Ev.n)
          \/ Ev.e = "jc" /\ (Can => Ev.at = now) /\ Cancel(Ev.n, Can)
IntStep == /\ More /\ Ev.e \in {"js", "jc", "ret", "tick", "quiet"}
           /\ \E t \in T : Lin(t)
           /\ UNCHANGED <<tr, l>>
Next == Obs \/ IntStep
Spec == Init /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
