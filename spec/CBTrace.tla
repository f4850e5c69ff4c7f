------------------------------- MODULE CBTrace --------------------------------
(* Validation of event traces recorded from the real circuit breaker.  Internal *)
(* steps (Decide, Record) are inferred by TLC.                                   *)
EXTENDS CB, Json, IOUtils, TLC
CONSTANTS MRun, MShed, MOrder
M == [run |-> MRun, shed |-> MShed, order |-> MOrder, count |-> MOrder]
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
T == 1..8
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)

Init == /\ tr \in 1..Len(Traces) /\ l = 1
        /\ InitWith({Traces[tr].par}, T)

Obs == /\ More /\ l' = l + 1 /\ UNCHANGED tr
       /\ \/ Ev.e = "call" /\ Call(Ev.t)
          \/ Ev.e = "tstart" /\ TStart(Ev.t)
          \/ Ev.e = "tend" /\ TEnd(Ev.t, Ev.r)
          \/ Ev.e = "estart" /\ (Ev.own \/ ~M.order) /\ (EStart(Ev.t) \/ EStartEarly(Ev.t, M))
          \/ Ev.e = "eend" /\ (EEnd(Ev.t) \/ EEndEarly(Ev.t))
          \/ Ev.e = "ostart" /\ OStart(Ev.t)
          \/ Ev.e = "oend" /\ OEnd(Ev.t)
          \/ Ev.e = "ret" /\ Return(Ev.t)
          \/ Ev.e = "tick" /\ Tick(Ev.d)
          \/ Ev.e = "quiet" /\ (MOrder => Settled(T)) /\ UNCHANGED vars

(* internal steps only when the next event of some thread needs them, or the clock is about to move *)
IntStep == /\ More /\ Ev.e \notin {"call", "tend", "oend"}
       /\ \E t \in T : Internal(t, M)
       /\ UNCHANGED <<tr, l>>
Next == Obs \/ IntStep
Spec == Init /\ [][Next]_tvars
(* depth-first search that stops at the first explanation of a trace (one worker) *)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
