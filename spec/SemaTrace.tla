------------------------------- MODULE SemaTrace ------------------------------
EXTENDS Sema, Json, IOUtils, TLC, Sequences
CONSTANTS Safe, Live
M == [safe |-> Safe, live |-> Live]
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
T == 1..9
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par}, T)
Obs == /\ More /\ l' = l + 1 /\ UNCHANGED tr
       /\ \/ Ev.e = "call" /\ Call(Ev.t, Ev.op.o)
          \/ Ev.e = "ret" /\ Return(Ev.t, Ev.r)
          \/ Ev.e = "quiet" /\ Settled(T, M) /\ UNCHANGED vars
(* just-in-time linearization: only when the next event is a return that is not linearized yet, or quiescence *)
IntStep == /\ More /\ (Ev.e = "quiet" \/ (Ev.e = "ret" /\ pc[Ev.t].s = "pend"))
           /\ \E t \in T : Lin(t, M)
           /\ UNCHANGED <<tr, l>>
Next == Obs \/ IntStep
Spec == Init /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
