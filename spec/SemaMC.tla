-------------------------------- MODULE SemaMC --------------------------------
EXTENDS Sema, Json, TLC, Sequences
CONSTANTS SimLen, Threads, Caps, Eager, Kinds
VARIABLES act, log
mvars == <<vars, act, log>>
M == [safe |-> TRUE, live |-> TRUE]
Ops == {"acq", "try", "rel"}
Init == InitWith([kind : Kinds, cap : Caps], Threads) /\ act = [k |-> "init"] /\ log = <<>>
Stim == \E t \in Threads, o \in Ops : Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> [o |-> o]]
IntStep(t) == act' = [k |-> "int"] /\ (Lin(t, M) \/ \E r \in BOOLEAN : Return(t, r))
IntEn(t) == pc[t].s = "done" \/ (pc[t].s = "pend" /\ (pc[t].o # "acq" \/ Free))
Next0 == IF Eager /\ \E t \in Threads : IntEn(t)
        THEN LET t == CHOOSE t \in Threads : IntEn(t) IN IntStep(t)
        ELSE Stim \/ \E t \in Threads : IntStep(t)
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
(* fair specification: every pending operation that stays possible (again and again) is performed,
   every holder eventually releases *)
Rel == \E t \in Threads : Call(t, "rel") /\ act' = [k |-> "op"]
FairSpec == /\ Spec
            /\ \A t \in Threads : /\ SF_mvars(LinAcq(t, M) /\ act' = [k |-> "int"] /\ UNCHANGED log)
                                  /\ WF_mvars(IntStep(t) /\ UNCHANGED log)
Progress == \A t \in Threads : (pc[t].s = "pend" /\ pc[t].o # "acq") ~> (pc[t].s # "pend")
AcqProgress == \A t \in Threads : ([]<>Free) => ((pc[t].s = "pend" /\ pc[t].o = "acq") ~> (pc[t].s # "pend"))
View == vars
NoLostWakeup == \A t \in Threads : (pc[t].s = "pend" /\ pc[t].o = "acq" /\ Free) => ENABLED Lin(t, M)
PrintEdge == PrintT("EDGE " \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), par |-> par,
                                       i |-> TLCGet("level") = 1]))
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
