--------------------------------- MODULE Sema ---------------------------------
(* Counting semaphore.  par = [kind, cap].  Each operation is Call, one internal *)
(* linearization step Lin, Return; Acquire's Lin is enabled only while a permit  *)
(* is free - a thread that cannot take it is blocked.                            *)
EXTENDS Integers, FiniteSets
VARIABLES par,
          held,   \* permits acquired and not released
          pc      \* thread -> [s |-> "idle"/"pend"/"done", o |-> op, r |-> result]
vars == <<par, held, pc>>
Idle == [s |-> "idle", o |-> "", r |-> FALSE]

InitWith(P, T) == par \in P /\ held = 0 /\ pc = [t \in T |-> Idle]

Call(t, o) == /\ pc[t].s = "idle" /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", o |-> o, r |-> FALSE]]
              /\ UNCHANGED <<par, held>>
Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]

(* m.safe: grants need a free permit;  m.live: refusals and blocking need that none is free *)
Free == held < par.cap
LinAcq(t, m) == /\ pc[t].s = "pend" /\ pc[t].o = "acq" /\ (m.safe => Free)
                /\ held' = held + 1 /\ Done(t, TRUE) /\ UNCHANGED par
LinTry(t, m) == /\ pc[t].s = "pend" /\ pc[t].o = "try"
                /\ \/ (m.safe => Free) /\ held' = held + 1 /\ Done(t, TRUE)
                   \/ (m.live => ~Free) /\ UNCHANGED held /\ Done(t, FALSE)
                /\ UNCHANGED par
LinRel(t) == /\ pc[t].s = "pend" /\ pc[t].o = "rel"
             /\ held' = (IF held > 0 THEN held - 1 ELSE 0) /\ Done(t, TRUE) /\ UNCHANGED par
Lin(t, m) == LinAcq(t, m) \/ LinTry(t, m) \/ LinRel(t)
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, held>>

(* quiescence: nothing completed is unreported; who is still pending is an acquisition without a free permit *)
Settled(T, m) == \A t \in T : /\ pc[t].s # "done"
                              /\ pc[t].s = "pend" => pc[t].o = "acq"
                              /\ (m.live /\ pc[t].s = "pend") => ~Free
AtMostCap == held >= 0 /\ held <= par.cap
=============================================================================
