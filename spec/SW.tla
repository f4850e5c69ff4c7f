----------------------------------- MODULE SW -----------------------------------
(* Sliding window with run-time reconfiguration.  par = [cap, w, unit]: initial capacity  *)
(* and window of w clock units; the clock T = 2k+e is k units and e ns.                    *)
EXTENDS Integers, Sequences
VARIABLES par, now,
          cap, w,    \* current configuration (cap <= 0: unlimited, reported as 0)
          rec,       \* instants of the admissions that count, oldest first
          pc
vars == <<par, now, cap, w, rec, pc>>
Fine(T) == (T \div 2) * 1000 + (T % 2)
Norm(c) == IF c < 0 THEN 0 ELSE c
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
Idle == [s |-> "idle", o |-> [o |-> ""], r |-> 0]
InitWith(P, T) == par \in P /\ now = 0 /\ cap = Norm(par.cap) /\ w = par.w /\ rec = <<>> /\ pc = [t \in T |-> Idle]
Busy(t) == pc[t].s # "idle"
Call(t, o) == ~Busy(t) /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", o |-> o, r |-> 0]] /\ UNCHANGED <<par, now, cap, w, rec>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, cap, w, rec, pc>>
Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]
InWindow == SelectSeq(rec, LAMBDA x : Fine(now) - Fine(x) <= 1000 * w)
LinAcq(t) == /\ pc[t].s = "pend" /\ pc[t].o.o = "acq"
             /\ IF cap = 0 THEN UNCHANGED rec /\ Done(t, 1)
                ELSE IF Len(InWindow) < cap THEN rec' = Last(Append(rec, now), cap) /\ Done(t, 1)
                ELSE UNCHANGED rec /\ Done(t, 0)
             /\ UNCHANGED <<par, now, cap, w>>
LinUpd(t) == /\ pc[t].s = "pend" /\ pc[t].o.o = "upd"
             /\ cap' = Norm(pc[t].o.c) /\ w' = pc[t].o.w /\ rec' = Last(rec, Norm(pc[t].o.c))
             /\ Done(t, 0) /\ UNCHANGED <<par, now>>
LinGet(t) == /\ pc[t].s = "pend"
             /\ \/ pc[t].o.o = "cap" /\ Done(t, cap)
                \/ pc[t].o.o = "win" /\ Done(t, w)
             /\ UNCHANGED <<par, now, cap, w, rec>>
Lin(t) == LinAcq(t) \/ LinUpd(t) \/ LinGet(t)
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, now, cap, w, rec>>
Settled(T) == \A t \in T : ~Busy(t)
Bounded == Len(rec) <= cap /\ \A i \in 1..Len(rec) - 1 : rec[i] <= rec[i + 1]
=============================================================================
