----------------------------------- MODULE FW -----------------------------------
(* Fixed window.  par = [cap, w, off, unit]: windows of w clock units; the clock T = 2k+e  *)
(* is k units + e ns - off ns after a window boundary.  Windows end on (and include) the   *)
(* boundaries.                                                                             *)
EXTENDS Integers
VARIABLES par, now,
          win, n,    \* window of the last admission decision and admissions in it
          pc
vars == <<par, now, win, n, pc>>
Fine(T) == (T \div 2) * 1000 + (T % 2) - par.off
Win(T) == (Fine(T) + 1000 * par.w - 1) \div (1000 * par.w)      \* ceiling; the window that ends at boundary 0 is 0
Idle == [s |-> "idle", o |-> "", r |-> 0]
InitWith(P, T) == par \in P /\ now = 0 /\ win = 0 /\ n = 0 /\ pc = [t \in T |-> Idle]
Busy(t) == pc[t].s # "idle"
Call(t, o) == ~Busy(t) /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", o |-> o, r |-> 0]] /\ UNCHANGED <<par, now, win, n>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, win, n, pc>>
Used == IF Win(now) = win THEN n ELSE 0
Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]
LinAcq(t) == /\ pc[t].s = "pend" /\ pc[t].o = "acq" /\ win' = Win(now)
             /\ IF Used < par.cap THEN n' = Used + 1 /\ Done(t, 1) ELSE n' = Used /\ Done(t, 0)
             /\ UNCHANGED <<par, now>>
LinGet(t) == /\ pc[t].s = "pend"
             /\ \/ pc[t].o = "cap" /\ Done(t, par.cap)
                \/ pc[t].o = "win" /\ Done(t, par.w)
             /\ UNCHANGED <<par, now, win, n>>
Lin(t) == LinAcq(t) \/ LinGet(t)
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, now, win, n>>
Settled(T) == \A t \in T : ~Busy(t)
Bounded == n >= 0 /\ (n <= par.cap \/ par.cap < 0)
=============================================================================
