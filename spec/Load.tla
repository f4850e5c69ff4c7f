---------------------------------- MODULE Load ----------------------------------
(* Load policy of a configuration store.  par = [min]: minimum interval, <= 0: load at every read. *)
(* One key, whose persisted value is a version number.                                              *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par, now,
          lb, le,     \* begin and end of the last successful load, Never before it
          ver,        \* persisted version
          val,        \* served version
          ld,         \* loads under way: number -> [t: reader, at, v, ap: applied]
          pc          \* reader -> [s, o, seen: loaded or found nothing due, r]
vars == <<par, now, lb, le, ver, val, ld, pc>>
Never == -1000000000
Idle == [s |-> "idle", o |-> "", seen |-> FALSE, r |-> -9]
InitWith(P, T) == /\ par \in P /\ now = 0 /\ lb = Never /\ le = Never /\ ver = 0 /\ val = 0 /\ ld = <<>> /\ pc = [t \in T |-> Idle]
Throttled == par.min > 0
First == le = Never
(* a load is allowed / needed.  The interval counts from the end, or at least the beginning of the last load *)
May == ~Throttled \/ First \/ now - lb >= par.min
Must == ~Throttled \/ First \/ now - le >= par.min
Busy == {n \in DOMAIN ld : ld[n].t # 0}
Call(t, o) == pc[t].s = "idle" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.s = "pend", !.o = o]] /\ UNCHANGED <<par, now, lb, le, ver, val, ld>>
LoadBegin(t) == /\ pc[t].s = "pend" /\ May /\ (Throttled => Busy = {}) /\ ~(\E n \in Busy : ld[n].t = t)
                /\ pc[t].o = "do" => ~pc[t].seen
                /\ ld' = Append(ld, [t |-> t, at |-> now, v |-> ver, ap |-> FALSE])
                /\ UNCHANGED <<par, now, lb, le, ver, val, pc>>
Apply(n) == /\ n \in Busy /\ ~ld[n].ap /\ val' = ld[n].v /\ ld' = [ld EXCEPT ![n].ap = TRUE]
            /\ UNCHANGED <<par, now, lb, le, ver, pc>>
LoadEnd(n, ok) == /\ n \in Busy /\ ld[n].ap = ok
                  /\ ld' = [ld EXCEPT ![n].t = 0]
                  /\ IF ok THEN lb' = ld[n].at /\ le' = now ELSE UNCHANGED <<lb, le>>
                  /\ pc' = [pc EXCEPT ![ld[n].t].seen = TRUE, ![ld[n].t].r = IF pc[ld[n].t].o = "do" THEN (IF ok THEN 0 ELSE 1) ELSE -9]
                  /\ UNCHANGED <<par, now, ver, val>>
Skip(t) == /\ pc[t].s = "pend" /\ ~pc[t].seen /\ Throttled /\ ~First /\ now - le < par.min
           /\ ~(\E n \in Busy : ld[n].t = t)
           /\ pc' = [pc EXCEPT ![t].seen = TRUE, ![t].r = IF pc[t].o = "do" THEN 0 ELSE -9] /\ UNCHANGED <<par, now, lb, le, ver, val, ld>>
Read(t) == /\ pc[t].s = "pend" /\ pc[t].seen /\ ~(\E n \in Busy : ld[n].t = t)
           /\ pc' = [pc EXCEPT ![t].s = "done", ![t].r = IF pc[t].o = "do" THEN @ ELSE val]
           /\ UNCHANGED <<par, now, lb, le, ver, val, ld>>
Return(t, r) == pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, now, lb, le, ver, val, ld>>
Ext == ver' = ver + 1 /\ UNCHANGED <<par, now, lb, le, val, ld, pc>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, lb, le, ver, val, ld, pc>>
Internal == \/ \E t \in DOMAIN pc : Skip(t) \/ Read(t)
            \/ \E n \in DOMAIN ld : Apply(n)
(* readers wait only for a load that is under way *)
Settled == \A t \in DOMAIN pc : pc[t].s = "idle" \/ (pc[t].s = "pend" /\ Busy # {})
(* ---- properties ---- *)
OneAtATime == Throttled => Cardinality(Busy) <= 1
Spaced == Throttled => \A n \in Busy : First \/ ld[n].at - lb >= par.min
(* whoever reads after the interval is up to date with what was persisted when the load began *)
Fresh == val <= ver
=============================================================================
