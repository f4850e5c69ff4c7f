--------------------------------- MODULE Sched ---------------------------------
(* A scheduled task.  par = [kind ("delay"/"rate"), i, t]: interval and job timeout in units.   *)
(* Jobs are the user's: when they end is up to the environment.  Time passes only at quiescence. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par, now,
          status,   \* "new" / "started" / "stopped"
          iv,       \* interval of the schedule
          next,     \* instant at which the next job is due, -1: only known when the running one ends
          jobs,     \* jobs started so far: [s: start, c: cancel channel closed at (-1: not), e: end (-1: running)]
          hot,      \* stopped at this very instant: a job whose launch was under way may still start
          stopT,    \* instant of the stop, -1 before
          pc        \* client thread -> [s, o, r]
vars == <<par, now, status, iv, next, jobs, hot, stopT, pc>>
Idle == [s |-> "idle", o |-> "", r |-> 0]
J == DOMAIN jobs
Running == {n \in J : jobs[n].e = -1}
MaxOf(S) == CHOOSE x \in S : \A y \in S : x >= y
InitWith(P, T, IV(_)) ==
   /\ par \in P /\ now = 0 /\ status = "new" /\ iv \in IV(par) /\ next = -1 /\ jobs = <<>> /\ hot = FALSE /\ stopT = -1
   /\ pc = [t \in T |-> Idle]

Call(t, o) == /\ pc[t].s = "idle" /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", o |-> o, r |-> 0]]
              /\ UNCHANGED <<par, now, status, iv, next, jobs, hot, stopT>>
Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle]
                /\ UNCHANGED <<par, now, status, iv, next, jobs, hot, stopT>>
LinStart(t) == /\ pc[t].s = "pend" /\ pc[t].o \in {"start", "mstart"}
               /\ IF status = "new" THEN status' = "started" /\ next' = now /\ Done(t, 0)
                  ELSE UNCHANGED <<status, next>> /\ Done(t, 1)
               /\ UNCHANGED <<par, now, iv, jobs, hot, stopT>>
LinStop(t) == /\ pc[t].s = "pend" /\ pc[t].o \in {"stop", "mstop"}
              /\ IF status = "started" THEN status' = "stopped" /\ hot' = TRUE /\ stopT' = now /\ Done(t, 0)
                 ELSE UNCHANGED <<status, hot, stopT>> /\ Done(t, 1)
              /\ UNCHANGED <<par, now, iv, next, jobs>>
Lin(t) == LinStart(t) \/ LinStop(t)

Due == next # -1 /\ next <= now
(* sch: starts keep to the schedule; off, they only need a task that is started *)
JobStart(sch) ==
   /\ status = "started" \/ (status = "stopped" /\ hot)
   /\ sch => Due
   /\ sch /\ par.kind = "delay" => Running = {}
   /\ jobs' = Append(jobs, [s |-> now, c |-> -1, e |-> -1])
   /\ next' = IF par.kind = "delay" THEN -1 ELSE next + iv
   /\ UNCHANGED <<par, now, status, iv, hot, stopT, pc>>
JobEnd(n) == /\ n \in Running
             /\ jobs' = [jobs EXCEPT ![n].e = now]
             /\ next' = IF par.kind = "delay" THEN now + iv ELSE next
             /\ UNCHANGED <<par, now, status, iv, hot, stopT, pc>>
Over(n) == now >= jobs[n].s + par.t \/ status = "stopped"
Cancel(n, can) == /\ n \in Running /\ jobs[n].c = -1 /\ (can => Over(n))
                  /\ jobs' = [jobs EXCEPT ![n].c = now]
                  /\ UNCHANGED <<par, now, status, iv, next, hot, stopT, pc>>

Settled(sch, can) == /\ \A t \in DOMAIN pc : pc[t].s = "idle"
                     /\ (sch /\ status = "started") => ~Due
                     /\ can => \A n \in Running : Over(n) => jobs[n].c # -1
(* g: goroutines of the task.  None is left when it is stopped, its jobs have returned and a pending delay has lapsed *)
Ended == stopT # -1 /\ Running = {} /\ now > MaxOf({stopT} \cup {jobs[n].e : n \in J}) + par.i
Quiet(g, sch, can, fin) == /\ Settled(sch, can) /\ ((fin /\ Ended) => g = 0)
                           /\ hot' = FALSE /\ UNCHANGED <<par, now, status, iv, next, jobs, stopT, pc>>
Tick(d, sch, can) == /\ Settled(sch, can) /\ now' = now + d /\ hot' = FALSE
                     /\ UNCHANGED <<par, status, iv, next, jobs, stopT, pc>>

(* ---- properties, on the history of jobs ---- *)
NoOverlap == par.kind = "delay" => Cardinality(Running) <= 1
(* C17 *)
Delays == par.kind = "delay" =>
   \A n \in J : n > 1 => jobs[n - 1].e # -1 /\ jobs[n].s = jobs[n - 1].e + par.i
(* C18 *)
Rate == par.kind = "rate" => \A n \in J : jobs[n].s = jobs[1].s + (n - 1) * par.i
NoneSkipped == (Settled(TRUE, TRUE) /\ status = "started") =>
   /\ par.kind = "rate" => Len(jobs) = 1 + (now - jobs[1].s) \div par.i
   /\ par.kind = "delay" => Len(jobs) >= 1 /\ (Running # {} \/ now < jobs[Len(jobs)].e + par.i)
(* C16 *)
OnlyStarted == status = "new" => jobs = <<>>
(* C19 *)
CancelExact == \A n \in J : /\ jobs[n].c # -1 => jobs[n].c \in {jobs[n].s + par.t, stopT, jobs[n].s} /\ (jobs[n].c = jobs[n].s => stopT = jobs[n].s)
                            /\ Settled(TRUE, TRUE) /\ n \in Running /\ jobs[n].c = -1 => now < jobs[n].s + par.t /\ status # "stopped"
Final == stopT # -1 => \A n \in J : jobs[n].s <= stopT
=============================================================================
