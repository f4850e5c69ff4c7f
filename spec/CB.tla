---------------------------------- MODULE CB ----------------------------------
(* Circuit breaker.  One action per critical section of the implementation and *)
(* one per boundary with user code:                                            *)
(*   Call -> Decide -> (run)  TStart .. TEnd(r) -> Record -> [EStart .. EEnd]   *)
(*                  -> (shed) OStart .. OEnd                        -> Return   *)
(* Decide and Record are the linearization points (internal steps); everything *)
(* else is observable.  Time is a logical clock; `par` = [n, rt] (threshold,   *)
(* reset timeout), kind = "sync" or "never".                                   *)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES par,     \* configuration
          now,     \* clock
          fails,   \* failures recorded since the last recorded success
          lastTs,  \* instant of the last recorded failure
          pc,      \* thread -> control state
          rec      \* history: sequence of recorded outcomes [r |-> "ok"/"err", ts |-> instant]

vars == <<par, now, fails, lastTs, pc, rec>>

(* control states: idle, called, run, intask, ok, err, rec, inerr, open, inopen, fin *)

InitWith(P, T) == /\ par \in P
                  /\ now = 0 /\ fails = 0 /\ lastTs = 0 /\ rec = <<>>
                  /\ pc = [t \in T |-> "idle"]

Set(t, s) == pc' = [pc EXCEPT ![t] = s]
U(v) == UNCHANGED v

IsOpen == par.kind = "sync" /\ fails >= par.n /\ now - lastTs <= par.rt

(* ---- actions.  Modes (records of booleans) relax what a property does not talk about:
   run:   a task may run only if the breaker is not open
   shed:  a call may be shed only if the breaker is open
   order: the outcome is recorded before the error handler starts
   count: while an error handler runs, its failure already keeps an open breaker shut   *)
Call(t) == pc[t] = "idle" /\ Set(t, "called") /\ U(<<par, now, fails, lastTs, rec>>)

DecideRun(t, m) == /\ pc[t] = "called" /\ (m.run => ~IsOpen)
                   /\ (m.count => ~(IsOpen /\ lastTs = now /\ \E u \in DOMAIN pc : pc[u] = "inerr"))
                   /\ Set(t, "run") /\ U(<<par, now, fails, lastTs, rec>>)
DecideShed(t, m) == /\ pc[t] = "called" /\ (m.shed => IsOpen) /\ par.kind = "sync"
                    /\ Set(t, "open") /\ U(<<par, now, fails, lastTs, rec>>)

TStart(t) == pc[t] = "run" /\ Set(t, "intask") /\ U(<<par, now, fails, lastTs, rec>>)
TEnd(t, r) == pc[t] = "intask" /\ r \in {"ok", "err"} /\ Set(t, r) /\ U(<<par, now, fails, lastTs, rec>>)

RecordOk(t) == /\ pc[t] = "ok"
               /\ Set(t, "fin")
               /\ fails' = 0 /\ lastTs' = 0
               /\ rec' = Append(rec, [r |-> "ok", ts |-> now])
               /\ U(<<par, now>>)
RecordErr(t, to) == /\ fails' = fails + 1 /\ lastTs' = now
                    /\ rec' = Append(rec, [r |-> "err", ts |-> now])
                    /\ Set(t, to)
                    /\ U(<<par, now>>)
EStart(t) == pc[t] = "rec" /\ Set(t, "inerr") /\ U(<<par, now, fails, lastTs, rec>>)
EEnd(t) == pc[t] = "inerr" /\ Set(t, "fin") /\ U(<<par, now, fails, lastTs, rec>>)
(* lenient order: the handler may run before the failure is recorded, which then happens before the return *)
EStartEarly(t, m) == ~m.order /\ pc[t] = "err" /\ Set(t, "inerr2") /\ U(<<par, now, fails, lastTs, rec>>)
EEndEarly(t) == pc[t] = "inerr2" /\ Set(t, "err2") /\ U(<<par, now, fails, lastTs, rec>>)
Record(t) == \/ RecordOk(t)
             \/ pc[t] = "err" /\ RecordErr(t, "rec")
             \/ pc[t] = "inerr2" /\ RecordErr(t, "inerr")
             \/ pc[t] = "err2" /\ RecordErr(t, "fin")

OStart(t) == pc[t] = "open" /\ Set(t, "inopen") /\ U(<<par, now, fails, lastTs, rec>>)
OEnd(t) == pc[t] = "inopen" /\ Set(t, "fin") /\ U(<<par, now, fails, lastTs, rec>>)
Return(t) == pc[t] = "fin" /\ Set(t, "idle") /\ U(<<par, now, fails, lastTs, rec>>)
Tick(d) == now' = now + d /\ U(<<par, fails, lastTs, pc, rec>>)

Internal(t, m) == DecideRun(t, m) \/ DecideShed(t, m) \/ Record(t)

(* at quiescence every call in progress is inside user code *)
Settled(T) == \A t \in T : pc[t] \in {"idle", "intask", "inerr", "inerr2", "inopen"}

(* ---- the properties, stated on the history of recorded outcomes ---- *)
FailRun == LET S == {i \in 0..Len(rec) : \A j \in (i+1)..Len(rec) : rec[j].r = "err"}
           IN Len(rec) - (CHOOSE i \in S : \A j \in S : i <= j)     \* failures since last success
OpenByHistory == /\ par.kind = "sync"
                 /\ (par.n <= 0 \/ FailRun >= par.n)
                 /\ now - (IF FailRun = 0 THEN 0 ELSE rec[Len(rec)].ts) <= par.rt
=============================================================================
