----------------------------------- MODULE TM -----------------------------------
(* Task manager.  par = [nm]: name of each task that may be registered (each at most once). *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par,
          st,     \* task -> "new" / "started" / "stopped": what was done to it
          map,    \* names in use -> task, as a set of tasks (their names are distinct)
          used,   \* tasks offered for registration so far
          pc      \* thread -> [s, op, start: task to start (0 none), stop: tasks to stop, all: names still to free]
vars == <<par, st, map, used, pc>>
Idle == [s |-> "idle", op |-> [o |-> ""], start |-> 0, stop |-> {}, all |-> {}, r |-> 0]
K == DOMAIN par.nm
Nm(k) == par.nm[k]
InitWith(P, T) == par \in P /\ st = [k \in K |-> "new"] /\ map = {} /\ used = {} /\ pc = [t \in T |-> Idle]

Call(t, o) == /\ pc[t].s = "idle"
              /\ o.o = "reg" => o.k \notin used
              /\ used' = IF o.o = "reg" THEN used \cup {o.k} ELSE used
              /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.s = "pend", !.op = o, !.all = IF o.o = "all" THEN map ELSE {}]]
              /\ UNCHANGED <<par, st, map>>
Pend(t, o) == pc[t].s = "pend" /\ pc[t].op.o = o
LinReg(t) == /\ Pend(t, "reg")
             /\ LET k == pc[t].op.k IN
                IF \E x \in map : Nm(x) = Nm(k) THEN pc' = [pc EXCEPT ![t].s = "done", ![t].r = 1] /\ UNCHANGED map
                ELSE map' = map \cup {k} /\ pc' = [pc EXCEPT ![t].s = "done", ![t].start = k]
             /\ UNCHANGED <<par, st, used>>
LinUn(t) == /\ Pend(t, "un")
            /\ LET S == {x \in map : Nm(x) = pc[t].op.nm} IN
               map' = map \ S /\ pc' = [pc EXCEPT ![t].s = "done", ![t].stop = S]
            /\ UNCHANGED <<par, st, used>>
(* names are freed at once or one by one, those registered meanwhile may be included *)
AllSome(t) == /\ Pend(t, "all")
              /\ \E S \in (SUBSET map \ {{}}) :
                 /\ map' = map \ S /\ pc' = [pc EXCEPT ![t].stop = @ \cup S]
              /\ UNCHANGED <<par, st, used>>
AllEnd(t) == /\ Pend(t, "all") /\ pc[t].all \cap map = {}
             /\ pc' = [pc EXCEPT ![t].s = "done"] /\ UNCHANGED <<par, st, map, used>>
Start(k) == /\ st[k] = "new" /\ st' = [st EXCEPT ![k] = "started"]
            /\ \E t \in DOMAIN pc : pc[t].start = k /\ pc' = [pc EXCEPT ![t].start = 0]
            /\ UNCHANGED <<par, map, used>>
Stop(k) == /\ st[k] = "started" /\ st' = [st EXCEPT ![k] = "stopped"]
           /\ \E t \in DOMAIN pc : k \in pc[t].stop /\ pc' = [pc EXCEPT ![t].stop = @ \ {k}]
           /\ UNCHANGED <<par, map, used>>
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc[t].start = 0 /\ pc[t].stop = {}
                /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, st, map, used>>
Lin(t) == LinReg(t) \/ LinUn(t) \/ AllSome(t) \/ AllEnd(t)
Settled == \A t \in DOMAIN pc : pc[t].s = "idle"
(* C20 *)
OnePerName == \A x, y \in map : Nm(x) = Nm(y) => x = y
Runs == Settled => {k \in K : st[k] = "started"} = map
=============================================================================
