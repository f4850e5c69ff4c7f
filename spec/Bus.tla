----------------------------------- MODULE Bus -----------------------------------
(* Fan-out event bus.  par = [buf, rv]: bus buffer and the receivers that may be        *)
(* registered, rv[r] = [cap, st ("block"/"drop"), nm].  One dispatcher.                  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par, now,
          started,       \* GoDispatch was called
          bq,            \* accepted events not yet being dispatched
          cur, todo, at, \* event being dispatched (0 none), receivers still to handle, blocked at (0 none)
          rs,            \* receiver -> "no" / "reg" / "repl" (name taken over) / "closing" / "closed"
          q,             \* receiver -> buffered events
          pc,            \* thread -> [s, op, acc, park, dl]
          idx, del       \* ghost: events dispatched so far; receiver -> indices of the delivered ones
core == <<par, now, started, bq, cur, todo, at, rs, q, pc>>
vars == <<core, idx, del>>
R == DOMAIN par.rv
Cap(r) == par.rv[r].cap
IsBlock(r) == par.rv[r].st = "block"
Idle == [s |-> "idle", op |-> [o |-> ""], acc |-> <<>>, park |-> FALSE, dl |-> 0]
disp == <<bq, cur, todo, at>>
ghost == <<idx, del>>

InitWith(P, T) == /\ par \in P /\ now = 0 /\ started = FALSE /\ bq = <<>> /\ cur = 0 /\ todo = {} /\ at = 0
                  /\ rs = [r \in R |-> "no"] /\ q = [r \in R |-> <<>>] /\ pc = [t \in T |-> Idle]
                  /\ idx = 0 /\ del = [r \in R |-> <<>>]

Call(t, o) == /\ pc[t].s = "idle"
              /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", op |-> o, acc |-> <<>>, park |-> FALSE,
                                          dl |-> IF o.o = "collect" THEN now + o.d ELSE 0]]
              /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, started, disp, rs, q, pc, ghost>>
Pend(t, o) == pc[t].s = "pend" /\ pc[t].op.o = o
DoneWith(t, a) == pc' = [pc EXCEPT ![t].s = "done", ![t].acc = a]
Reading(t, r) == pc[t].s = "pend" /\ pc[t].op.o \in {"recv", "drain", "collect"} /\ pc[t].op.r = r

(* ---- clients ---- *)
Go(t) == Pend(t, "go") /\ started' = TRUE /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, now, disp, rs, q, ghost>>
Accept(t) == /\ Pend(t, "send") /\ bq' = Append(bq, pc[t].op.v) /\ DoneWith(t, <<>>)
             /\ UNCHANGED <<par, now, started, cur, todo, at, rs, q, ghost>>
Reg(t) == /\ Pend(t, "reg")
          /\ LET r == pc[t].op.r IN
             LET old == {x \in R : rs[x] \in {"reg", "closing"} /\ par.rv[x].nm = par.rv[r].nm} IN
             \E n \in {"repl", "closed"} :
                rs' = [x \in R |-> IF x = r THEN "reg" ELSE IF x \in old THEN n ELSE rs[x]]
          /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, now, started, disp, q, ghost>>
CloseBegin(t) == /\ Pend(t, "close") /\ rs[pc[t].op.r] \in {"reg", "repl"} /\ rs' = [rs EXCEPT ![pc[t].op.r] = "closing"]
                 /\ UNCHANGED <<par, now, started, disp, q, pc, ghost>>
Close(t) == /\ Pend(t, "close")
            /\ LET r == pc[t].op.r IN
               /\ rs[r] # "no"
               /\ rs' = [rs EXCEPT ![r] = "closed"] /\ todo' = todo \ {r} /\ at' = IF at = r THEN 0 ELSE at
            /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, now, started, bq, cur, q, ghost>>
BClose(t) == /\ Pend(t, "bclose")
             /\ rs' = [r \in R |-> IF rs[r] \in {"reg", "closing"} THEN "closed" ELSE rs[r]]
             /\ todo' = {} /\ at' = 0
             /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, now, started, bq, cur, q, ghost>>
Take(t) == \E r \in R :
           /\ Reading(t, r) /\ q[r] # <<>>
           /\ q' = [q EXCEPT ![r] = Tail(@)]
           /\ LET a == Append(pc[t].acc, Head(q[r])) IN
              IF pc[t].op.o = "recv" THEN DoneWith(t, a) ELSE pc' = [pc EXCEPT ![t].acc = a, ![t].park = FALSE]
           /\ UNCHANGED <<par, now, started, disp, rs, ghost>>
RecvClosed(t) == /\ Pend(t, "recv") /\ rs[pc[t].op.r] = "closed" /\ q[pc[t].op.r] = <<>>
                 /\ DoneWith(t, <<0>>) /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>
DrainEnd(t) == /\ Pend(t, "drain") /\ q[pc[t].op.r] = <<>> /\ at # pc[t].op.r
               /\ DoneWith(t, pc[t].acc) /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>
CollectEnd(t) == /\ Pend(t, "collect")
                 /\ \/ now >= pc[t].dl /\ DoneWith(t, <<0>> \o pc[t].acc)
                    \/ rs[pc[t].op.r] = "closed" /\ q[pc[t].op.r] = <<>> /\ DoneWith(t, <<-1>> \o pc[t].acc)
                 /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>
Park(t) == /\ pc[t].s = "pend" /\ pc[t].op.o \in {"recv", "collect"} /\ ~pc[t].park /\ q[pc[t].op.r] = <<>>
           /\ pc' = [pc EXCEPT ![t].park = TRUE] /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>
Return(t, a) == /\ pc[t].s = "done" /\ pc[t].acc = a /\ pc' = [pc EXCEPT ![t] = Idle]
                /\ UNCHANGED <<par, now, started, disp, rs, q, ghost>>

(* ---- dispatcher ---- *)
DStart == /\ started /\ cur = 0 /\ bq # <<>> /\ cur' = Head(bq) /\ bq' = Tail(bq)
          /\ todo' = {r \in R : rs[r] \in {"reg", "closing"}} /\ at' = 0
          /\ idx' = idx + 1 /\ UNCHANGED <<par, now, started, rs, q, pc, del>>
DEnd == cur # 0 /\ todo = {} /\ cur' = 0 /\ UNCHANGED <<par, now, started, bq, todo, at, rs, q, pc, ghost>>
May(r) == cur # 0 /\ r \in todo /\ at \in {0, r}
Handled(r) == todo' = todo \ {r} /\ at' = 0
Got(r) == del' = [del EXCEPT ![r] = Append(@, idx)]
Buffer(r) == /\ May(r) /\ Len(q[r]) < Cap(r) /\ q' = [q EXCEPT ![r] = Append(@, cur)] /\ Handled(r) /\ Got(r)
             /\ UNCHANGED <<par, now, started, bq, cur, rs, pc, idx>>
Hand(r) == /\ May(r) /\ Cap(r) = 0
           /\ \E t \in DOMAIN pc : /\ Reading(t, r)
                /\ LET a == Append(pc[t].acc, cur) IN
                   IF pc[t].op.o = "recv" THEN DoneWith(t, a) ELSE pc' = [pc EXCEPT ![t].acc = a, ![t].park = FALSE]
           /\ Handled(r) /\ Got(r) /\ UNCHANGED <<par, now, started, bq, cur, rs, q, idx>>
Block(r) == /\ May(r) /\ at = 0 /\ IsBlock(r) /\ at' = r
            /\ UNCHANGED <<par, now, started, bq, cur, todo, rs, q, pc, ghost>>
DropEv(r) == /\ May(r) /\ ~IsBlock(r)
             /\ IF Cap(r) > 0 THEN Len(q[r]) >= Cap(r) ELSE ~\E t \in DOMAIN pc : Reading(t, r) /\ pc[t].park
             /\ Handled(r) /\ UNCHANGED <<par, now, started, bq, cur, rs, q, pc, ghost>>
Skip(r) == /\ May(r) /\ rs[r] \in {"closing", "repl", "closed"} /\ Handled(r)
           /\ UNCHANGED <<par, now, started, bq, cur, rs, q, pc, ghost>>

Client(t) == Go(t) \/ Accept(t) \/ Reg(t) \/ CloseBegin(t) \/ Close(t) \/ BClose(t) \/ Take(t) \/ RecvClosed(t) \/ DrainEnd(t)
             \/ CollectEnd(t) \/ Park(t)
Dispatch == DStart \/ DEnd \/ \E r \in R : Buffer(r) \/ Hand(r) \/ Block(r) \/ DropEv(r) \/ Skip(r)
Internal == Dispatch \/ \E t \in DOMAIN pc : Client(t)

(* ---- quiescence ---- *)
Stuck == /\ cur # 0 /\ at # 0 /\ IsBlock(at) /\ rs[at] \in {"reg", "repl"}
         /\ Len(q[at]) >= Cap(at) /\ ~\E t \in DOMAIN pc : Reading(t, at)
Settled == /\ Stuck \/ (cur = 0 /\ (bq = <<>> \/ ~started))
           /\ \A t \in DOMAIN pc :
                /\ pc[t].s # "done"
                /\ Pend(t, "send") => (Stuck \/ ~started) /\ Len(bq) >= par.buf
                /\ Pend(t, "recv") => pc[t].park /\ q[pc[t].op.r] = <<>> /\ rs[pc[t].op.r] # "closed"
                /\ Pend(t, "collect") => pc[t].park /\ q[pc[t].op.r] = <<>> /\ now < pc[t].dl
                /\ ~Pend(t, "drain") /\ ~Pend(t, "go")
                /\ (Pend(t, "reg") \/ Pend(t, "bclose")) => Stuck
                /\ Pend(t, "close") => Stuck /\ pc[t].op.r # at

(* ---- properties ---- *)
(* C13: a blocking receiver gets a contiguous run of the dispatched events; C14: any receiver an increasing one *)
Contiguous == \A r \in R : \A i \in 1..Len(del[r]) - 1 :
                 IF IsBlock(r) THEN del[r][i + 1] = del[r][i] + 1 ELSE del[r][i + 1] > del[r][i]
(* ... that reaches up to the last event that was fully dispatched while it stays registered *)
UpToDate == \A r \in R : (IsBlock(r) /\ rs[r] = "reg" /\ del[r] # <<>> /\ r \notin todo) => del[r][Len(del[r])] = idx
Buffers == \A r \in R : Len(q[r]) <= Cap(r)
(* C14: the dispatcher never waits for a dropping receiver *)
NeverWaits == at # 0 => IsBlock(at)
=============================================================================
