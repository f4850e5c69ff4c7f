-------------------------------- MODULE Report --------------------------------
(* Tracers made from configurations, seen from the servers.  par[i] = [conf, addr, ns, svc, inst]:   *)
(* conf: whether the reporter is given a configuration at all; addr: 0 no address, 1 and 2 servers   *)
(* of which everything is known, 9 an address where nobody answers.  A segment is an operation with  *)
(* the operations inside of it, ended inside out.  Servers hear of a segment some time after its     *)
(* last operation ended; that may take a while, but not longer than until everything is quiet.       *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par,
          st,     \* tracer -> "none" / "up" / "closed"
          met,    \* tracers whose server has been told of them
          sg,     \* segments: [i |-> tracer, ops |-> names in the order begun, open |-> how many have not ended]
          due,    \* segments that some server has to hear of
          got     \* what servers heard: [srv, name, inst, ops, n: segment]
vars == <<par, st, met, sg, due, got>>

InitWith(P) == /\ par \in P /\ st = [i \in DOMAIN par |-> "none"] /\ met = {} /\ sg = <<>> /\ due = {} /\ got = <<>>

Tells(i) == par[i].conf /\ par[i].addr \in {1, 2}
Service(i) == par[i].ns \o "::" \o par[i].svc
(* an instance without a name is given one *)
SameInst(i, x) == IF par[i].inst = "" THEN x # "" ELSE x = par[i].inst

Make(i) == /\ st[i] = "none" /\ st' = [st EXCEPT ![i] = "up"] /\ UNCHANGED <<par, met, sg, due, got>>
Hello(i, srv, name, inst) ==
  /\ st[i] = "up" /\ Tells(i) /\ srv = par[i].addr /\ name = Service(i) /\ SameInst(i, inst)
  /\ met' = met \cup {i} /\ UNCHANGED <<par, st, sg, due, got>>
Start(i, op) == /\ st[i] # "none" /\ sg' = Append(sg, [i |-> i, ops |-> <<op>>, open |-> 1]) /\ UNCHANGED <<par, st, met, due, got>>
Inner(n, op) == /\ n \in DOMAIN sg /\ sg[n].open > 0
                /\ sg' = [sg EXCEPT ![n].ops = Append(@, op), ![n].open = @ + 1] /\ UNCHANGED <<par, st, met, due, got>>
Finish(n) == /\ n \in DOMAIN sg /\ sg[n].open > 0
             /\ sg' = [sg EXCEPT ![n].open = @ - 1]
             /\ due' = IF sg[n].open = 1 /\ Tells(sg[n].i) /\ st[sg[n].i] = "up" THEN due \cup {n} ELSE due
             /\ UNCHANGED <<par, st, met, got>>
Heard(n, srv, name, inst, ops) ==
  /\ n \in due /\ LET i == sg[n].i IN srv = par[i].addr /\ name = Service(i) /\ SameInst(i, inst) /\ ops = sg[n].ops
  /\ due' = due \ {n} /\ got' = Append(got, [srv |-> srv, name |-> name, inst |-> inst, ops |-> ops, n |-> n])
  /\ UNCHANGED <<par, st, met, sg>>
Quiet == due = {} /\ \A i \in DOMAIN par : st[i] = "up" /\ Tells(i) => i \in met
(* closed when nothing is on its way *)
Close(i) == /\ Quiet /\ st[i] = "up" /\ st' = [st EXCEPT ![i] = "closed"] /\ UNCHANGED <<par, met, sg, due, got>>
-------------------------------------------------------------------------------
(* a server hears only of those that address it, by their names, and of every ended segment at most once *)
Home == \A k \in DOMAIN got : LET i == sg[got[k].n].i IN /\ got[k].srv = par[i].addr /\ par[i].conf
                                                         /\ got[k].name = Service(i) /\ SameInst(i, got[k].inst)
Once == \A j, k \in DOMAIN got : got[j].n = got[k].n => j = k
Ended == \A k \in DOMAIN got : sg[got[k].n].open = 0 /\ got[k].ops = sg[got[k].n].ops
Silent == \A i \in DOMAIN par : ~Tells(i) => i \notin met /\ \A k \in DOMAIN got : sg[got[k].n].i # i
(* when it is quiet, nothing that ended while its tracer was up is missing: with late, the ended-after-closing ones *)
Whole(late) == Quiet => \A n \in DOMAIN sg : sg[n].open = 0 /\ Tells(sg[n].i) /\ n \notin late => \E k \in DOMAIN got : got[k].n = n
===============================================================================
