--------------------------------- MODULE CBMC ---------------------------------
(* Exhaustive model of the circuit breaker: every interleaving of Threads calls, *)
(* task outcomes and clock steps.  `act` is the stimulus of the last step and is *)
(* hidden by the view.  Eager = TRUE lets internal steps run to quiescence before *)
(* the next stimulus (used to derive test scripts).                              *)
EXTENDS CB, Json, TLC
CONSTANTS SimLen, Threads, Pars, MaxNow, MaxRec, Ticks, Eager

ParsG == [kind : {"sync"}, n : {1, 2}, rt : {4}]
ParsS == [kind : {"sync"}, n : {1, 2, 3}, rt : {4}]
ParsL == [kind : {"sync"}, n : {1, 2, 3}, rt : {2, 4}]
ParsX == [kind : {"sync"}, n : {1, 2, 3, 5}, rt : {2, 4, 10}]
VARIABLES act, log, decided   \* decided: last decision, for the properties
mvars == <<vars, act, decided>>
M == [run |-> TRUE, shed |-> TRUE, order |-> TRUE, count |-> TRUE]

Init == InitWith(Pars, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ decided = [k |-> "none"]

StimA(t) == /\ UNCHANGED decided
            /\ \/ Call(t) /\ act' = [k |-> "call", t |-> t]
               \/ \E r \in {"ok", "err"} : TEnd(t, r) /\ act' = [k |-> "tend", t |-> t, r |-> r]
               \/ EEnd(t) /\ act' = [k |-> "eend", t |-> t]
               \/ OEnd(t) /\ act' = [k |-> "oend", t |-> t]
Clock == \E d \in Ticks : now + d <= MaxNow /\ Tick(d) /\ act' = [k |-> "tick", d |-> d] /\ UNCHANGED decided
IntA(t) == /\ act' = [k |-> "int"]
           /\ \/ DecideRun(t, M) /\ decided' = [k |-> "run", open |-> OpenByHistory]
              \/ DecideShed(t, M) /\ decided' = [k |-> "shed", open |-> OpenByHistory]
              \/ (Record(t) \/ TStart(t) \/ EStart(t) \/ OStart(t) \/ Return(t)) /\ UNCHANGED decided
IntEn(t) == pc[t] \in {"called", "run", "ok", "err", "rec", "open", "fin"}

Next0 == IF Eager /\ (\E t \in Threads : IntEn(t))
        THEN LET t == CHOOSE t \in Threads : IntEn(t) IN IntA(t)
        ELSE Clock \/ \E t \in Threads : StimA(t) \/ IntA(t)
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars

Bound == Len(rec) <= MaxRec
Min(a, b) == IF a < b THEN a ELSE b
(* quotient used to derive scripts: only the age of the last failure and the count up to n matter *)
View == <<par, Min(fails, par.n), IF fails = 0 THEN 0 ELSE Min(now - lastTs, par.rt + 1), pc>>
(* the history enters the full view *)
FullView == <<vars, decided>>

(* C01/C02: the decision agrees with the history of outcomes *)
Sheds == decided.k = "run" => ~decided.open
Admits == decided.k = "shed" => decided.open
(* C03: control states are exclusive by construction; a failed call reaches its handler only when counted *)
Counted == fails = FailRun
TypeOK == /\ fails \in Nat /\ now \in Nat
          /\ \A t \in Threads : pc[t] \in {"idle", "called", "run", "intask", "ok", "err", "rec", "inerr", "open", "inopen", "fin"}

PrintEdge == PrintT("EDGE " \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), par |-> par,
                                       i |-> TLCGet("level") = 1]))
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
