--------------------------------- MODULE FWMC ---------------------------------
EXTENDS FW, Json, TLC, Sequences, FiniteSets
CONSTANTS SimLen, Threads, Pars, Ticks, Eager, Hist, MaxNow, MaxHist
ParsS == [cap : 0..2, w : {1, 3}, off : {0, 1}, unit : {"1ms"}]
ParsG == [cap : 1..2, w : {2}, off : {0, 1}, unit : {"50ns", "500ms", "30m"}]
    \cup [cap : {2}, w : {1}, off : {0, 1}, unit : {"1ms", "1s"}]
ParsX == [cap : {0, 1, 2, 3, 5}, w : {1, 2, 3, 7}, off : {0, 1}, unit : {"50ns", "1us", "1ms", "333333333ns", "1s", "1h", "24h"}]
VARIABLES hist, act, log
mvars == <<vars, hist, act, log>>
Init == InitWith(Pars, Threads) /\ hist = <<>> /\ act = [k |-> "init"] /\ log = <<>>
IntStep(t) == /\ act' = [k |-> "int"]
              /\ \/ /\ Lin(t) /\ hist' = (IF Hist /\ pc[t].o = "acq" THEN Append(hist, <<now, pc'[t].r>>) ELSE hist)
                 \/ \E r \in 0..10 : Return(t, r) /\ UNCHANGED hist
Stim == /\ UNCHANGED hist
        /\ \/ \E t \in Threads, o \in {"acq", "cap", "win"} :
                 (Hist => o = "acq") /\ Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> [o |-> o]]
           \/ \E d \in Ticks : Tick(d) /\ act' = [k |-> "tick", d |-> d]
Next0 == IF Eager /\ \E t \in Threads : Busy(t)
        THEN LET t == CHOOSE t \in Threads : Busy(t) IN IntStep(t)
        ELSE Stim \/ \E t \in Threads : IntStep(t)
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
Bound == now <= MaxNow /\ Len(hist) <= MaxHist
(* C08 verbatim: within every window the admissions are exactly the first cap decisions *)
Exact == \A i \in 1..Len(hist) :
            LET before == {j \in 1..i-1 : Win(hist[j][1]) = Win(hist[i][1]) /\ hist[j][2] = 1}
            IN (hist[i][2] = 1) <=> Cardinality(before) < par.cap
View == <<par, now % (2 * par.w), Used, Win(now) = win, pc>>
FullView == <<vars, hist>>
PrintEdge == PrintT("EDGE " \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), par |-> par,
                                       i |-> TLCGet("level") = 1]))
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
