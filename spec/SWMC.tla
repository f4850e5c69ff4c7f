--------------------------------- MODULE SWMC ---------------------------------
EXTENDS SW, Json, TLC, FiniteSets
CONSTANTS SimLen, Threads, Caps, Ws, Units, UpdCaps, Ticks, Eager, Hist, MaxNow, MaxHist
UNone == {}
US == 0..2
USL == 0..3
UG == -1..2
UGL == -1..3
UX == {-3, 0, 1, 2, 3, 4, 6}
VARIABLES hist, act, log
mvars == <<vars, hist, act, log>>
Init == InitWith([cap : Caps, w : Ws, unit : Units], Threads) /\ hist = <<>> /\ act = [k |-> "init"] /\ log = <<>>
Ops == {[o |-> "acq"]} \cup (IF Hist THEN {} ELSE {[o |-> "cap"], [o |-> "win"]})
       \cup [o : {"upd"}, c : UpdCaps, w : Ws]
IntStep(t) == /\ act' = [k |-> "int"]
              /\ \/ /\ Lin(t) /\ hist' = (IF Hist /\ pc[t].o.o = "acq" /\ cap > 0 THEN Append(hist, <<now, pc'[t].r>>) ELSE hist)
                 \/ pc[t].s = "done" /\ Return(t, pc[t].r) /\ UNCHANGED hist
Stim == /\ UNCHANGED hist
        /\ \/ \E t \in Threads, o \in Ops : Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> o]
           \/ \E d \in Ticks : Tick(d) /\ act' = [k |-> "tick", d |-> d]
Next0 == IF Eager /\ \E t \in Threads : Busy(t)
        THEN LET t == CHOOSE t \in Threads : Busy(t) IN IntStep(t)
        ELSE Stim \/ \E t \in Threads : IntStep(t)
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
Bound == now <= MaxNow /\ Len(hist) <= MaxHist
(* C09 verbatim (no updates): never more than cap admissions in any window, and refused only when there are cap of them *)
Law == UpdCaps = {} =>
       \A i \in 1..Len(hist) :
            LET inw == {j \in 1..i-1 : hist[j][2] = 1 /\ Fine(hist[i][1]) - Fine(hist[j][1]) <= 1000 * par.w}
            IN (hist[i][2] = 1) <=> Cardinality(inw) < par.cap
MaxW == CHOOSE x \in Ws : \A y \in Ws : y <= x
Age(x) == IF now - x > 2 * MaxW + 2 THEN 2 * MaxW + 2 + ((now - x) % 2) ELSE now - x
View == <<par, now % 2, cap, w, [i \in 1..Len(rec) |-> Age(rec[i])], pc>>
FullView == <<vars, hist>>
PrintEdge == PrintT("EDGE " \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), par |-> par,
                                       i |-> TLCGet("level") = 1]))
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
