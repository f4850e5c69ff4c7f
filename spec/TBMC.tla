--------------------------------- MODULE TBMC ---------------------------------
(* Exhaustive checking of TB (with the history of grants for the interval law), script generation. *)
EXTENDS TB, Json, TLC, Sequences, FiniteSets
CONSTANTS SimLen, Threads, Caps, Rates, Ticks, Eager, Hist, MaxNow, Kinds, Upper
VARIABLES hist, act, log
mvars == <<vars, hist, act, log>>
M == [safe |-> Upper, live |-> TRUE]
Init == InitWith([kind : Kinds, cap : Caps, rate : Rates], Threads) /\ hist = <<>> /\ act = [k |-> "init"] /\ log = <<>>
H(s) == IF Hist THEN hist' = s ELSE UNCHANGED hist
IntStep(t) == /\ act' = [k |-> "int"]
              /\ \/ Grant(t, M) /\ H(Append(hist, now))
                 \/ Refuse(t, M) /\ UNCHANGED hist
                 \/ \E r \in BOOLEAN : Return(t, r) /\ UNCHANGED hist
Stim == /\ UNCHANGED hist
        /\ \/ \E t \in Threads : Call(t) /\ act' = [k |-> "op", t |-> t, op |-> [o |-> "acq"]]
           \/ \E d \in Ticks : Tick(d) /\ act' = [k |-> "tick", d |-> d]
Next0 == IF Eager /\ \E t \in Threads : Busy(t)
        THEN LET t == CHOOSE t \in Threads : Busy(t) IN IntStep(t)
        ELSE Stim \/ \E t \in Threads : IntStep(t)
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
Bound == now <= MaxNow
(* C06 verbatim: at one instant at most the capacity (acquisitions one at a time); over every interval at most capacity + rate * (length + 1s);
   from creation at most capacity + rate * elapsed *)
IntervalLaw == \A i \in 1..Len(hist) : \A j \in i..Len(hist) :
                  /\ (hist[i] = hist[j] /\ Cardinality(Threads) = 1) => j - i + 1 <= par.cap
                  /\ (j - i + 1) * ONE <= par.cap * ONE + par.rate * (Fine(hist[j]) - Fine(hist[i]) + ONE)
                  /\ i = 1 => j * ONE <= par.cap * ONE + par.rate * Fine(hist[j])
(* everything in the future depends only on the relative ages *)
AgeCap == (par.cap + 2) * SEC + (IF par.rate = 0 THEN 0 ELSE 0)
Age(x) == IF now - x > AgeCap THEN AgeCap + ((now - x) % 2) ELSE now - x
View == <<par, IF par.rate = 0 THEN 0 ELSE IF tokens >= par.cap THEN 0 ELSE Age(last), IF Upper THEN <<Min(Credit, (par.cap + par.rate + 1) * ONE), u, now = at>> ELSE <<0, 0, TRUE>>, tokens, now % 2, pc>>
FullView == <<vars, hist>>
PrintEdge == PrintT("EDGE " \o ToJson([f |-> ToString(View), a |-> act', t |-> ToString(View'), par |-> par,
                                       i |-> TLCGet("level") = 1]))
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
