------------------------------- MODULE ShownTrace -------------------------------
EXTENDS Shown, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
(* pairs [n, t]; a setting may stand in a text more than once, each time with its value *)
Fun(s) == [n \in {s[j].n : j \in DOMAIN s} |-> LET T == {s[j].t : j \in {j \in DOMAIN s : s[j].n = n}} IN IF Cardinality(T) = 1 THEN CHOOSE t \in T : TRUE ELSE "several"]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ CASE Ev.o = "make" -> Make(Ev.i, Ev.kind, Fun(Ev.vals))
             [] Ev.o = "set" -> Set(Ev.i, Ev.n, Ev.t)
             [] Ev.o = "print" -> Show(Ev.i, Fun(Ev.told))
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=================================================================================
