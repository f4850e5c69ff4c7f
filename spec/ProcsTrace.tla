------------------------------- MODULE ProcsTrace -------------------------------
EXTENDS Procs, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l, i
tvars == <<vars, tr, l, i>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ i = 0 /\ InitWith({Traces[tr].par})
Next == /\ More /\ UNCHANGED tr
        /\ IF i < Len(Ev.s) THEN Feed(Ev.s[i + 1]) /\ i' = i + 1 /\ l' = l
           ELSE Answer(Ev.ok, Ev.v) /\ i' = 0 /\ l' = l + 1
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
