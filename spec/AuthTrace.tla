-------------------------------- MODULE AuthTrace --------------------------------
EXTENDS Auth, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par})
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ IF Ev.e = "req" THEN Request(Ev.t, Ev.c, Ev.h) ELSE Ev.e = "ans" /\ Answer(Ev.t, Ev.b)
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
