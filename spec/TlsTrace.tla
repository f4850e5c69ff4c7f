--------------------------------- MODULE TlsTrace ---------------------------------
EXTENDS Tls, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par})
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ IF Ev.e = "make" THEN Make(Ev.i, Ev.ok)
           ELSE Ev.e = "conn" /\ Connect(Ev.i, Ev.j, Ev.ok, Ev.saw, Ev.id)
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
