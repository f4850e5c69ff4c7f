-------------------------------- MODULE KeysTrace --------------------------------
EXTENDS Keys, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ Init
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ \/ Ev.e = "put" /\ Put(Ev.t)
           \/ Ev.e = "read" /\ Read(Ev.k, Ev.via, Ev.r)
           \/ Ev.e = "clear" /\ Clear
Spec == TInit /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
