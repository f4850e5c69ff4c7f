-------------------------------- MODULE MaskTrace --------------------------------
EXTENDS Mask, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ Init0
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ CASE Ev.k = "make" -> Make(Ev.i, Ev.kind, Ev.v, Ev.u, Ev.p)
             [] Ev.k = "pub" -> SetPub(Ev.i, Ev.v)
             [] Ev.k = "user" -> SetUser(Ev.i, Ev.u)
             [] Ev.k = "pass" -> SetPass(Ev.i, Ev.p)
             [] Ev.k = "print" -> Show(Ev.i, Ev.f, Ev.s)
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
