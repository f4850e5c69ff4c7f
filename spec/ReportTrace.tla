------------------------------ MODULE ReportTrace ------------------------------
EXTENDS Report, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par})
Next == /\ More /\ l' = l + 1 /\ UNCHANGED tr
        /\ \/ Ev.o = "make" /\ Make(Ev.i)
           \/ Ev.o = "start" /\ Start(Ev.i, Ev.op)
           \/ Ev.o = "inner" /\ Inner(Ev.n, Ev.op)
           \/ Ev.o = "fin" /\ Finish(Ev.n)
           \/ Ev.o = "close" /\ Close(Ev.i)
           \/ Ev.o = "hello" /\ \E i \in DOMAIN par : Hello(i, Ev.srv, Ev.name, Ev.inst)
           \/ Ev.o = "heard" /\ \E n \in due : Heard(n, Ev.srv, Ev.name, Ev.inst, Ev.ops)
           \/ Ev.o = "quiet" /\ Quiet /\ UNCHANGED vars
Spec == Init /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
================================================================================
