------------------------------- MODULE HttpTrace ------------------------------
EXTENDS Http, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
SetOf(s) == {s[i] : i \in DOMAIN s}
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par}, {"a", "b", "c", "d", "e"})
Seen == ob' = [sent |-> SetOf(Ev.sent), done |-> SetOf(Ev.done), gone |-> SetOf(Ev.gone), new |-> SetOf(Ev.new)]
Step(a) == l' = l + a /\ UNCHANGED tr
Next == /\ More /\ ~Tie
        /\ IF Ev.o = "make"                                     \* the customizer is called once, with the client that is returned
           THEN Ev.cust = (IF par.cust.f = "none" THEN 0 ELSE 1) /\ UNCHANGED vars /\ Step(1)
           ELSE IF Ev.o = "req" THEN Request(Ev.t, Ev.h, Ev.big) /\ Seen /\ Step(1)
           ELSE IF Ev.o = "ans" THEN Answer(Ev.t) /\ Seen /\ Step(1)
           ELSE IF left = -1 THEN Begin(Ev.d) /\ Step(0)
           ELSE IF Due # {} THEN (\E t \in Due : Expire(t)) /\ Step(0)
           ELSE End /\ Seen /\ Step(1)
Spec == Init /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
