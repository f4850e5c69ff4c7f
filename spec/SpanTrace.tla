-------------------------------- MODULE SpanTrace --------------------------------
EXTENDS Span, Json, IOUtils
CONSTANTS Same, Spans
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
Rng(s) == {s[i] : i \in 1..Len(s)}
(* a reported span, with what it tells as sets *)
Told_ == [Ev EXCEPT !.said = Rng(@), !.lib = Rng(@)]
More == l <= Len(Traces[tr].ev)
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({Traces[tr].par})
(* the request as the server sees it *)
Seen == Same /\ O(Ev.o).k = "srv" /\ O(Ev.o).by # 0 => Ev.seen = [m |-> O(Ev.o).m, path |-> O(Ev.o).path, body |-> O(Ev.o).rb, extra |-> <<>>, lost |-> <<>>]
Result == CASE O(Ev.o).k = "srv" -> Ev.r = Final(O(Ev.o).chain)
            [] O(Ev.o).k = "cli" -> Ev.r = CliOut(Ev.o)
            [] OTHER -> Ev.r = RedOut(Ev.o) /\ Ev.x = Executed(Ev.o)
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ CASE Ev.e = "begin" -> (IF Same THEN Begin(Ev.o) ELSE TRUE /\ begun' = begun \cup {Ev.o} /\ UNCHANGED <<par, worked, wt, outs, asg, claims, fam>>) /\ Seen
             [] Ev.e = "work" -> Work(Ev.o, Ev.t)
             [] Ev.e = "out" -> Out(Ev.o) /\ (Same => Result)
             [] Ev.e = "span" -> IF Spans THEN \E o \in Ops : SpanFor(o, Told_) ELSE UNCHANGED vars
             [] Ev.e = "quiet" -> (Spans => Settled) /\ (Same => Finished) /\ UNCHANGED vars
             [] OTHER -> FALSE
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
