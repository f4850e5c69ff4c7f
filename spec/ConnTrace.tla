-------------------------------- MODULE ConnTrace --------------------------------
EXTENDS Conn, Json, IOUtils
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
ToSet(s) == {s[i] : i \in 1..Len(s)}
P(p) == [p EXCEPT !.srv.dbs = ToSet(p.srv.dbs), !.conf.opts = ToSet(p.conf.opts), !.conf.seen = ToSet(p.conf.seen)]
Init == tr \in 1..Len(Traces) /\ l = 1 /\ InitWith({P(Traces[tr].par)})
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ CASE Ev.e = "shown" -> Shown(ToSet(Ev.seen))
             [] Ev.e = "login" -> Login(Ev.c, Ev.user, Ev.pw, Ev.db)
             [] Ev.e = "set" -> Settings(Ev.c, ToSet(Ev.opts))
             [] Ev.e = "again" -> Again(Ev.c, Ev.user, Ev.pw)
             [] Ev.e = "ready" -> Ready
             [] Ev.e = "fatal" -> Fatal
             [] Ev.e = "hold" -> Hold(Ev.h, Ev.c)
             [] Ev.e = "refused" -> Refused(Ev.h)
             [] Ev.e = "free" -> Free(Ev.h)
             [] Ev.e = "pass" -> Pass
             [] Ev.e = "typed" -> Typed(Ev.h, Ev.t, Ev.loc)
             [] Ev.e = "slow" -> Slow(Ev.h, Ev.ok)
             [] Ev.e = "rest" -> Rest(Ev.n)
             [] Ev.e = "spread" -> Spread(ToSet(Ev.at))
             [] OTHER -> FALSE
Spec == Init /\ [][Next]_tvars
ASSUME \A j \in 1..Len(Traces) : TLCSet(j, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
