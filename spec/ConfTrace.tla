-------------------------------- MODULE ConfTrace --------------------------------
EXTENDS Conf, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.VTRACES)
VARIABLES tr, l
tvars == <<vars, tr, l>>
Ev == Traces[tr].ev[l]
More == l <= Len(Traces[tr].ev)
TInit == tr \in 1..Len(Traces) /\ l = 1 /\ Init
Next == /\ More /\ UNCHANGED tr /\ l' = l + 1
        /\ CASE Ev.e = "open" -> Open(Ev.nm, Ev.emb)
             [] Ev.e = "close" -> Close
             [] Ev.e = "leaf" -> Leaf(Ev.nm, Ev.k)
             [] Ev.e = "preset" -> Preset(Ev.i, Ev.v)
             [] Ev.e = "yaml" -> Yaml(Ev.i, Ev.v)
             [] Ev.e = "null" -> YamlNull(Ev.i)
             [] Ev.e = "skip" -> UNCHANGED vars
             [] Ev.e = "env" -> Env(Ev.nm, Ev.v)
             [] Ev.e = "flag" -> Flag(Ev.nm, Ev.v)
             [] Ev.e = "load" -> Load
             [] Ev.e = "badfield" -> BreakField(Ev.i)
             [] Ev.e = "badsource" -> BreakSource
             [] Ev.e = "exit" -> Exit(Ev.rc)
             [] Ev.e = "val" -> Value(Ev.i, Ev.v)
             [] Ev.e = "flags" -> Flags(Ev.l)
             [] Ev.e = "ptr" -> Ev.ok /\ UNCHANGED vars
             [] OTHER -> FALSE
Spec == TInit /\ [][Next]_tvars
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Acc == IF More THEN TLCGet(tr) = FALSE ELSE TLCSet(tr, TRUE) /\ PrintT(<<"ACC", tr>>)
PrintPos == PrintT(<<"AT", l>>)
=============================================================================
