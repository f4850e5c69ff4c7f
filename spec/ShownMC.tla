-------------------------------- MODULE ShownMC --------------------------------
EXTENDS Shown, Json
CONSTANTS SimLen, Kinds, Objs, Forms, Settings, Texts
VARIABLES log, last
mvars == <<vars, log, last>>
Init == Init0 /\ log = <<>> /\ last = <<>>
L(e) == log' = IF SimLen = 0 THEN log ELSE Append(log, e)
E0 == [k |-> "op", o |-> "", i |-> 0, kind |-> "", n |-> 0, f |-> ""]
Next == /\ SimLen = 0 \/ Len(log) < SimLen
        /\ \/ \E i \in Objs, k \in Kinds, f \in [Settings -> Texts] : i \notin DOMAIN cfg /\ Make(i, k, f) /\ last' = <<>> /\ L([E0 EXCEPT !.o = "make", !.i = i, !.kind = k])
           \/ \E i \in DOMAIN cfg, n \in Settings, t \in Texts : Set(i, n, t) /\ last' = <<>> /\ L([E0 EXCEPT !.o = "set", !.i = i, !.n = n])
           \/ \E i \in DOMAIN cfg, f \in Forms : \E S \in (IF SimLen = 0 THEN SUBSET Settings ELSE {{}}) :
                LET told == [n \in S |-> cfg[i].vals[n]] IN Show(i, told) /\ last' = <<i, told>> /\ L([E0 EXCEPT !.o = "print", !.i = i, !.f = f])
Spec == Init /\ [][Next]_mvars
(* two objects that print differently in a setting differ in it, however they came to be *)
Faithful == last # <<>> => \A n \in DOMAIN last[2] : cfg[last[1]].vals[n] = last[2][n]
PrintSim == (log' # log /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> <<>>, acts |-> log']))
================================================================================
