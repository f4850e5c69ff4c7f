--------------------------------- MODULE TMMC ---------------------------------
EXTENDS TM, Json, TLC
CONSTANTS SimLen, Threads, Pars, Eager, MaxCalls
VARIABLES act, log, n
mvars == <<vars, act, log, n>>
Small == {[nm |-> <<"a", "a", "b">>]}
Big == {[nm |-> x] : x \in {<<"a", "a", "b", "c", "a", "b", "c", "a", "d", "b", "a", "c">>, <<"a", "b", "c", "d", "e", "a", "b", "c", "d", "e", "a", "a">>,
                            <<"a", "a", "a", "a", "a", "a", "b", "b", "b", "b">>, <<"", " ", "a", "A", "a ", "", "a", "A", " ">>}}
Init == InitWith(Pars, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0
Names == {Nm(k) : k \in K} \cup {"zz"}
OpA == /\ n < MaxCalls /\ n' = n + 1
       /\ \E t \in Threads :
          \E o \in {[o |-> "reg", k |-> k] : k \in K \ used} \cup {[o |-> "un", nm |-> x] : x \in Names} \cup {[o |-> "all"]} :
             /\ (SimLen > 0 /\ o.o = "all") => n % 4 = 0
             /\ Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> o]
IntA == /\ act' = [k |-> "int"] /\ UNCHANGED n
        /\ \/ \E t \in Threads : Lin(t) \/ Return(t, pc[t].r)
           \/ \E k \in K : Start(k) \/ Stop(k)
Next0 == IF Eager /\ ~Settled THEN IntA ELSE OpA \/ IntA
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, n>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
NoWedge == Settled \/ ENABLED IntA
=============================================================================
