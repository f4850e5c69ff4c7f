-------------------------------- MODULE HttpMC --------------------------------
EXTENDS Http, Json, TLC
CONSTANTS SimLen, Callers, Hosts, MaxConns, Pars, Caps, Waits, Read, Write, Dur, Idle
VARIABLES act, log
mvars == <<vars, act, log>>
Confs == [cap : Caps, wait : Waits, read : {0, Read}, write : {0, Write}, dur : {0, Dur}, idle : {0, Idle}]
Zero == [cap |-> 0, wait |-> 0, read |-> 0, write |-> 0, dur |-> 0, idle |-> 0]
One == [cap |-> 1, wait |-> 70, read |-> 50, write |-> 30, dur |-> 60, idle |-> 20]
P(c, f, to) == [tls |-> FALSE, conf |-> c, cust |-> [f |-> f, to |-> to]]
Small == {P(c, "none", c) : c \in Confs}
Plain == Small \cup {P(c, "keep", c) : c \in Confs} \cup {P(Zero, "set", c) : c \in Confs} \cup {P(c, "set", Zero) : c \in Confs} \cup {P(One, "set", c) : c \in Confs}
All == Plain \cup {[p EXCEPT !.tls = TRUE] : p \in Plain}
Init == InitWith(Pars, Callers) /\ act = [k |-> "init"] /\ log = <<>>
(* pauses: one unit; in simulation also up to, and just past, the next thing that happens *)
Next1 == {rq[t].left : t \in {t \in DOMAIN rq : rq[t].left > 0}} \cup {IdleMax - cn[c].rest : c \in {c \in DOMAIN cn : cn[c].s = "idle"}}
         \cup {Eff.dur - cn[c].age : c \in {c \in DOMAIN cn : cn[c].s # "gone" /\ Eff.dur > cn[c].age}}
Pauses == IF SimLen = 0 THEN {1} ELSE {1, 40} \cup Next1 \cup {x - 1 : x \in Next1} \cup {x + 1 : x \in Next1}
Stim == \/ \E t \in Callers, h \in Hosts, big \in BOOLEAN : (big => (~par.tls /\ h = 1)) /\ Request(t, h, big) /\ act' = [k |-> "op", o |-> "req", t |-> t, h |-> h, big |-> big, d |-> 0]
        \/ \E t \in Callers : Answer(t) /\ act' = [k |-> "op", o |-> "ans", t |-> t, h |-> 0, big |-> FALSE, d |-> 0]
        \/ \E d \in Pauses : d > 0 /\ d < 20000 /\ Begin(d) /\ act' = [k |-> "op", o |-> "tick", t |-> "", h |-> 0, big |-> FALSE, d |-> d]
Next == /\ ~Tie
        /\ IF left >= 0 THEN ((\E t \in Callers : Expire(t)) \/ End) /\ act' = [k |-> "int"] ELSE Stim
        /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
Min(a, b) == IF a < b THEN a ELSE b
View == <<par, left, rq, [c \in DOMAIN cn |-> [cn[c] EXCEPT !.age = Min(@, Eff.dur + 1), !.rest = IF Eff.idle = 0 THEN 0 ELSE @]]>>
Bound == Len(cn) <= MaxConns
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
=============================================================================
