------------------------------- MODULE ReportMC -------------------------------
EXTENDS Report, Json, TLC, Randomization
CONSTANTS SimLen, Pars, Ops, MaxSeg, MaxOps
VARIABLES log, late
mvars == <<vars, log, late>>
C(conf, addr, ns, svc, inst) == [conf |-> conf, addr |-> addr, ns |-> ns, svc |-> svc, inst |-> inst]
Some == {C(TRUE, 1, "a", "b", "x"), C(TRUE, 2, "a", "b", "x"), C(TRUE, 1, "b", "a", ""), C(TRUE, 0, "a", "b", "x"), C(TRUE, 9, "a", "b", "x"), C(FALSE, 1, "a", "b", "x")}
Small == {<<c, d>> : c \in Some, d \in Some}
Names == {C(TRUE, a, ns, svc, inst) : a \in {0, 1, 2, 9}, ns \in {"", "a", "a::b"}, svc \in {"", "b", "b::c", "a::b"}, inst \in {"", "x", "y"}}
Wide == RandomSubset(600, [1..3 -> Names \cup {C(FALSE, 1, "a", "b", "x")}])
Init == InitWith(Pars) /\ log = <<>> /\ late = {}
L(o, i, n, op) == /\ log' = (IF SimLen > 0 THEN Append(log, [k |-> "op", o |-> o, i |-> i, n |-> n, op |-> op]) ELSE log)
                  /\ late' = IF o = "fin" /\ sg[n].open = 1 /\ st[sg[n].i] = "closed" THEN late \cup {n} ELSE late
Stim == \/ \E i \in DOMAIN par : Make(i) /\ L("make", i, 0, "")
        \/ \E i \in DOMAIN par : Close(i) /\ (SimLen = 0 \/ RandomElement(1..4) = 1) /\ L("close", i, 0, "")
        \/ \E i \in DOMAIN par, op \in Ops : Len(sg) < MaxSeg /\ Start(i, op) /\ L("start", i, 0, op)
        \/ \E n \in DOMAIN sg, op \in Ops : Len(sg[n].ops) < MaxOps /\ Inner(n, op) /\ L("inner", 0, n, op)
        \/ \E n \in DOMAIN sg : Finish(n) /\ L("fin", 0, n, "")
Env == /\ \/ \E i \in DOMAIN par : i \notin met /\ Hello(i, par[i].addr, Service(i), IF par[i].inst = "" THEN "gen" ELSE par[i].inst)
          \/ \E n \in due : LET i == sg[n].i IN Heard(n, par[i].addr, Service(i), IF par[i].inst = "" THEN "gen" ELSE par[i].inst, sg[n].ops)
       /\ UNCHANGED <<log, late>>
Next == (SimLen = 0 \/ Len(log) < SimLen) /\ IF SimLen > 0 /\ ~Quiet THEN Env ELSE Stim \/ Env
Spec == Init /\ [][Next]_mvars /\ WF_mvars(Env)
Complete == Whole(late)
Arrives == []<>Quiet
PrintSim == (log' # log /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
===============================================================================
