-------------------------------- MODULE StoreMC --------------------------------
EXTENDS Store, Json, TLC
CONSTANTS SimLen, Threads, Pars, Ops, OKeys, OVals, Eager, MaxCalls
VARIABLES act, log, n, clean
mvars == <<vars, act, log, n, clean>>
P1 == {[pol |-> "none", per |-> "mem"]}
P2 == {[pol |-> p, per |-> "mem"] : p \in {"none", "simple"}}
PX == {[pol |-> "none", per |-> "mem"]}
P23 == {[pol |-> p, per |-> r, flt |-> f, neg |-> g] : p \in {"simple", "zero", "none"}, r \in {"mem", "redis"}, f \in {"err", "drop"}, g \in {0, -5}}
O21 == {"reg", "dereg", "upd", "updnp", "batch", "reset", "get", "gets", "mget", "mgets", "bget", "bgets"}
O22 == {"reg", "dereg", "upd", "updnp", "batch", "reset", "get", "gets", "mget", "mgets", "bget", "bgets"}
O23 == {"reg", "dereg", "upd", "updnp", "batch", "reset", "get", "gets", "bget", "load", "fault", "ext", "restart", "dump"}
O22S == {"reg", "dereg", "upd", "reset", "get", "batch"}
O23S == {"reg", "dereg", "upd", "reset", "batch", "restart", "load", "get"}
Init == InitWith(Pars, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ n = 0 /\ clean = TRUE
K2 == {<<k, l>> : k \in OKeys, l \in OKeys}
Opts(o) == CASE o = "reg" -> {[o |-> o, k |-> k, v |-> v, p |-> p] : k \in OKeys, v \in OVals, p \in IF SimLen > 0 THEN {"A", "B", "nil"} ELSE {"A", "B"}}
             [] o \in {"upd", "updnp"} -> {[o |-> o, k |-> k, v |-> v] : k \in OKeys, v \in OVals}
             [] o = "ext" -> {[o |-> o, k |-> k, v |-> v] : k \in OKeys \ {""}, v \in OVals}
             [] o \in {"dereg", "reset"} -> {[o |-> o, k |-> k] : k \in OKeys}
             [] o \in {"get", "gets", "mget", "mgets"} -> {[o |-> o, k |-> k] : k \in OKeys}
             [] o \in {"bget", "bgets"} -> {[o |-> o, ks |-> ks \o <<"", "k1", "k2", "k3">>] : ks \in K2}
             [] o = "batch" -> IF SimLen > 0 THEN {[o |-> o, kv |-> <<<<a, v>>, <<b, w>>, <<c, x>>>>] : a \in OKeys, b \in OKeys, c \in OKeys, v \in {RandomElement(OVals)}, w \in {RandomElement(OVals)}, x \in {RandomElement(OVals)}}
                                                 \cup {[o |-> o, kv |-> <<>>], [o |-> o, kv |-> <<<<RandomElement(OKeys), RandomElement(OVals)>>>>]}
                               ELSE {[o |-> o, kv |-> <<<<a, v>>, <<a, w>>>>] : a \in OKeys, v \in OVals, w \in OVals}
             [] o = "fault" -> {[o |-> o, on |-> ~fault]}
             [] OTHER -> {[o |-> o]}
(* only these keep what is persisted in step with what is served *)
OpA == /\ n < MaxCalls /\ n' = n + 1
       /\ \E t \in Threads, o \in Ops :
          \E p \in (IF SimLen > 0 THEN {RandomElement(Opts(o))} ELSE Opts(o)) :
             /\ Call(t, p) /\ act' = [k |-> "op", t |-> t, op |-> p]
             /\ clean' = (clean /\ o \notin {"fault", "ext", "updnp"})
IntA == /\ act' = [k |-> "int"] /\ UNCHANGED <<n, clean>> /\ \E t \in Threads : Lin(t) \/ Return(t, pc[t].acc)
Next0 == IF Eager /\ ~Settled THEN IntA ELSE OpA \/ IntA
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
View == <<vars, n, clean>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))
NoWedge == Settled \/ ENABLED IntA
(* C23, sequential: a restart serves what was served before *)
Same == (clean /\ Settled) => \A k \in KS : (Has(reg, k) /\ Has(cur, k)) => pers[k] = cur[k]
None2 == (clean /\ Settled) => \A k \in KS : Has(pers, k) => Good(k, pers[k])
=============================================================================
