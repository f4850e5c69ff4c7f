--------------------------------- MODULE TtlMC ---------------------------------
EXTENDS Ttl, Json, TLC
CONSTANTS SimLen, Threads, Pars, Ops, Ticks, Eager, MaxReq, MaxNow
VARIABLES act, log, hist
mvars == <<vars, act, log, hist>>
Lim(c, w, e, g) == [cap |-> c, win |-> w, exp |-> e, tag |-> g]
(* small instances *)
P11 == {[lims |-> <<Lim(c, w, e, 0)>>, bk |-> <<1>>] : c \in 1..2, w \in {1, 2}, e \in {1, 2}}
P12 == {[lims |-> <<Lim(1, 1, 1, g1), Lim(2, 2, 1, g2)>>, bk |-> b] : g1 \in {0}, g2 \in {1}, b \in {<<1, 1>>, <<1, 2>>}}
(* larger ones *)
X11 == {[lims |-> <<Lim(c, w, e, g)>>, bk |-> <<1, 2>>] : c \in {1, 2, 3, 5}, w \in {1, 2, 5, 9}, e \in {1, 2, 3, 12}, g \in {0, 1}}
X12 == {[lims |-> <<Lim(c, w, e, g1), Lim(2, 3, 2, g2)>>, bk |-> b] : c \in {0, 1, 2}, w \in {0, 1, 6}, e \in {0, 1, 2}, g1 \in {0, 1}, g2 \in {2, 3}, b \in {<<1, 1, 3>>, <<1, 2, 2>>, <<1, 2, 3>>}}
O11 == {"req"}
O12 == {"req", "isb", "fault"}
OX == {"req", "isb", "fault", "get", "set"}
Init == InitWith(Pars, Threads) /\ act = [k |-> "init"] /\ log = <<>> /\ hist = <<>>
Act(t, o) == Call(t, o) /\ act' = [k |-> "op", t |-> t, op |-> o]
Stim == /\ UNCHANGED hist
        /\ \/ \E t \in Threads :
               \/ \E i \in L, k \in K : "req" \in Ops /\ Act(t, [o |-> "req", l |-> i, k |-> k, m |-> IF SimLen > 0 THEN 1 + (Len(log) % 5) ELSE 1 + (Len(hist) % 2), v |-> (Len(log) + k) % 4])
               \/ \E i \in L, b \in {par.bk[k] : k \in K} : "isb" \in Ops /\ Act(t, [o |-> "isb", l |-> i, b |-> b, v |-> Len(log) % 2])
               \/ \E f \in {"err", "drop", "lost"} : "fault" \in Ops /\ fault = "" /\ (SimLen > 0 \/ Len(hist) = 1) /\ Act(t, [o |-> "fault", f |-> f])
               \/ \E i \in L : "get" \in Ops /\ Act(t, [o |-> "get", l |-> i])
               \/ \E i \in L, c \in {0, 1, 2, 4}, e \in {0, 1, 3} : "set" \in Ops /\ Act(t, [o |-> "set", l |-> i, cap |-> c, exp |-> e])
           \/ \E d \in Ticks : Tick(d) /\ act' = [k |-> "tick", d |-> d]
H(t) == [s |-> Sec, q |-> now, op |-> pc[t].op, r |-> pc'[t].r, f |-> fault, x |-> <<par.lims[pc[t].op.l].tag, pc[t].op.k>>]
IntS == \E t \in Threads : /\ act' = [k |-> "int"]
          /\ \/ Lin(t) /\ hist' = (IF pc[t].op.o = "req" /\ SimLen = 0 THEN Append(hist, H(t)) ELSE hist)
             \/ pc[t].s = "done" /\ Return(t, pc[t].r) /\ UNCHANGED hist
Next0 == IF Eager /\ ~Settled(Threads) THEN IntS ELSE Stim \/ IntS
(* in simulation the walk itself is kept, and printed when it is SimLen actions long *)
Next == Next0 /\ log' = (IF SimLen > 0 /\ act'.k # "int" THEN Append(log, act') ELSE log)
Spec == Init /\ [][Next]_mvars
Bound == Len(hist) <= MaxReq /\ now <= MaxNow
View == <<vars, hist>>
PrintSim == (act'.k # "int" /\ Len(log') = SimLen) => PrintT("SIM " \o ToJson([par |-> par, acts |-> log']))

(* ---- C11 verbatim, on the history of requests of limiters whose parameters do not change ---- *)
Cap(h) == par.lims[h.op.l].cap
Exp(h) == par.lims[h.op.l].exp * S
BK(h) == <<h.x[1], par.bk[h.op.k]>>
Exec(h) == h.f \notin {"err", "drop"} /\ ~(Cap(h) <= 0 \/ Exp(h) <= 0 \/ par.lims[h.op.l].win <= 0)
(* a pass, as the server saw it *)
NoFault == \A i \in DOMAIN hist : hist[i].f = ""
Passed(i) == Exec(hist[i]) /\ hist[i].r[1] = 0
Trig(i) == hist[i].r[2] = 1
Before(i, j) == j < i /\ BK(hist[j]) = BK(hist[i])
Law11 == NoFault => \A i \in DOMAIN hist : Exec(hist[i]) =>
   LET h == hist[i]
       running == {j \in 1..i-1 : Trig(j) /\ BK(hist[j]) = BK(h) /\ h.q < hist[j].q + Exp(hist[j])}
       ending == {j \in 1..i-1 : Trig(j) /\ BK(hist[j]) = BK(h) /\ h.q = hist[j].q + Exp(hist[j])}
       inw == {j \in 1..i-1 : Passed(j) /\ hist[j].x = h.x /\ h.s - hist[j].s <= par.lims[h.op.l].win}
   IN /\ Cardinality(running) <= 1
      /\ h.r[1] = 1 /\ h.r[2] = 0 => \E j \in running \cup ending : h.r[4] = hist[j].op.m /\ h.r[3] >= 1
      /\ running # {} => h.r[1] = 1 /\ h.r[2] = 0
      /\ running = {} /\ ending = {} => (h.r[1] = 0 <=> Cardinality(inw) < Cap(h)) /\ (h.r[1] = 1 => h.r = <<1, 1, par.lims[h.op.l].exp, h.op.m>>)
(* C12 *)
FailsOpen == \A i \in DOMAIN hist : (~Exec(hist[i]) \/ hist[i].f # "") => hist[i].r = Empty
=============================================================================
