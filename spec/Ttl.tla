----------------------------------- MODULE Ttl -----------------------------------
(* Rate limiters with a penalty, kept on a server.  par = [lims, bk]: the limiters         *)
(* lims[i] = [cap, win, exp, tag] (tag 0: plain mode), and the block key bk[k] of request  *)
(* key k.  Time is counted in ticks of 1/8 s; the server's clock and the clients' agree.    *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par, now,
          cf,      \* limiter -> current [cap, win, exp]
          pass,    \* <<tag, key>> -> seconds at which the latest requests passed
          blk,     \* <<tag, block key>> -> [till, msg], till = -1 when there is none
          fault,   \* what happens to the next request at the server: "" / "err" / "drop" / "lost"
          pc
vars == <<par, now, cf, pass, blk, fault, pc>>
S == 8                                  \* ticks of a second
Sec == now \div S
L == DOMAIN par.lims
K == DOMAIN par.bk
Tags == {par.lims[i].tag : i \in L}
None == [till |-> -1, msg |-> 0]
Idle == [s |-> "idle", op |-> [o |-> ""], r |-> <<>>]
InitWith(P, T) == /\ par \in P /\ now = 0 /\ fault = ""
                  /\ cf = [i \in L |-> [cap |-> par.lims[i].cap, win |-> par.lims[i].win, exp |-> par.lims[i].exp]]
                  /\ pass = [x \in Tags \X K |-> <<>>] /\ blk = [x \in Tags \X K |-> None]
                  /\ pc = [t \in T |-> Idle]
Busy(t) == pc[t].s # "idle"
Call(t, o) == /\ ~Busy(t) /\ pc' = [pc EXCEPT ![t] = [s |-> "pend", op |-> o, r |-> <<>>]]
              /\ UNCHANGED <<par, now, cf, pass, blk, fault>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, cf, pass, blk, fault, pc>>
Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]
Pend(t, o) == pc[t].s = "pend" /\ pc[t].op.o = o
Empty == <<0, 0, 0, 0>>
Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))

Unset(i) == cf[i].cap <= 0 \/ cf[i].win <= 0 \/ cf[i].exp <= 0
(* a block is in force until its end, at the very end either answer is right *)
InForce(b) == b.till > now
(* remaining time in seconds, rounded either way, but a block in force has at least one *)
Remaining(b) == LET ms == b.till - now IN
                IF ms < S THEN {1} ELSE IF ms % S = 0 THEN {ms \div S} ELSE {ms \div S, ms \div S + 1}
Answer(t, r) == Done(t, IF fault = "lost" THEN Empty ELSE r)
(* what a blocked request, or a question, is told *)
Blocked(t, b) == b.till >= now /\ \E n \in Remaining(b) : Answer(t, <<1, 0, n, b.msg>>)

Req(t) == /\ Pend(t, "req")
          /\ LET i == pc[t].op.l  k == pc[t].op.k  c == cf[i]
                 x == <<par.lims[i].tag, k>>  y == <<par.lims[i].tag, par.bk[k]>>
                 kept == Last(pass[x], c.cap)
                 inw == SelectSeq(kept, LAMBDA s : Sec - s <= c.win)
             IN
             IF Unset(i) THEN Done(t, Empty) /\ fault' \in {fault, ""} /\ UNCHANGED <<pass, blk>>
             ELSE /\ fault' = ""
                  /\ IF fault \in {"err", "drop"} THEN Done(t, Empty) /\ UNCHANGED <<pass, blk>>
                     ELSE \/ Blocked(t, blk[y]) /\ UNCHANGED <<pass, blk>>
                          \/ /\ ~InForce(blk[y])
                             /\ IF Len(inw) < c.cap
                                THEN /\ pass' = [pass EXCEPT ![x] = Last(Append(kept, Sec), c.cap)]
                                     /\ UNCHANGED blk /\ Answer(t, Empty)
                                ELSE /\ pass' = [pass EXCEPT ![x] = kept]
                                     /\ blk' = [blk EXCEPT ![y] = [till |-> now + c.exp * S, msg |-> pc[t].op.m]]
                                     /\ Answer(t, <<1, 1, c.exp, pc[t].op.m>>)
          /\ UNCHANGED <<par, now, cf>>
IsB(t) == /\ Pend(t, "isb")
          /\ LET b == blk[<<par.lims[pc[t].op.l].tag, pc[t].op.b>>] IN
             IF fault # "" THEN Done(t, Empty)
             ELSE Blocked(t, b) \/ (~InForce(b) /\ Answer(t, Empty))
          /\ fault' = "" /\ UNCHANGED <<par, now, cf, pass, blk>>
(* run-time change of a limiter's parameters, reading them, and the environment's faults *)
Set(t) == /\ Pend(t, "set") /\ cf' = [cf EXCEPT ![pc[t].op.l] = [cap |-> pc[t].op.cap, win |-> @.win, exp |-> pc[t].op.exp]]
          /\ Done(t, Empty) /\ UNCHANGED <<par, now, pass, blk, fault>>
Get(t) == /\ Pend(t, "get") /\ LET c == cf[pc[t].op.l] IN Done(t, <<c.cap, c.win, c.exp, 0>>)
          /\ UNCHANGED <<par, now, cf, pass, blk, fault>>
Flt(t) == /\ Pend(t, "fault") /\ fault' = pc[t].op.f /\ Done(t, Empty) /\ UNCHANGED <<par, now, cf, pass, blk>>
Lin(t) == Req(t) \/ IsB(t) \/ Set(t) \/ Get(t) \/ Flt(t)
Return(t, r) == pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, now, cf, pass, blk, fault>>
Settled(T) == \A t \in T : ~Busy(t)
=============================================================================
