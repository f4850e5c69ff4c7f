----------------------------------- MODULE TB -----------------------------------
(* Token bucket.  par = [kind, cap, rate].  Clock in ticks: T = 2k + e is k quarter    *)
(* seconds and e nanoseconds (e in 0..1), so a second is 8 ticks.                       *)
(* Two ghost buckets frame the implementation:                                          *)
(*  upper - u tokens and credit a earned since the last issue.  An acquisition at a new  *)
(*          instant first issues: either nothing (only while less than a second's credit *)
(*          has accumulated) or the whole credit; a full bucket earns no credit, and     *)
(*          credit is never used twice.  A grant needs a token.                          *)
(*  lower - whole seconds only, remainder forgotten: what the bucket holds at least;     *)
(*          an acquisition that runs alone is refused only if it is empty.               *)
EXTENDS Integers
VARIABLES par, now, u, a, at, tokens, last, pc
vars == <<par, now, u, a, at, tokens, last, pc>>
SEC == 8
Fine(T) == (T \div 2) * 1000 + (T % 2)
ONE == 4000          \* one token, in rate * fine time units per second
Min(x, y) == IF x < y THEN x ELSE y
Idle == [s |-> "idle", c |-> FALSE, r |-> FALSE]

InitWith(P, T) == /\ par \in P /\ now = 0 /\ u = par.cap /\ a = 0 /\ at = 0
                  /\ tokens = par.cap /\ last = 0 /\ pc = [t \in T |-> Idle]

Busy(t) == pc[t].s # "idle"
Call(t) == /\ ~Busy(t)
           /\ LET oth == \E v \in DOMAIN pc : Busy(v) IN
              pc' = [v \in DOMAIN pc |-> IF v = t THEN [s |-> "pend", c |-> oth, r |-> FALSE]
                                         ELSE IF Busy(v) THEN [pc[v] EXCEPT !.c = TRUE] ELSE pc[v]]
           /\ UNCHANGED <<par, now, u, a, at, tokens, last>>
Tick(d) == now' = now + d /\ UNCHANGED <<par, u, a, at, tokens, last, pc>>

(* elapsed time and credit matter only up to a full bucket (and have to stay within 32 bits) *)
Lapse == IF now - at > SEC * (par.cap + 2) THEN Fine(SEC * (par.cap + 2)) + ((now - at) % 2) ELSE ((now \div 2) - (at \div 2)) * 1000 + (now % 2) - (at % 2)
Credit == a + par.rate * Lapse
(* what the upper bucket may be after issuing at this instant: <<tokens, credit>> *)
Issued == IF now = at THEN {<<u, a>>}
          ELSE IF u >= par.cap THEN {<<u, 0>>}
          ELSE (IF Credit < par.rate * ONE \/ par.rate = 0 THEN {<<u, Credit>>} ELSE {})
               \cup (LET n == Credit \div ONE IN
                     IF u + n >= par.cap THEN {<<par.cap, 0>>} ELSE {<<u + n, Credit - n * ONE>>, <<u + n, 0>>})
Gain == LET s == (now - last) \div SEC IN IF par.rate = 0 THEN 0 ELSE IF s > par.cap \div par.rate THEN par.cap ELSE s * par.rate
Full == tokens >= par.cap
Tk == IF Full THEN tokens ELSE Min(par.cap, tokens + Gain)     \* the lower bucket after issuing
Ls == IF Full \/ Gain > 0 THEN now ELSE last

Done(t, r) == pc' = [pc EXCEPT ![t].s = "done", ![t].r = r]
Grant(t, m) == /\ pc[t].s = "pend"
               /\ IF ~m.safe THEN UNCHANGED <<u, a, at>>
                  ELSE \/ \E x \in Issued : x[1] > 0 /\ u' = x[1] - 1 /\ a' = x[2] /\ at' = now
                       \/ (* overlapping another acquisition: just ahead of that one's issue *)
                          pc[t].c /\ u > 0 /\ u < par.cap /\ u' = u - 1 /\ UNCHANGED <<a, at>>
               /\ \/ Tk > 0 /\ tokens' = Tk - 1 /\ last' = Ls
                  \/ Tk <= 0 /\ tokens' = 0 /\ last' = now      \* more generous than the lower bucket
                  \/ (* overlapping another acquisition that has yet to issue *)
                     pc[t].c /\ tokens > 0 /\ ~Full /\ tokens' = tokens - 1 /\ UNCHANGED last
               /\ Done(t, TRUE) /\ UNCHANGED <<par, now>>
Refuse(t, m) == /\ pc[t].s = "pend"
                /\ m.live => (Tk <= 0 \/ (pc[t].c /\ tokens <= 0))
                /\ \/ UNCHANGED <<tokens, last>>
                   \/ pc[t].c /\ tokens' = Tk /\ last' = Ls
                /\ Done(t, FALSE) /\ UNCHANGED <<par, now, u, a, at>>
Lin(t, m) == Grant(t, m) \/ Refuse(t, m)
Return(t, r) == /\ pc[t].s = "done" /\ pc[t].r = r /\ pc' = [pc EXCEPT ![t] = Idle]
                /\ UNCHANGED <<par, now, u, a, at, tokens, last>>
Settled(T) == \A t \in T : ~Busy(t)      \* Acquire never blocks

Bounded == u >= 0 /\ u <= par.cap /\ a >= 0 /\ tokens >= 0 /\ tokens <= par.cap
=============================================================================
