--------------------------------- MODULE Http ---------------------------------
(* An HTTP client made from a configuration, seen from the servers it talks to and  *)
(* from its callers.  par = [tls, conf, cust]: the configuration, and what the      *)
(* customizer makes of it ("none": no customizer, "keep": it changes nothing,       *)
(* "set": it sets what par.cust.to says).  Times are numbers, 0 is "not limited".   *)
(* Request and Answer are one step each, up to quiescence; a pause is Begin, any    *)
(* number of Expire, End.  ob is what everybody could see since the step began.     *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES par,
          cn,     \* connections in the order they were opened: [h |-> host, s |-> "idle"/"busy"/"gone", age, rest]
          rq,     \* caller -> its request: [s |-> "off"/"sent"/"wait", h, big, c, close, left: time it has got, -1 for ever]
          left,   \* what is left of the pause; -1: there is none
          ob      \* requests sent, calls ended, connections opened and closed
vars == <<par, cn, rq, left, ob>>

Eff == IF par.cust.f = "set" THEN par.cust.to ELSE par.conf
Off == [s |-> "off", h |-> 0, big |-> FALSE, c |-> 0, close |-> FALSE, left |-> -1]
Nothing == [sent |-> {}, done |-> {}, gone |-> {}, new |-> {}]
InitWith(P, T) == par \in P /\ cn = <<>> /\ rq = [t \in T |-> Off] /\ left = -1 /\ ob = Nothing

Open(h) == {c \in DOMAIN cn : cn[c].h = h /\ cn[c].s # "gone"}
IdleOf(h) == {c \in Open(h) : cn[c].s = "idle"}
Waiting(h) == {t \in DOMAIN rq : rq[t].s = "wait" /\ rq[t].h = h}
Cap == IF Eff.cap = 0 THEN 512 ELSE Eff.cap
IdleMax == IF Eff.idle = 0 THEN 1000 ELSE Eff.idle
Fresh(h) == [h |-> h, s |-> "busy", age |-> 0, rest |-> 0]

(* a connection past its life serves one more request, which says so *)
Last(f, c) == c \in DOMAIN f /\ Eff.dur > 0 /\ f[c].age > Eff.dur
Time(x) == IF x = 0 THEN -1 ELSE x
On(h, big, c, close) == [s |-> "sent", h |-> h, big |-> big, c |-> c, close |-> close, left |-> Time(IF big THEN Eff.write ELSE Eff.read)]
Sent(t, c, close) == {[t |-> t, c |-> c, close |-> close]}
Done(t, r) == {[t |-> t, r |-> r]}

Request(t, h, big) ==
  /\ left = -1 /\ rq[t].s = "off" /\ UNCHANGED <<par, left>>
  /\ IF IdleOf(h) # {}
     THEN \E c \in IdleOf(h) :                                  \* idle connections are used first
            /\ cn' = [cn EXCEPT ![c].s = "busy"]
            /\ rq' = [rq EXCEPT ![t] = On(h, big, c, Last(cn, c))]
            /\ ob' = [Nothing EXCEPT !.sent = Sent(t, c, Last(cn, c))]
     ELSE IF Cardinality(Open(h)) < Cap
     THEN LET c == Len(cn) + 1 IN
            /\ cn' = Append(cn, Fresh(h))
            /\ rq' = [rq EXCEPT ![t] = On(h, big, c, FALSE)]
            /\ ob' = [Nothing EXCEPT !.sent = Sent(t, c, FALSE), !.new = {c}]
     ELSE IF Eff.wait = 0
     THEN ob' = [Nothing EXCEPT !.done = Done(t, "busy")] /\ UNCHANGED <<cn, rq>>
     ELSE rq' = [rq EXCEPT ![t] = [Off EXCEPT !.s = "wait", !.h = h, !.big = big, !.left = Eff.wait]] /\ ob' = Nothing /\ UNCHANGED cn

(* the call of t ends with r; over: with its connection.  f, q: connections and requests at that time; o: seen before *)
Ends(t, r, over, f, q, o) ==
  LET c == q[t].c
      h == q[t].h
      G == IF over THEN {c} ELSE {}
      W == {u \in DOMAIN q : q[u].s = "wait" /\ q[u].h = h}
  IN IF W = {}
     THEN /\ cn' = [f EXCEPT ![c].s = IF over THEN "gone" ELSE "idle", ![c].rest = 0]
          /\ rq' = [q EXCEPT ![t] = Off]
          /\ ob' = [o EXCEPT !.done = @ \cup Done(t, r), !.gone = @ \cup G]
     ELSE \E u \in W :                                          \* somebody who waits gets it, or the place of it
            LET d == IF over THEN Len(f) + 1 ELSE c IN
            /\ cn' = IF over THEN Append([f EXCEPT ![c].s = "gone"], Fresh(h)) ELSE f
            /\ rq' = [q EXCEPT ![t] = Off, ![u] = On(h, q[u].big, d, Last(f, d))]
            /\ ob' = [o EXCEPT !.done = @ \cup Done(t, r), !.gone = @ \cup G,
                               !.sent = @ \cup Sent(u, d, Last(f, d)), !.new = @ \cup (IF over THEN {d} ELSE {})]

(* the server reads what there is to read of the request, and answers it *)
Answer(t) == /\ left = -1 /\ rq[t].s = "sent" /\ UNCHANGED <<par, left>>
             /\ Ends(t, "ok", rq[t].close, cn, rq, Nothing)

Aged(m) == [c \in DOMAIN cn |-> IF cn[c].s = "gone" THEN cn[c] ELSE [cn[c] EXCEPT !.age = @ + m, !.rest = IF cn[c].s = "idle" THEN @ + m ELSE 0]]
Less(m) == [t \in DOMAIN rq |-> IF rq[t].left < 0 THEN rq[t] ELSE [rq[t] EXCEPT !.left = @ - m]]
Begin(d) == left = -1 /\ left' = d /\ ob' = Nothing /\ UNCHANGED <<par, cn, rq>>
Due == {t \in DOMAIN rq : /\ rq[t].left >= 0 /\ rq[t].left <= left
                          /\ \A u \in DOMAIN rq : rq[u].left >= 0 => rq[u].left >= rq[t].left}
(* the next one to have waited too long: for a connection, for the server to take the request, for the answer *)
Expire(t) ==
  /\ left >= 0 /\ t \in Due /\ UNCHANGED par
  /\ LET m == rq[t].left IN
     /\ left' = left - m
     /\ IF rq[t].s = "wait"
        THEN cn' = Aged(m) /\ rq' = [Less(m) EXCEPT ![t] = Off] /\ ob' = [ob EXCEPT !.done = @ \cup Done(t, "busy")]
        ELSE Ends(t, "late", TRUE, Aged(m), Less(m), ob)
End == /\ left >= 0 /\ Due = {} /\ left' = -1 /\ UNCHANGED par
       /\ LET f == Aged(left)
              G == {c \in DOMAIN f : f[c].s = "idle" /\ f[c].rest > IdleMax}
          IN cn' = [c \in DOMAIN f |-> IF c \in G THEN [f[c] EXCEPT !.s = "gone"] ELSE f[c]] /\ ob' = [ob EXCEPT !.gone = @ \cup G]
       /\ rq' = Less(left)
(* two things at the same instant, one of which decides about the other: not looked at *)
Tie == \E t, u \in DOMAIN rq : /\ rq[t].s = "wait" /\ rq[u].s = "sent" /\ rq[t].h = rq[u].h
                               /\ rq[t].left = rq[u].left /\ left >= 0 /\ t \in Due

(* never more connections to a server than configured; one request on a connection at a time *)
Limit == \A c \in DOMAIN cn : Cardinality(Open(cn[c].h)) <= Cap
Busy == /\ \A t, u \in DOMAIN rq : (rq[t].s = "sent" /\ rq[u].s = "sent" /\ rq[t].c = rq[u].c) => t = u
        /\ \A c \in DOMAIN cn : (cn[c].s = "busy") <=> \E t \in DOMAIN rq : rq[t].s = "sent" /\ rq[t].c = c
(* nobody waits without need, or although the configuration says not to *)
NoWaste == \A t \in DOMAIN rq : rq[t].s = "wait" =>
             /\ Eff.wait > 0 /\ IdleOf(rq[t].h) = {} /\ Cardinality(Open(rq[t].h)) = Cap
(* nobody waits longer than configured *)
Punctual == \A t \in DOMAIN rq : /\ rq[t].s = "wait" => rq[t].left \in 0..Eff.wait
                                 /\ rq[t].s = "sent" => LET x == IF rq[t].big THEN Eff.write ELSE Eff.read IN
                                                        IF x = 0 THEN rq[t].left = -1 ELSE rq[t].left \in 0..x
                                 /\ (left = -1 /\ rq[t].s # "off") => rq[t].left # 0
(* no idle connection is kept for longer than configured, what is past its life is not used again *)
Tidy == \A c \in DOMAIN cn : (left = -1 /\ cn[c].s = "idle") => cn[c].rest <= IdleMax
Young == [][\A t \in DOMAIN rq : (rq[t].s = "sent" /\ rq[t].close /\ rq'[t].s = "off") => cn'[rq[t].c].s = "gone"]_vars
=============================================================================
