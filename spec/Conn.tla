---------------------------------- MODULE Conn ----------------------------------
(* Clients of databases (and of Redis and Elasticsearch) made from a configuration: what they tell the server, when  *)
(* they are given out, how many connections they have and for how long.                                              *)
(* par.kind: mysql, pg, ora (db: service|sid), redis, es (one address), es2 (two addresses)                                                  *)
(* par.conf: user, pw, db, opts (pairs name, value), max (connections, 0 any number), idle (kept), min (kept open at   *)
(*   least), life "none"/"short"/"long", typed/loc (times are parsed, in that location), rt "none"/"short"/"long"       *)
(*   (time to wait for replies), seen (the settings a customizer is shown), cust [what, val] (what a customizer sets)    *)
(* par.srv: what the server accepts: user, pw, dbs; hang (it never answers), down (there is none)                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES par, ph, sess, set, idle, held, old, broken
vars == <<par, ph, sess, set, idle, held, old, broken>>
C == par.conf
S == par.srv
User == IF C.cust.what = "user" THEN C.cust.val ELSE C.user
Db == IF C.cust.what = "db" THEN C.cust.val ELSE C.db
Opts == IF C.cust.what = "opt" THEN C.opts \cup {<<"application_name", C.cust.val>>} ELSE C.opts
Accepts == ~S.hang /\ ~S.down /\ C.loc # "Nowhere/Land" /\ User = S.user /\ C.pw = S.pw /\ Db \in S.dbs
Sql == par.kind \in {"mysql", "pg", "ora"}
(* the pool is known exactly *)
Exact == par.kind \in {"mysql", "pg", "ora", "es"} /\ C.life # "short"
Min2(a, b) == IF a < b THEN a ELSE b
Keep == IF par.kind = "es" /\ C.idle = 0 THEN 2 ELSE IF C.max > 0 THEN Min2(C.max, C.idle) ELSE C.idle
Busy == {held[h] : h \in DOMAIN held}
Full == C.max > 0 /\ Cardinality(DOMAIN held) >= C.max

InitWith(P) == par \in P /\ ph = "start" /\ sess = {} /\ set = {} /\ idle = {} /\ held = <<>> /\ old = {} /\ broken = {}
(* the customizer is shown what is configured *)
Shown(seen) == ph = "start" /\ seen = C.seen /\ UNCHANGED vars
(* connection c presents itself *)
Login(c, user, pw, db) == /\ ph # "down" /\ c \notin sess
                          /\ user = User /\ pw = C.pw /\ db = Db
                          /\ sess' = sess \cup {c} /\ UNCHANGED <<par, ph, set, idle, held, old, broken>>
(* and has made its settings; it is of use from then on *)
Settings(c, opts) == c \in sess \ set /\ opts = Opts /\ set' = set \cup {c} /\ UNCHANGED <<par, ph, sess, idle, held, old, broken>>
(* every request names the user (Elasticsearch) *)
Again(c, user, pw) == c \in set /\ user = User /\ pw = C.pw /\ UNCHANGED vars
(* the client is given out: only when a server has accepted it *)
Ready == /\ ph = "start" /\ Accepts /\ set # {}
         /\ ph' = "up" /\ idle' = (IF ~Exact \/ Keep > 0 THEN set ELSE {}) /\ UNCHANGED <<par, sess, set, held, old, broken>>
Fatal == ph = "start" /\ ~Accepts /\ ph' = "down" /\ UNCHANGED <<par, sess, set, idle, held, old, broken>>
(* h gets connection c to itself *)
Hold(h, c) == /\ ph = "up" /\ h \notin DOMAIN held /\ c \in set \ Busy /\ ~Full
              /\ c \notin broken /\ (C.life = "short" => c \notin old)
              /\ IF Exact /\ idle # {} THEN c \in idle ELSE TRUE
              /\ held' = (h :> c) @@ held /\ idle' = idle \ {c} /\ UNCHANGED <<par, ph, sess, set, old, broken>>
Refused(h) == ph = "up" /\ h \notin DOMAIN held /\ Full /\ UNCHANGED vars
Free(h) == /\ h \in DOMAIN held
           /\ held' = [x \in DOMAIN held \ {h} |-> held[x]]
           /\ idle' = (IF held[h] \in broken \/ (Exact /\ Cardinality(idle) >= Keep) THEN idle ELSE idle \cup {held[h]})
           /\ set' = (IF held[h] \in idle' \/ ~Exact THEN set ELSE set \ {held[h]})
           /\ UNCHANGED <<par, ph, sess, old, broken>>
(* longer than the short lifetime goes by *)
Pass == ph = "up" /\ old' = sess /\ UNCHANGED <<par, ph, sess, set, idle, held, broken>>
(* what kind of value a time is *)
Typed(h, t, loc) == /\ h \in DOMAIN held /\ t = C.typed /\ (t => loc = (IF C.loc = "" THEN "UTC" ELSE C.loc))
                    /\ UNCHANGED vars
(* the server takes longer than the short time to wait for replies *)
Slow(h, ok) == /\ h \in DOMAIN held /\ ok = (C.rt # "short")
               /\ broken' = (IF ok THEN broken ELSE broken \cup {held[h]}) /\ UNCHANGED <<par, ph, sess, set, idle, held, old>>
(* at rest, n connections are open *)
Bounds(n) == CASE Exact -> n = Cardinality(idle) + Cardinality(Busy \ broken)
               [] Sql -> n >= Cardinality(Busy \ broken) /\ n <= Cardinality(Busy) + Keep /\ (C.max > 0 => n <= C.max)
               [] par.kind = "redis" -> n >= Cardinality(Busy) /\ n >= Min2(Cardinality(Busy) + C.min, C.max)
                                         /\ n <= C.max + (IF C.min = 0 THEN 0 ELSE Cardinality(Busy)) \* those opened in advance may come on top for a while
               [] OTHER -> TRUE
Rest(n) == ph = "up" /\ Bounds(n) /\ UNCHANGED vars
(* requests one after the other went to these addresses *)
Spread(at) == ph = "up" /\ at = S.dbs /\ UNCHANGED vars
=============================================================================
