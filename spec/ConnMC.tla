--------------------------------- MODULE ConnMC ---------------------------------
(* Scripts for the harness, and a pool that works as Conn says: it opens connections as needed, keeps some.        *)
EXTENDS Conn, Json
CONSTANTS SimLen, Pars, Holders, MaxConns
VARIABLES act, log, open, next
mvars == <<vars, act, log, open, next>>
Conf(k, max, idl, min, life, typed, rt) ==
  [kind |-> k, conf |-> [user |-> "u", pw |-> "p", db |-> "d", opts |-> {}, max |-> max, idle |-> idl, min |-> min, life |-> life, typed |-> typed, loc |-> "", rt |-> rt,
                         seen |-> {}, cust |-> [what |-> "none", val |-> ""]],
   srv |-> [user |-> "u", pw |-> "p", dbs |-> {"d"}, hang |-> FALSE, down |-> FALSE]]
Lives == {"none", "short", "long"}
Small == {Conf("mysql", m, i, 0, l, FALSE, r) : m \in 0..2, i \in 0..3, l \in {"none", "short"}, r \in {"none", "short"}}
All == {Conf("mysql", m, i, 0, l, t, r) : m \in 0..4, i \in 0..4, l \in Lives, t \in BOOLEAN, r \in Lives}
       \cup {Conf("pg", m, i, 0, l, FALSE, "none") : m \in 0..4, i \in 0..4, l \in Lives}
       \cup {Conf("ora", m, i, 0, l, FALSE, "none") : m \in 0..4, i \in 0..4, l \in Lives}
       \cup {Conf("redis", m, 0, n, "none", FALSE, "none") : m \in 1..5, n \in 0..3}
       \cup {Conf("es", m, i, 0, "none", FALSE, "none") : m \in 0..4, i \in 0..4}
(* refusals: wrong in one way or in several *)
Starts == {[Conf(k, 2, 1, 0, "none", FALSE, rt) EXCEPT !.srv = [user |-> su, pw |-> sp, dbs |-> {sd}, hang |-> FALSE, down |-> dn], !.conf.loc = lc, !.conf.cust = cu] :
             k \in {"mysql", "pg", "ora", "redis", "es"}, rt \in {"none"}, su \in {"u", "x"}, sp \in {"p", "x"}, sd \in {"d", "x"}, dn \in BOOLEAN, lc \in {"", "Nowhere/Land"},
             cu \in [what : {"none", "user", "db", "opt"}, val : {"x"}]}
Can(p) == /\ p.conf.loc # "" => p.kind = "mysql"
          /\ p.kind = "redis" => p.srv.user = "u" /\ p.conf.cust.what \in {"none", "db"}
          /\ p.kind = "es" => p.srv.dbs = {"d"} /\ p.conf.cust.what \in {"none", "user"}
          /\ p.kind \in {"pg", "ora"} => p.conf.cust.what \in {"none", "opt"}
          /\ p.kind = "mysql" => p.conf.cust.what \in {"none", "user", "db"}
Begin == {p \in Starts : Can(p)}
         \cup {[Conf("mysql", 2, 1, 0, "none", FALSE, "short") EXCEPT !.srv.hang = TRUE], [Conf("pg", 2, 1, 0, "none", FALSE, "short") EXCEPT !.srv.hang = TRUE],
                [Conf("ora", 2, 1, 0, "none", FALSE, "short") EXCEPT !.srv.hang = TRUE]}
Init == InitWith(Pars) /\ act = [k |-> "init"] /\ log = <<>> /\ open = {} /\ next = 1
(* the pool: an idle connection if there is one that is not too old, else a new one if allowed *)
Usable == {c \in idle \cap open : C.life = "short" => c \notin old}
New == /\ next <= MaxConns /\ next' = next + 1
Start == /\ ph = "start" /\ act' = [k |-> "ready"]
         /\ IF Accepts THEN /\ New /\ sess' = sess \cup {next} /\ set' = set \cup {next} /\ ph' = "up"
                            /\ idle' = (IF Keep > 0 \/ ~Exact THEN {next} ELSE {}) /\ open' = (IF Keep > 0 THEN {next} ELSE {})
                            /\ UNCHANGED <<par, held, old, broken>>
            ELSE Fatal /\ UNCHANGED <<open, next>>
Want(h) == /\ act' = [k |-> "want", h |-> h] /\ ph = "up" /\ h \notin DOMAIN held
           /\ IF Full THEN UNCHANGED <<vars, open, next>>
              ELSE IF Usable # {} THEN \E c \in Usable : Hold(h, c) /\ open' = open \ (idle \ Usable) /\ UNCHANGED next
              ELSE /\ New /\ sess' = sess \cup {next} /\ set' = set \cup {next} /\ open' = (open \ idle) \cup {next}
                   /\ held' = (h :> next) @@ held /\ idle' = {} /\ UNCHANGED <<par, ph, old, broken>>
Give(h) == /\ act' = [k |-> "free", h |-> h] /\ Free(h) /\ UNCHANGED next
           /\ open' = (IF held[h] \in broken \/ Cardinality(open \ Busy) >= Keep THEN open \ {held[h]} ELSE open)
Wait == act' = [k |-> "pass"] /\ C.life # "none" /\ Pass /\ UNCHANGED <<open, next>>
Look(h) == par.kind = "mysql" /\ act' = [k |-> "typed", h |-> h] /\ h \in DOMAIN held /\ held[h] \notin broken /\ UNCHANGED <<vars, open, next>>
Stall(h) == par.kind = "mysql" /\ act' = [k |-> "slow", h |-> h] /\ h \in DOMAIN held /\ held[h] \notin broken /\ Slow(h, C.rt # "short") /\ open' = (IF C.rt = "short" THEN open \ {held[h]} ELSE open) /\ UNCHANGED next
Next == /\ Start \/ (act.k # "pass" /\ Wait) \/ \E h \in Holders : Want(h) \/ Give(h) \/ (act.k # "typed" /\ Look(h)) \/ (act.k # "slow" /\ Stall(h))
        /\ log' = IF SimLen > 0 THEN Append(log, act') ELSE log
Spec == Init /\ [][Next]_mvars
View == <<vars, open>>
PrintSim == Len(log') = SimLen => PrintT("SIM " \o ToJson([par |-> par', acts |-> log']))
(* every way to start *)
PrintPar == act.k = "init" => PrintT("TXT " \o ToJson([par |-> par, ok |-> (ph' = "up")]))
OnlyStart == act.k \in {"init", "ready"}
----------------------------------------------------------------------------
Limit == C.max > 0 => Cardinality(open) <= C.max
Alone == \A g, h \in DOMAIN held : held[g] = held[h] => g = h
Kept == Cardinality(open \ Busy) <= Keep
Young == C.life = "short" => \A h \in DOMAIN held : held[h] \in open \/ held[h] \in broken
AtRest == ph = "up" => Bounds(Cardinality(open))
Vetted == ph = "up" => Accepts /\ (sess # {})
Working == \A h \in DOMAIN held : held[h] \in set
=============================================================================
