---------------------------------- MODULE Store ----------------------------------
(* Configuration store over a persistence layer.  par = [pol, ...]: pol "simple" loads at every read, "none" never. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT KS                    \* keys
VARIABLES par,
          reg,                 \* key -> processor, None when not registered
          def,                 \* key -> default value
          cur,                 \* key -> value set, None when at its default
          pers,                \* what the persistence layer holds: key -> value or None
          fault,               \* the persistence layer fails
          pc
vars == <<par, reg, def, cur, pers, fault, pc>>
None == "~"
Vals == {"", "a1", "a2", "b1", "b2", "ab", "zz"}
Accept(p, v) == IF p = "A" THEN v \in {"a1", "a2", "ab"} ELSE IF p = "B" THEN v \in {"", "b1", "b2", "ab"} ELSE FALSE
Idle == [s |-> "idle", op |-> [o |-> ""], i |-> 0, acc |-> <<>>, ok |-> <<>>]
InitWith(P, T) == /\ par \in P /\ reg = [k \in KS |-> None] /\ def = reg /\ cur = reg /\ pers = reg /\ fault = FALSE
                  /\ pc = [t \in T |-> Idle]

Call(t, o) == pc[t].s = "idle" /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.s = "pend", !.op = o]] /\ UNCHANGED <<par, reg, def, cur, pers, fault>>
Return(t, r) == pc[t].s = "done" /\ pc[t].acc = r /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<par, reg, def, cur, pers, fault>>
Is(t, S) == pc[t].s = "pend" /\ pc[t].op.o \in S
DoneWith(t, a) == pc' = [pc EXCEPT ![t].s = "done", ![t].acc = a]
Has(f, k) == f[k] # None
Known(k) == k # "" /\ Has(reg, k)

LinReg(t) == /\ Is(t, {"reg"})
             /\ LET o == pc[t].op IN
                IF o.k # "" /\ o.p \in {"A", "B"} /\ ~Has(reg, o.k) /\ Accept(o.p, o.v)
                THEN reg' = [reg EXCEPT ![o.k] = o.p] /\ def' = [def EXCEPT ![o.k] = o.v] /\ DoneWith(t, <<"ok">>)
                ELSE UNCHANGED <<reg, def>> /\ DoneWith(t, <<"err">>)
             /\ UNCHANGED <<par, cur, pers, fault>>
Removed(k) == IF fault THEN pers ELSE [pers EXCEPT ![k] = None]
LinDereg(t) == /\ Is(t, {"dereg"})
               /\ LET k == pc[t].op.k IN
                  IF k = "" THEN UNCHANGED <<reg, def, cur, pers>>
                  ELSE reg' = [reg EXCEPT ![k] = None] /\ def' = [def EXCEPT ![k] = None] /\ cur' = [cur EXCEPT ![k] = None] /\ pers' = Removed(k)
               /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, fault>>
LinReset(t) == /\ Is(t, {"reset"})
               /\ LET k == pc[t].op.k IN cur' = [cur EXCEPT ![k] = None] /\ pers' = Removed(k)
               /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, reg, def, fault>>
Good(k, v) == Known(k) /\ Accept(reg[k], v)
(* the empty key is neither accepted nor reported *)
Errs(k, v) == IF k = "" \/ Good(k, v) THEN <<>> ELSE <<<<k, v>>>>
LinUpd(t) == /\ Is(t, {"upd", "updnp"})
             /\ LET o == pc[t].op IN
                /\ cur' = IF Good(o.k, o.v) THEN [cur EXCEPT ![o.k] = o.v] ELSE cur
                /\ pers' = IF Good(o.k, o.v) /\ o.o = "upd" /\ ~fault THEN [pers EXCEPT ![o.k] = o.v] ELSE pers
                /\ DoneWith(t, Errs(o.k, o.v))
             /\ UNCHANGED <<par, reg, def, fault>>
(* batch: entry by entry, then all accepted ones are persisted *)
BatchStep(t) == /\ Is(t, {"batch"}) /\ pc[t].i < Len(pc[t].op.kv)
                /\ LET e == pc[t].op.kv[pc[t].i + 1] IN
                   /\ cur' = IF Good(e[1], e[2]) THEN [cur EXCEPT ![e[1]] = e[2]] ELSE cur
                   /\ pc' = [pc EXCEPT ![t].i = @ + 1, ![t].acc = @ \o Errs(e[1], e[2]), ![t].ok = IF Good(e[1], e[2]) THEN Append(@, e) ELSE @]
                /\ UNCHANGED <<par, reg, def, pers, fault>>
LastOf(s, k) == LET I == {i \in 1..Len(s) : s[i][1] = k} IN s[CHOOSE i \in I : \A j \in I : j <= i][2]
BatchEnd(t) == /\ Is(t, {"batch"}) /\ pc[t].i = Len(pc[t].op.kv)
               /\ pers' = [k \in KS |-> IF ~fault /\ \E i \in 1..Len(pc[t].ok) : pc[t].ok[i][1] = k THEN LastOf(pc[t].ok, k) ELSE pers[k]]
               /\ DoneWith(t, pc[t].acc) /\ UNCHANGED <<par, reg, def, cur, fault>>
Loaded == [k \in KS |-> IF Has(pers, k) /\ Good(k, pers[k]) THEN pers[k] ELSE cur[k]]
OnRead == IF par.pol # "none" /\ ~fault THEN Loaded ELSE cur
(* value served for k when c is set *)
Served(c, k) == IF k = "" \/ ~Has(reg, k) THEN <<>> ELSE <<reg[k], IF Has(c, k) THEN c[k] ELSE def[k]>>
(* the typed form: the processor's conversion of the string form.  par.same: values that convert to the same *)
Conv(v) == IF "same" \in DOMAIN par THEN (IF v = "a2" THEN "a1" ELSE IF v = "b2" THEN "b1" ELSE v) ELSE v
TypedOf(s) == IF s = <<>> THEN s ELSE <<s[1], Conv(s[2])>>
StrOf(s) == IF s = <<>> THEN s ELSE <<"", s[2]>>
LinGet(t) == /\ Is(t, {"get", "gets", "mget", "mgets"})
             /\ cur' = OnRead
             /\ LET s == Served(cur', pc[t].op.k) IN DoneWith(t, IF pc[t].op.o \in {"get", "mget"} THEN TypedOf(s) ELSE StrOf(s))
             /\ UNCHANGED <<par, reg, def, pers, fault>>
BGetStep(t) == /\ Is(t, {"bget", "bgets"}) /\ pc[t].i < Len(pc[t].op.ks)
               /\ cur' = OnRead
               /\ LET k == pc[t].op.ks[pc[t].i + 1]
                      s == Served(cur', k)
                      e == IF s = <<>> THEN <<>> ELSE <<<<k>> \o (IF pc[t].op.o = "bget" THEN TypedOf(s) ELSE StrOf(s))>>
                  IN pc' = [pc EXCEPT ![t].i = @ + 1, ![t].acc = @ \o e]
               /\ UNCHANGED <<par, reg, def, pers, fault>>
BGetEnd(t) == /\ Is(t, {"bget", "bgets"}) /\ pc[t].i = Len(pc[t].op.ks)
              /\ DoneWith(t, pc[t].acc) /\ UNCHANGED <<par, reg, def, cur, pers, fault>>
LinLoad(t) == /\ Is(t, {"load"}) /\ cur' = (IF fault THEN cur ELSE Loaded) /\ DoneWith(t, IF fault THEN <<"err">> ELSE <<"ok">>)
              /\ UNCHANGED <<par, reg, def, pers, fault>>
LinEnv(t) == \/ Is(t, {"fault"}) /\ fault' = pc[t].op.on /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, reg, def, cur, pers>>
             \/ Is(t, {"ext"}) /\ pers' = [pers EXCEPT ![pc[t].op.k] = pc[t].op.v] /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, reg, def, cur, fault>>
             \/ Is(t, {"restart"}) /\ cur' = [k \in KS |-> None] /\ DoneWith(t, <<>>) /\ UNCHANGED <<par, reg, def, pers, fault>>
Pairs(f, ks) == LET RECURSIVE P(_)
                    P(i) == IF i > Len(ks) THEN <<>> ELSE (IF Has(f, ks[i]) THEN <<<<ks[i], f[ks[i]]>>>> ELSE <<>>) \o P(i + 1)
                IN P(1)
Order == <<"", "k1", "k2", "k3", "k4">>      \* the keys in order
LinDump(t) == Is(t, {"dump"}) /\ DoneWith(t, Pairs(pers, Order)) /\ UNCHANGED <<par, reg, def, cur, pers, fault>>
Lin(t) == LinReg(t) \/ LinDereg(t) \/ LinReset(t) \/ LinUpd(t) \/ BatchStep(t) \/ BatchEnd(t) \/ LinGet(t) \/ BGetStep(t) \/ BGetEnd(t)
          \/ LinLoad(t) \/ LinEnv(t) \/ LinDump(t)
Settled == \A t \in DOMAIN pc : pc[t].s = "idle"

(* C21 *)
Validated == \A k \in KS : /\ Has(reg, k) => Accept(reg[k], def[k]) /\ (Has(cur, k) => Accept(reg[k], cur[k]))
                           /\ ~Has(reg, k) => ~Has(def, k) /\ ~Has(cur, k)
                           /\ ~Has(reg, "")
=============================================================================
