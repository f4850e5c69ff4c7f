--------------------------------- MODULE ConfMC ---------------------------------
EXTENDS Conf, Json, TLC
CONSTANTS SimLen, Names, KindsMC, Vals, MaxLeaf, MaxDepth, MaxSrc, Full
VARIABLES act, log, used, npre, src
mvars == <<vars, act, log, used, npre, src>>
NamesS == {<<"A">>, <<"F", "o", "B">>, <<"x">>}
NamesX == {<<"A">>, <<"B">>, <<"F", "o", "o">>, <<"F", "o", "o", "B", "a", "r">>, <<"U", "R", "L">>, <<"X", "1">>, <<"A", "_", "b">>, <<"M", "a", "x", "I", "D", "s">>, <<"Z", "9", "Z", "a">>,
           <<"f", "o", "o">>, <<"b", "a", "r", "B">>, <<"H", "o", "s", "t">>, <<"P", "o", "r", "t">>, <<"I", "n", "n", "e", "r">>, <<"D">>, <<"Q", "u", "u", "x">>, <<"T", "L", "S", "C", "a">>, <<"A", "b">>, <<"A", "_", "B">>, <<"G", "_", "9", "_", "H">>}
RECURSIVE Low(_)
Low(s) == IF s = <<>> THEN "" ELSE Lower(Head(s)) \o Low(Tail(s))
MInit == Init /\ act = [k |-> "init"] /\ log = <<>> /\ used = <<{}>> /\ npre = <<>> /\ src = 0
Cur == used[Len(used)]
Fresh(nm) == Low(nm) \notin Cur
Add(nm) == [used EXCEPT ![Len(used)] = @ \cup {Low(nm)}]
CanFlag(i) == Supported(i) /\ ~(\E j \in DOMAIN leaf : j # i /\ leaf[j].flag = leaf[i].flag)
Room == src < MaxSrc /\ src' = src + 1 /\ UNCHANGED <<used, npre>>
Pick(S) == IF SimLen > 0 /\ S # {} THEN {RandomElement(S)} ELSE S
LeafA == /\ Len(leaf) < MaxLeaf /\ UNCHANGED <<npre, src>>
         /\ \E nm \in Pick({x \in Names : Fresh(x)}), k \in Pick(KindsMC), p \in BOOLEAN :
            /\ LET q == Append(Top.path, nm) IN \A i \in DOMAIN leaf : leaf[i].flag # FlagName(q) /\ leaf[i].env # EnvName(q)
            /\ Leaf(nm, k) /\ used' = Add(nm) /\ act' = [k |-> "op", op |-> [e |-> "leaf", nm |-> nm, k |-> k, p |-> p]]
OpenA == /\ Len(leaf) < MaxLeaf /\ Len(stack) <= MaxDepth /\ UNCHANGED <<npre, src>>
         /\ \E nm \in Pick({x \in Names : Fresh(x)}), p \in Pick(BOOLEAN), emb \in Pick(BOOLEAN), inl \in Pick(BOOLEAN) :
            /\ (emb => Exported(nm)) /\ (inl => emb) /\ Open(nm, emb)
            /\ used' = Append(Add(nm), IF emb THEN Cur \cup {Low(nm)} ELSE {})
            /\ act' = [k |-> "op", op |-> [e |-> "open", nm |-> nm, p |-> p, emb |-> emb, inl |-> inl]]
CloseA == /\ Close /\ UNCHANGED <<npre, src>> /\ act' = [k |-> "op", op |-> [e |-> "close"]]
          /\ LET n == Len(used) IN used' = [SubSeq(used, 1, n - 1) EXCEPT ![n - 1] = IF stack[n].path = stack[n - 1].path THEN @ \cup used[n] ELSE @]
Built == Len(stack) = 1 /\ Len(leaf) >= (IF Full THEN MaxLeaf ELSE 1)
SrcA == /\ Built /\ Room
        /\ \E i \in DOMAIN leaf, v \in Vals :
           \/ Preset(i, v) /\ yam[i] = None /\ act' = [k |-> "op", op |-> [e |-> "preset", i |-> i, v |-> v]]
           \/ Yaml(i, v) /\ leaf[i].k # "unsup" /\ act' = [k |-> "op", op |-> [e |-> "yaml", i |-> i, v |-> v]]
           \/ leaf[i].k # "unsup" /\ Env(leaf[i].env, v) /\ act' = [k |-> "op", op |-> [e |-> "env", i |-> i, v |-> v]]
           \/ CanFlag(i) /\ Flag(leaf[i].flag, v) /\ act' = [k |-> "op", op |-> [e |-> "flag", i |-> i, v |-> v]]
LoadA == Built /\ Load /\ act' = [k |-> "load"] /\ npre' = mem /\ UNCHANGED <<used, src>>
BreakA == /\ Built /\ UNCHANGED <<used, npre, src>> /\ act' = [k |-> "break"]
          /\ (BreakSource \/ (\E i \in DOMAIN leaf : BreakField(i)) \/ Exit(2))
Next0 == IF SimLen > 0 /\ ~Built THEN LeafA \/ OpenA \/ CloseA ELSE LeafA \/ OpenA \/ CloseA \/ SrcA \/ (SimLen = 0 /\ (LoadA \/ BreakA))
Next == Next0 /\ log' = (IF SimLen > 0 THEN Append(log, act') ELSE log)
Spec == MInit /\ [][Next]_mvars
View == <<vars, used, npre, src>>
PrintSim == (Len(log') = SimLen /\ Len(stack') = 1) => PrintT("SIM " \o ToJson([par |-> <<>>, acts |-> log']))
(* each field holds the value of the highest source that sets it *)
Precedence == st = "loaded" => \A i \in DOMAIN leaf : Supported(i) =>
   mem[i] = (CASE leaf[i].flag \in DOMAIN flg -> flg[leaf[i].flag] [] leaf[i].flag \notin DOMAIN flg /\ leaf[i].env \in DOMAIN env -> env[leaf[i].env]
               [] leaf[i].flag \notin DOMAIN flg /\ leaf[i].env \notin DOMAIN env /\ yam[i] # None -> yam[i] [] OTHER -> npre[i])
Untouched == st = "loaded" => \A i \in DOMAIN leaf : (~Supported(i) /\ ~Named(i) /\ yam[i] = None) => mem[i] = npre[i]
=============================================================================
