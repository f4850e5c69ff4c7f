---------------------------------- MODULE Conf ----------------------------------
(* Loading a configuration struct.  The struct type is built by Open, Leaf and Close, the sources   *)
(* are filled by Preset, Yaml, Env and Flag, then Load applies them.  Names are lists of characters. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES st,     \* "build", "broken" (a source cannot be understood), "loaded", "ended"
          stack,  \* open levels: [path: names that count, pub: exported so far]
          leaf,   \* leaves: [flag, env, k, pub]
          mem,    \* leaf -> value
          yam,    \* leaf -> value in the YAML file, None
          env,    \* environment: name -> value
          flg     \* command line: name -> value
vars == <<st, stack, leaf, mem, yam, env, flg>>
None == "~none~"
Up == [a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M",
       n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z"]
Caps == {Up[c] : c \in DOMAIN Up}
Lo == [C \in Caps |-> CHOOSE c \in DOMAIN Up : Up[c] = C]
Lower(c) == IF c \in Caps THEN Lo[c] ELSE c
Upper(c) == IF c \in DOMAIN Up THEN Up[c] ELSE c
(* words split at capitals, levels joined *)
RECURSIVE Word(_, _, _)
Word(nm, i, sep) == IF i > Len(nm) THEN "" ELSE (IF i > 1 /\ nm[i] \in Caps THEN sep ELSE "") \o (IF sep = "-" THEN Lower(nm[i]) ELSE Upper(nm[i])) \o Word(nm, i + 1, sep)
RECURSIVE Name(_, _)
Name(path, sep) == IF Len(path) = 1 THEN Word(path[1], 1, sep) ELSE Word(path[1], 1, sep) \o sep \o Name(Tail(path), sep)
FlagName(path) == Name(path, "-")
EnvName(path) == Name(path, "_")
Kinds == {"bool", "float64", "int", "int64", "string", "uint", "uint64", "dur"}
(* named types of these kinds may be supported or not *)
Zero(k) == CASE k \in {"bool", "nbool"} -> "false" [] k \in {"string", "nstring"} -> "" [] OTHER -> "0"
Top == stack[Len(stack)]
Init == st = "build" /\ stack = <<[path |-> <<>>, pub |-> TRUE]>> /\ leaf = <<>> /\ mem = <<>> /\ yam = <<>> /\ env = <<>> /\ flg = <<>>
Exported(nm) == nm[1] \in Caps
Open(nm, emb) == /\ st = "build" /\ stack' = Append(stack, [path |-> IF emb THEN Top.path ELSE Append(Top.path, nm), pub |-> Top.pub /\ Exported(nm)])
                 /\ UNCHANGED <<st, leaf, mem, yam, env, flg>>
Close == st = "build" /\ Len(stack) > 1 /\ stack' = SubSeq(stack, 1, Len(stack) - 1) /\ UNCHANGED <<st, leaf, mem, yam, env, flg>>
Leaf(nm, k) == /\ st = "build"
               /\ LET p == Append(Top.path, nm) IN leaf' = Append(leaf, [flag |-> FlagName(p), env |-> EnvName(p), k |-> k, pub |-> Top.pub /\ Exported(nm)])
               /\ mem' = Append(mem, Zero(k)) /\ yam' = Append(yam, None)
               /\ UNCHANGED <<st, stack, env, flg>>
Preset(i, v) == st = "build" /\ mem' = [mem EXCEPT ![i] = v] /\ UNCHANGED <<st, stack, leaf, yam, env, flg>>
Yaml(i, v) == st = "build" /\ leaf[i].pub /\ yam' = [yam EXCEPT ![i] = v] /\ UNCHANGED <<st, stack, leaf, mem, env, flg>>
(* null for a whole level does not mention its fields; null for a field of pointer type may or may not reset it *)
YamlNull(i) == st = "build" /\ leaf[i].pub /\ (UNCHANGED mem \/ mem' = [mem EXCEPT ![i] = Zero(leaf[i].k)]) /\ UNCHANGED <<st, stack, leaf, yam, env, flg>>
Env(nm, v) == st = "build" /\ env' = [x \in DOMAIN env \cup {nm} |-> IF x = nm THEN v ELSE env[x]] /\ UNCHANGED <<st, stack, leaf, mem, yam, flg>>
Flag(nm, v) == st = "build" /\ (\E i \in DOMAIN leaf : leaf[i].flag = nm) /\ flg' = [x \in DOMAIN flg \cup {nm} |-> IF x = nm THEN v ELSE flg[x]] /\ UNCHANGED <<st, stack, leaf, mem, yam, env>>
Supported(i) == leaf[i].pub /\ leaf[i].k \in Kinds
Named(i) == leaf[i].pub /\ leaf[i].k \in {"nstring", "nint", "nbool", "ndur"}
ByName(i, m) == IF leaf[i].flag \in DOMAIN flg THEN flg[leaf[i].flag] ELSE IF leaf[i].env \in DOMAIN env THEN env[leaf[i].env] ELSE m
Final(i, m) == IF yam[i] = None THEN m ELSE yam[i]
Load == /\ st = "build" /\ st' = "loaded"
        /\ \E ok \in BOOLEAN : mem' = [i \in DOMAIN leaf |-> IF Supported(i) \/ (Named(i) /\ ok) THEN ByName(i, Final(i, mem[i])) ELSE Final(i, mem[i])]
        /\ UNCHANGED <<stack, leaf, yam, env, flg>>
(* a source that cannot be understood: text that is no value of the field's type, unknown flags, unreadable files; never half a configuration *)
BreakField(i) == st = "build" /\ Supported(i) /\ st' = "broken" /\ UNCHANGED <<stack, leaf, mem, yam, env, flg>>
BreakSource == st = "build" /\ st' = "broken" /\ UNCHANGED <<stack, leaf, mem, yam, env, flg>>
Exit(rc) == st = "broken" /\ rc # 0 /\ st' = "ended" /\ UNCHANGED <<stack, leaf, mem, yam, env, flg>>
(* what a program sees afterwards *)
Value(i, v) == st = "loaded" /\ mem[i] = v /\ UNCHANGED vars
Flags(l) == /\ st = "loaded" /\ UNCHANGED vars
            /\ LET F == {l[j] : j \in DOMAIN l} IN
               /\ \A i \in DOMAIN leaf : Supported(i) => leaf[i].flag \in F
               /\ \A x \in F : \E i \in DOMAIN leaf : (Supported(i) \/ Named(i)) /\ leaf[i].flag = x
----------------------------------------------------------------------------
NotHalf == st \in {"broken", "ended"} => ~ENABLED Load
(* the highest source that mentions a field decides, and nothing else does *)
Distinct == \A i, j \in DOMAIN leaf : (i # j /\ leaf[i].pub /\ leaf[j].pub) => leaf[i].flag # leaf[j].flag
=============================================================================
