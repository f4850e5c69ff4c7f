---------------------------------- MODULE Mask ----------------------------------
(* Printing connection configurations.  What a configuration prints may depend on its public fields and on the   *)
(* lengths of user name and password, but not on what these two say: a reader of everything printed so far        *)
(* learns nothing about them.                                                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg,     \* the configuration objects: id -> [kind, pub, u, p]
          shown    \* what has been printed: [kind, form, pub, shape] -> text
vars == <<cfg, shown>>

Shape(c) == <<Len(c.u), Len(c.p)>>
Key(c, f) == [kind |-> c.kind, form |-> f, pub |-> c.pub, shape |-> Shape(c)]
Init0 == cfg = <<>> /\ shown = <<>>
Make(i, k, v, u, p) == cfg' = (i :> [kind |-> k, pub |-> v, u |-> u, p |-> p]) @@ cfg /\ UNCHANGED shown
SetPub(i, v) == i \in DOMAIN cfg /\ cfg' = [cfg EXCEPT ![i].pub = v] /\ UNCHANGED shown
SetUser(i, u) == i \in DOMAIN cfg /\ cfg' = [cfg EXCEPT ![i].u = u] /\ UNCHANGED shown
SetPass(i, p) == i \in DOMAIN cfg /\ cfg' = [cfg EXCEPT ![i].p = p] /\ UNCHANGED shown
Show(i, f, s) == /\ i \in DOMAIN cfg
                 /\ LET k == Key(cfg[i], f) IN IF k \in DOMAIN shown THEN shown[k] = s ELSE TRUE
                 /\ shown' = (Key(cfg[i], f) :> s) @@ shown
                 /\ UNCHANGED cfg
=============================================================================
