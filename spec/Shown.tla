--------------------------------- MODULE Shown ---------------------------------
(* What the printed form of a configuration says about its settings: every setting that is named stands there *)
(* with the value that it has now.  Which settings are named is left open, masked ones are not told: they stand there as stars.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cfg      \* object -> [kind, vals: setting -> text of its value]
vars == <<cfg>>
Masked == "***"
Init0 == cfg = <<>>
Make(i, k, f) == cfg' = (i :> [kind |-> k, vals |-> f]) @@ cfg
Set(i, n, t) == i \in DOMAIN cfg /\ n \in DOMAIN cfg[i].vals /\ cfg' = [cfg EXCEPT ![i].vals[n] = t]
(* told: setting -> text that stands there *)
Show(i, told) == /\ i \in DOMAIN cfg
                 /\ \A n \in DOMAIN told : n \in DOMAIN cfg[i].vals /\ told[n] \in {cfg[i].vals[n], Masked}
                 /\ UNCHANGED cfg
================================================================================
