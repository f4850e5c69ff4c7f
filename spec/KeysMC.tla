--------------------------------- MODULE KeysMC ---------------------------------
EXTENDS Keys, Json, TLC
CONSTANTS SimLen, MaxLen
VARIABLES act, log
mvars == <<vars, act, log>>
Toks == {"t"} \cup DOMAIN Data \cup DOMAIN Begins \cup DOMAIN Ends \cup DOMAIN Written
MInit == Init /\ act = [k |-> "init"] /\ log = <<>>
Next0 == Len(doc) < MaxLen /\ \E t \in Toks : Put(t) /\ act' = [k |-> "op", c |-> t]
Next == Next0 /\ log' = Append(log, act'.c)
Spec == MInit /\ [][Next]_mvars
View == vars
PrintText == PrintT("TXT " \o ToJson(log'))
PrintSim == Len(log') = SimLen => PrintT("SIM " \o ToJson([par |-> <<>>, acts |-> [i \in 1..Len(log') |-> [k |-> "op", c |-> log'[i]]]]))
=============================================================================
