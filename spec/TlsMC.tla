---------------------------------- MODULE TlsMC ----------------------------------
EXTENDS Tls, Json
CONSTANTS SimLen, Pars
VARIABLES act, log
mvars == <<vars, act, log>>
FileLists == {<<>>, <<<<"c1">>>>, <<<<"c2">>>>, <<<<"c1">>, <<"c2">>>>, <<<<"c1", "c2">>>>, <<<<"os">>>>, <<<<"self">>>>, <<<<"c2">>, <<"self", "c1">>>>}
Clients == {[mode |-> m, files |-> f, cert |-> k] : m \in Known \cup {"custom", "insecure", "NONE"}, f \in FileLists, k \in {"none", "cliA", "cliAi", "cliB"}}
Broke == {[mode |-> m, files |-> f, cert |-> k] : m \in Known, f \in {<<>>, <<<<"c1">>>>, <<<<"missing">>>>, <<<<"c1">>, <<"missing">>>>}, k \in {"none", "cliA", "nokey", "nocert", "mismatch", "missing"}}
Servers == {[anchor |-> a, host |-> h, time |-> t, want |-> w] : a \in {"os", "c1", "c1i", "c2", "other", "self"}, h \in {"right", "wrong"}, t \in {"valid", "expired", "future"}, w \in {"none", "ask", "reqA"}}
Fix(s) == IF s.anchor = "c1i" THEN [s EXCEPT !.anchor = "c1"] @@ [via |-> TRUE] ELSE s @@ [via |-> FALSE]
OneServer == [anchor |-> "c1", host |-> "right", time |-> "valid", want |-> "ask", via |-> FALSE]
All == {[c |-> <<c>>, s |-> <<Fix(s)>>] : c \in Clients, s \in Servers} \cup {[c |-> <<c>>, s |-> <<OneServer>>] : c \in Broke}
Init == InitWith(Pars) /\ act = [k |-> "init"] /\ log = <<>>
Next == /\ UNCHANGED log
        /\ \/ \E i \in 1..Len(par.c), ok \in BOOLEAN : Make(i, ok) /\ act' = [k |-> "make"]
           \/ \E i \in 1..Len(par.c), j \in 1..Len(par.s), ok \in BOOLEAN, id \in {"none", "cliA", "cliAi", "cliB"} :
                Connect(i, j, ok, ok, id) /\ act' = [k |-> "op", i |-> i, j |-> j, ok |-> ok, id |-> id]
Spec == Init /\ [][Next]_mvars
View == vars
PrintPar == (act'.k = "make") => PrintT("TXT " \o ToJson(par))
----------------------------------------------------------------------------
C(x) == par.c[x[1]]
S(x) == par.s[x[2]]
OnlyInsecureSkips == \A x \in open : C(x).mode # "INSECURE" => Sound(S(x)) /\ S(x).anchor # "other"
OsOnly == \A x \in open : C(x).mode \in {"OS", ""} => S(x).anchor = "os"
CustomOnly == \A x \in open : C(x).mode = "CUSTOM" => \E k \in 1..Len(C(x).files) : \E m \in 1..Len(C(x).files[k]) : C(x).files[k][m] = S(x).anchor
ClosedWithoutFiles == \A x \in open : C(x).mode = "CUSTOM" => C(x).files # <<>>
Identity == act.k = "op" => (act.ok /\ S(<<act.i, act.j>>).want # "none" => act.id = C(<<act.i, act.j>>).cert)
                         /\ (act.id # "none" => act.ok \/ C(<<act.i, act.j>>).mode # "CUSTOM" \/ S(<<act.i, act.j>>).want = "reqA")
Decided == \A i \in 1..Len(par.c), j \in 1..Len(par.s) : par.c[i].mode \in Known => Cardinality(Accepts(par.c[i], par.s[j])) = 1
=============================================================================
