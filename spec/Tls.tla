----------------------------------- MODULE Tls -----------------------------------
(* Clients built from a configuration and the TLS servers they connect to.                                       *)
(* par.c: sequence of clients  [mode, files, cert]: trust mode, trusted certificate files (each the sequence of   *)
(*        anchors in it; <<"missing">>, <<"junk">> for files that cannot be used), client certificate             *)
(* par.s: sequence of servers  [anchor, host, time, want]: the authority its certificate leads to, whether it is   *)
(*        for this host name, its validity, and what it wants of clients                                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES par, made, open
vars == <<par, made, open>>

Set(s) == {s[i] : i \in 1..Len(s)}
Unusable == {"missing", "junk"}
Files(c) == UNION {Set(f) : f \in Set(c.files)}
(* a client certificate that cannot be loaded: there is no client, rather than one without it;                    *)
(* trust files that cannot be used: no client, or one that trusts the others only                                  *)
Broken(c) == c.cert \in {"nokey", "nocert", "mismatch", "missing"}
Known == {"OS", "", "CUSTOM", "INSECURE"}
Anchors(c) == IF c.mode = "CUSTOM" THEN Files(c) ELSE {"os"}
Sound(s) == s.host = "right" /\ s.time = "valid"
Trusted(c, s) == c.mode = "INSECURE" \/ (s.anchor \in Anchors(c) /\ Sound(s))
(* does the server let the client in? *)
Lets(c, s) == CASE s.want = "none" -> TRUE [] s.want = "ask" -> TRUE [] s.want = "reqA" -> c.cert \in {"cliA", "cliAi"}
(* a mode that is none of the documented ones gives no more trust than one of the verifying modes *)
Accepts(c, s) == IF c.mode \in Known THEN {Trusted(c, s) /\ Lets(c, s)}
                 ELSE IF Sound(s) /\ s.anchor \in {"os"} \cup Files(c) THEN {FALSE, Lets(c, s)} ELSE {FALSE}
(* the identity the server gets to see *)
Shown(c, s, ok) == IF s.want = "none" THEN {"none"} ELSE IF ok THEN {c.cert} ELSE IF c.mode \in Known /\ ~Trusted(c, s) THEN {"none"} ELSE {"none", c.cert}

InitWith(P) == par \in P /\ made = <<>> /\ open = {}
Make(i, ok) == i \notin DOMAIN made /\ (Broken(par.c[i]) => ~ok) /\ (~ok => Broken(par.c[i]) \/ Files(par.c[i]) \cap Unusable # {})
               /\ made' = (i :> ok) @@ made /\ UNCHANGED <<par, open>>
Connect(i, j, ok, saw, id) ==
  /\ i \in DOMAIN made /\ made[i]
  /\ ok \in Accepts(par.c[i], par.s[j]) /\ saw = ok /\ id \in Shown(par.c[i], par.s[j], ok)
  /\ open' = IF ok THEN open \cup {<<i, j>>} ELSE open
  /\ UNCHANGED <<par, made>>
=============================================================================
