---------------------------------- MODULE Auth ----------------------------------
(* The guard of the profiling endpoints.  Several guarded endpoints live in one process, each with its own      *)
(* configured user name and password (sequences of characters).  A request carries a list of Authorization       *)
(* headers, each described by its scheme, the gap after it, the encoding of what follows and the text encoded.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES par,    \* sequence of [fw, u, p]: the guarded endpoints
          req,    \* the requests under way: id -> [c, h]
          leaks   \* endpoints that served so far
vars == <<par, req, leaks>>

Configured(c) == par[c].u # <<>> /\ par[c].p # <<>>
Cred(c) == par[c].u \o <<":">> \o par[c].p
(* exactly the configured credentials, in the one form every client produces *)
Exact(c, h) == h.sch = "Basic" /\ h.gap = " " /\ h.enc = "std" /\ h.txt = Cred(c)
(* the right credentials in a form a server may also understand: RFC 7235 schemes ignore case *)
Loose(c, h) == h.sch \in {"Basic", "basic", "BASIC"} /\ h.gap \in {" ", "  ", "\t"} /\ h.enc \in {"std", "raw", "url", "trail"} /\ h.txt = Cred(c)
Must(c, hs) == Configured(c) /\ Len(hs) = 1 /\ Exact(c, hs[1])
May(c, hs) == Configured(c) /\ \E i \in 1..Len(hs) : Loose(c, hs[i])
Verdicts(c, hs) == IF Must(c, hs) THEN {TRUE} ELSE IF May(c, hs) THEN BOOLEAN ELSE {FALSE}

InitWith(P) == par \in P /\ req = <<>> /\ leaks = {}
Request(t, c, hs) == t \notin DOMAIN req /\ req' = (t :> [c |-> c, h |-> hs]) @@ req /\ UNCHANGED <<par, leaks>>
(* what others are asking at the same time, or were granted before, does not matter *)
Answer(t, b) == /\ t \in DOMAIN req /\ b \in Verdicts(req[t].c, req[t].h)
                /\ leaks' = (IF b THEN leaks \cup {req[t].c} ELSE leaks)
                /\ req' = [x \in DOMAIN req \ {t} |-> req[x]] /\ UNCHANGED par
=============================================================================
