--------------------------------- MODULE AuthMC ---------------------------------
EXTENDS Auth, Json
CONSTANTS SimLen, Pars, MaxT, Threads
VARIABLES act, log
mvars == <<vars, act, log>>
Al == {"a", ":"}
Seqs(n) == UNION {[1..k -> Al] : k \in 0..n}
One == {<<[u |-> u, p |-> p]>> : u \in Seqs(2), p \in Seqs(2)}
E2 == {<<>>, <<"a">>, <<":">>, <<"a", ":">>}
Two == {<<[u |-> u, p |-> p], [u |-> v, p |-> q]>> : u \in {<<>>, <<"a">>, <<"a", "a">>}, v \in {<<"a">>, <<"b">>}, p \in E2, q \in E2}
H(s, g, e, t) == [sch |-> s, gap |-> g, enc |-> e, txt |-> t]
Texts(c) == Seqs(MaxT) \cup {Cred(c), par[c].p \o <<":">> \o par[c].u, par[c].u, par[c].p, par[c].u \o par[c].p, Cred(c) \o <<"a">>, <<"a">> \o Cred(c), Cred(c) \o <<":">>, <<":">> \o Cred(c)}
Headers(c) == {H("Basic", " ", "std", t) : t \in Texts(c)}
         \cup {H(s, " ", "std", Cred(c)) : s \in {"basic", "BASIC", "Bearer", "Digest", "", "Basi", "BasicX"}}
         \cup {H(s, g, "std", Cred(c)) : s \in {"Basic", "basic", "", "Bearer"}, g \in {"", "  ", "\t"}}
         \cup {H(s, " ", e, Cred(c)) : s \in {"Basic", "basic", "", "Bearer"}, e \in {"raw", "url", "plain", "double", "trail", "cut", "tail", "junk"}}
Lists(c) == {<<>>} \cup {<<h>> : h \in Headers(c)} \cup {<<H("Basic", " ", "std", t), H("Basic", " ", "std", u)>> : t \in {<<>>, Cred(c)}, u \in {Cred(c), <<"a", ":">>}}
Init == InitWith(Pars) /\ act = [k |-> "init"] /\ log = <<>>
ReqA == \E t \in Threads, c \in 1..Len(par) : \E d \in 1..Len(par) : \E hs \in (IF d = c THEN Lists(c) ELSE {<<H("Basic", " ", "std", Cred(d))>>}) :
          Request(t, c, hs) /\ act' = [k |-> "op", c |-> c, h |-> hs]
AnsA == \E t \in DOMAIN req, b \in BOOLEAN : Answer(t, b) /\ act' = [k |-> "ans"]
Next0 == ReqA \/ AnsA
Next == Next0 /\ log' = log
Spec == Init /\ [][Next]_mvars
View == vars
PrintReq == (act'.k = "op") => PrintT("TXT " \o ToJson([par |-> par, c |-> act'.c, h |-> act'.h]))
----------------------------------------------------------------------------
(* nothing is ever served by an endpoint without configured credentials *)
Closed == \A c \in leaks : Configured(c)
(* credentials of one endpoint open another one only if they are the same (user names without separator) *)
Plain(c) == \A i \in 1..Len(par[c].u) : par[c].u[i] # ":"
Apart == \A c, d \in 1..Len(par) : (Configured(c) /\ Configured(d) /\ Plain(c) /\ Plain(d) /\ Cred(c) = Cred(d)) => par[c].u = par[d].u /\ par[c].p = par[d].p
(* a request that must be served carries user name and password, and no header that opens nothing is needed for it *)
Carries == \A t \in DOMAIN req : LET r == req[t] IN TRUE \in Verdicts(r.c, r.h) =>
             \E i \in 1..Len(r.h) : LET x == r.h[i].txt IN \E k \in 1..Len(x) : x[k] = ":" /\ SubSeq(x, 1, k - 1) = par[r.c].u /\ SubSeq(x, k + 1, Len(x)) = par[r.c].p
NoneNone == \A t \in DOMAIN req : req[t].h = <<>> => Verdicts(req[t].c, req[t].h) = {FALSE}
=============================================================================
