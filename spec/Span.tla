---------------------------------- MODULE Span ----------------------------------
(* Tracing of server requests, client requests and Redis operations.                                              *)
(* par.srv, par.cli, par.red: what kind of tracer the three instruments got: "on", "nil" (none), "off" (one that   *)
(*   reports nowhere), "never" (its sampler never samples).  par.addr: the hook knows the server's address.         *)
(* par.opt: the options: sle, slb of the middleware, cle, clb of the client (log errors, log bodies of failures),      *)
(*   rle, rar of the hook (log errors, report arguments), db the database it was told ("": none)                      *)
(* par.ops: the operations of the history, each with who runs it (by: 0 the driver, else a server request, in its   *)
(*   handler number at, or for a server request the client request that reaches it):                                 *)
(*   "srv": chain of handlers [a, st, b, sl] (mw is the middleware itself), m method, sw8 what trace header it has  *)
(*   "cli": srv the server request it reaches (0: no connection), m, nilctx                                         *)
(*   "cmd", "pipe", "tx": cmds [n, r] names and replies, conn                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Say
VARIABLES par, begun, worked, wt, outs, asg, claims, fam
vars == <<par, begun, worked, wt, outs, asg, claims, fam>>

Ops == 1..Len(par.ops)
O(o) == par.ops[o]

----------------------------------------------------------------------------
(* Routing: handlers of a chain run in order until one returns an error or aborts; a handler may run the rest      *)
(* itself (next: and return its error, swallow: and ignore it).  s: index i, calls, err, code and text of the        *)
(* error, st and body of the response, pan; mw: what the middleware saw.                                             *)
RECURSIVE Loop(_, _)
RECURSIVE Exec(_, _)
Resp(s, h) == IF h.st # 0 THEN [s EXCEPT !.st = h.st, !.body = h.b] ELSE s
Rest(ch, s) == Loop(ch, [s EXCEPT !.i = @ + 1])
Loop(ch, s) == IF s.i > Len(ch) THEN s
               ELSE LET r == Exec(ch, s) IN IF r.err \/ r.pan THEN r ELSE Loop(ch, [r EXCEPT !.i = @ + 1])
Mark(s, h, k) == IF h.sl THEN s ELSE [s EXCEPT !.calls = Append(@, k)]
Exec(ch, s) ==
  LET h == ch[s.i]  i == s.i  s1 == Mark(s, h, i) IN
  CASE h.a = "ok"      -> Resp(s1, h)
    [] h.a = "err"     -> [s1 EXCEPT !.err = TRUE, !.code = (IF h.st = 0 THEN 500 ELSE h.st), !.text = h.b]
    [] h.a = "abort"   -> [Resp(s1, h) EXCEPT !.i = Len(ch)]
    [] h.a = "panic"   -> [s1 EXCEPT !.pan = TRUE]
    [] h.a = "next"    -> LET r == Rest(ch, Resp(s1, h)) IN IF r.pan THEN r ELSE Mark(r, h, -i)
    [] h.a = "swallow" -> LET r == Rest(ch, Resp(s1, h)) IN IF r.pan THEN r ELSE [Mark(r, h, -i) EXCEPT !.err = FALSE]
    [] h.a = "mw"      -> LET r == Rest(ch, s) IN [r EXCEPT !.mw = [ran |-> TRUE, err |-> r.err, st |-> r.st, pan |-> r.pan, body |-> r.body, text |-> r.text]]
Start == [i |-> 1, calls |-> <<>>, err |-> FALSE, code |-> 0, text |-> "", st |-> 200, body |-> "", pan |-> FALSE,
          mw |-> [ran |-> FALSE, err |-> FALSE, st |-> 0, pan |-> FALSE, body |-> "", text |-> ""]]
Run(ch) == Loop(ch, Start)
(* what the caller gets: an unhandled error becomes the response; a panic is the caller's (ours answers 500) *)
Final(ch) == LET r == Run(ch) IN
             [calls |-> r.calls, pan |-> r.pan, st |-> (IF r.pan THEN 500 ELSE IF r.err THEN r.code ELSE r.st),
              body |-> (IF r.pan THEN "panic" ELSE IF r.err THEN r.text ELSE r.body)]
Pos(ch) == CHOOSE i \in 1..Len(ch) : ch[i].a = "mw"
(* is handler h of the chain run? *)
Ran(ch, h) == LET c == Run(ch).calls IN \E i \in 1..Len(c) : c[i] = h

----------------------------------------------------------------------------
(* Which spans there are.  Ctx(o): the span the operation finds in its context (0 none, -1 one that is not reported) *)
RECURSIVE SpanOf(_)
RECURSIVE Ctx(_)
IsRedis(o) == O(o).k \in {"cmd", "pipe", "tx"}
RunsAt(o) == IF O(o).by = 0 THEN TRUE ELSE IF O(O(o).by).k = "cli" THEN TRUE ELSE Ran(O(O(o).by).chain, O(o).at)
Active(s) == CASE SpanOf(s) = "real" -> s [] SpanOf(s) = "noop" -> -1 [] OTHER -> 0
Ctx(o) == LET b == O(o).by IN
          IF b = 0 THEN 0 ELSE IF O(b).k = "cli" THEN 0 ELSE IF O(o).at < Pos(O(b).chain) THEN 0 ELSE Active(b)
ClientOf(o) == IF O(o).k = "srv" /\ O(o).by # 0 /\ SpanOf(O(o).by) = "real" THEN O(o).by ELSE 0
SpanOf(o) ==
  IF O(o).k = "srv" THEN
    CASE par.srv = "nil" \/ ~Run(O(o).chain).mw.ran -> "none"
      [] par.srv = "off" -> "noop"
      [] O(o).sw8 = "bad" -> "none"
      [] par.srv = "on" \/ O(o).sw8 = "ext" \/ ClientOf(o) # 0 -> "real"
      [] OTHER -> "noop"
  ELSE LET t == IF IsRedis(o) THEN par.red ELSE par.cli IN
    CASE t = "nil" \/ (O(o).k = "cli" /\ O(o).nilctx) \/ (IsRedis(o) /\ ~par.addr) -> "none"
      [] Ctx(o) = -1 \/ t = "off" -> "noop"
      [] t = "on" \/ Ctx(o) > 0 -> "real"
      [] OTHER -> "noop"
SegParent(o) == IF O(o).k # "srv" /\ Ctx(o) > 0 THEN Ctx(o) ELSE 0
Link(o) == IF SegParent(o) # 0 THEN SegParent(o) ELSE ClientOf(o)
RECURSIVE Top(_)
Top(o) == IF Link(o) = 0 THEN o ELSE Top(Link(o))
RECURSIVE SegRoot(_)
SegRoot(o) == IF SegParent(o) = 0 THEN o ELSE SegRoot(SegParent(o))
(* a handler that panics ends the request without an outcome: its span, and with it the segment, may be lost *)
Maybe(o) == LET r == SegRoot(o) IN O(r).k = "srv" /\ Run(O(r).chain).pan
Reported(o) == \E k \in DOMAIN asg : asg[k] = o

----------------------------------------------------------------------------
(* Results of client requests and Redis operations *)
CliOut(o) == IF O(o).srv = 0 THEN [err |-> TRUE, st |-> 0, body |-> ""]
             ELSE LET f == Final(O(O(o).srv).chain) IN [err |-> FALSE, st |-> f.st, body |-> f.body]
(* conn "null": the transaction is given up because a watched key has changed; "exab": discarded at its end *)
Res(o) == [i \in 1..Len(O(o).cmds) |-> CASE O(o).conn = "up" -> O(o).cmds[i].r [] O(o).conn = "null" -> "txf" [] O(o).conn = "exab" -> "exab" [] OTHER -> "fail"]
RECURSIVE FirstBad(_)
FirstBad(r) == IF r = <<>> THEN "ok" ELSE IF Head(r) # "ok" THEN Head(r) ELSE FirstBad(Tail(r))
RedOut(o) == [res |-> Res(o), err |-> FirstBad(Res(o))]
Executed(o) == IF O(o).conn = "up" THEN [i \in 1..Len(O(o).cmds) |-> i] ELSE <<>>

RECURSIVE Join(_)
Join(s) == IF Len(s) = 1 THEN s[1] ELSE s[1] \o "|" \o Join(Tail(s))
Names(o) == LET c == [i \in 1..Len(O(o).cmds) |-> O(o).cmds[i].n] IN
            IF O(o).k = "tx" THEN <<"multi">> \o c \o <<"exec">> ELSE c
Name(o) == IF IsRedis(o) THEN Join(Names(o)) ELSE IF O(o).k = "srv" THEN O(o).m \o ":" \o O(o).path ELSE O(o).m \o ":" \o O(o).path
Peer(o) == CASE O(o).k = "srv" -> "" [] O(o).k = "cli" -> O(o).host [] OTHER -> "redis.test:6379"
Failed(o) == CASE O(o).k = "srv" -> LET w == Run(O(o).chain).mw IN w.err \/ w.st >= 400
               [] O(o).k = "cli" -> CliOut(o).err \/ CliOut(o).st >= 400
               [] OTHER -> RedOut(o).err # "ok"
(* the status a handler's error leads to is not known to the middleware *)
Status(o) == CASE O(o).k = "srv" -> LET w == Run(O(o).chain).mw IN
                                    IF w.err THEN {0, w.st, Run(O(o).chain).code, Final(O(o).chain).st} ELSE {w.st}
               [] O(o).k = "cli" -> {CliOut(o).st}
               [] OTHER -> {0}

----------------------------------------------------------------------------
(* What a span tells (C37).  Data of operations is told in pieces: keys k<op>_<i> of commands and errors e<op>_<i> of *)
(* theirs, bodies and errors b<op>.<i> of handlers; bodies of requests, headers and values of keys are never told.   *)
Piece(l, o, i) == l \o ToString(o) \o "_" \o ToString(i)
Shown(b) == IF b \in {"", "panic", "Not Found"} THEN {} ELSE {b}
CmdIx(o) == 1..Len(O(o).cmds)
(* what is logged of a failure: its pieces, and the errors of the client library itself *)
Logged(o) ==
  CASE O(o).k = "srv" -> LET w == Run(O(o).chain).mw IN
         [on |-> IF w.err THEN par.opt.sle ELSE par.opt.slb /\ w.st >= 400,
          some |-> IF w.err THEN w.text # "" ELSE w.body # "", said |-> Shown(IF w.err THEN w.text ELSE w.body), lib |-> {}]
    [] O(o).k = "cli" -> LET r == CliOut(o) IN
         [on |-> IF r.err THEN par.opt.cle ELSE par.opt.clb /\ r.st >= 400, some |-> r.err \/ r.body # "", said |-> Shown(r.body), lib |-> {}]
    [] OTHER -> LET r == Res(o) IN
         [on |-> par.opt.rle /\ RedOut(o).err # "ok", some |-> TRUE, said |-> {Piece("e", o, i) : i \in {j \in CmdIx(o) : r[j] = "err"}},
          lib |-> {r[i] : i \in CmdIx(o)} \cap {"nil", "txf", "exab"}]
Keys(o) == IF par.opt.rar THEN [i \in CmdIx(o) |-> Piece("k", o, i)] ELSE <<>>
Told(o) == (IF Logged(o).on THEN Logged(o).said ELSE {}) \cup (IF IsRedis(o) THEN {Piece("k", o, i) : i \in DOMAIN Keys(o)} ELSE {})
Url(o) == "http://" \o (IF O(o).k = "cli" THEN O(o).host ELSE IF O(o).by = 0 THEN "here.test" ELSE O(O(o).by).host) \o O(o).path \o "?q=1"
Tells(o, e) ==
  LET lg == Logged(o)  r == IsRedis(o) IN
  /\ IF Maybe(o) /\ O(o).k = "srv" THEN e.said = {} /\ ~e.text
     ELSE /\ e.said = Told(o)
          /\ e.text = (lg.on /\ lg.some)
          /\ lg.on => lg.lib \subseteq e.lib
          /\ ~lg.on => e.lib = {}
  /\ e.layer = (IF r THEN "cache" ELSE "http")
  /\ e.method = (IF r THEN "" ELSE O(o).m) /\ e.url = (IF r THEN "" ELSE Url(o))
  /\ e.db = (IF r THEN <<"Redis", par.opt.db>> ELSE <<"", "">>)
  /\ e.stkeys = (IF r THEN Keys(o) ELSE <<>>)
  /\ (r /\ ~par.opt.rar => e.stmt = Name(o)) /\ (~r => e.stmt = "")

----------------------------------------------------------------------------
InitWith(P) == par \in P /\ begun = {} /\ worked = {} /\ wt = <<>> /\ outs = {} /\ asg = <<>> /\ claims = {} /\ fam = <<>>
(* an operation starts; the request a server sees is the one the client sent, but for propagation headers *)
Begin(o) == o \notin begun /\ (O(o).by # 0 => O(o).by \in begun \ outs) /\ RunsAt(o)
            /\ begun' = begun \cup {o} /\ UNCHANGED <<par, worked, wt, outs, asg, claims, fam>>
(* the operation itself is over, at time t *)
Work(o, t) == o \in begun \ worked /\ worked' = worked \cup {o} /\ wt' = (o :> t) @@ wt /\ UNCHANGED <<par, begun, outs, asg, claims, fam>>
(* its caller has the result *)
Out(o) == o \in worked \ outs /\ outs' = outs \cup {o} /\ UNCHANGED <<par, begun, worked, wt, asg, claims, fam>>
(* a reported span e is that of operation o *)
SpanFor(o, e) ==
  LET at == <<e.seg, e.id>>
      p == SegParent(o)  c == ClientOf(o)
      new == (IF p # 0 THEN {<<<<e.seg, e.par>>, p>>} ELSE {}) \cup (IF c # 0 THEN {<<e.ref, c>>} ELSE {}) IN
  /\ o \in worked /\ e.t >= wt[o] /\ ~Reported(o) /\ SpanOf(o) = "real"
  /\ e.ty = (IF O(o).k = "srv" THEN "entry" ELSE "exit")
  /\ e.name = Name(o) /\ e.peer = Peer(o)
  /\ (Maybe(o) /\ O(o).k = "srv") \/ (e.err = Failed(o) /\ e.st \in Status(o))
  /\ e.u \in {0, IF O(o).k = "cli" /\ O(o).srv # 0 THEN O(o).srv ELSE o}
  /\ Say => Tells(o, e)
  /\ e.keys = <<>> \/ e.keys = [i \in 1..Len(e.keys) |-> o]
  /\ p = 0 => e.par = -1
  /\ c = 0 => e.ref = (IF O(o).k = "srv" /\ O(o).sw8 = "ext" THEN <<0, 3>> ELSE <<-1, -1>>)
  /\ at \notin DOMAIN asg
  /\ \A x \in claims : x[1] = at => x[2] = o
  /\ \A x \in new : x[1] \in DOMAIN asg => asg[x[1]] = x[2]
  /\ LET t == Top(o) IN
       IF O(t).k = "srv" /\ O(t).sw8 = "ext" THEN e.tr = 0 /\ fam' = fam
       ELSE IF t \in DOMAIN fam THEN e.tr = fam[t] /\ fam' = fam
       ELSE e.tr # 0 /\ e.tr \notin {fam[x] : x \in DOMAIN fam} /\ fam' = (t :> e.tr) @@ fam
  /\ asg' = (at :> o) @@ asg
  /\ claims' = claims \cup new
  /\ UNCHANGED <<par, begun, worked, wt, outs>>
(* everything has come to rest: every span has been reported *)
Settled == /\ \A o \in worked : SpanOf(o) = "real" /\ ~Maybe(o) => Reported(o)
           /\ \A x \in claims : x[1] \in DOMAIN asg \/ Maybe(x[2])
Finished == worked = outs /\ begun = outs
=============================================================================
