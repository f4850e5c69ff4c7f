"""Tracing of server requests, client requests and Redis operations: C30, C31, C37."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Say = {say}
  Opts = "{opts}"
  Modes = {modes}
  MaxOps = {ops}
  MaxChain = {chain}
  Acts = {acts}
  Kinds = {kinds}
  MaxCmds = {cmds}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Say = {say}\n Same = {same}\n Spans = {spans}\n"
INV = "INVARIANTS Transparent OnceEach OneSpan Families Off Discreet Plain CanSettle"
ALL = '{"on", "nil", "off", "never"}'
ACTS = '{"ok", "err", "abort", "next", "swallow", "panic"}'
KINDS = '{"srv", "cli", "red"}'


def mc(modes='{"on"}', ops=2, chain=1, acts=ACTS, kinds=KINDS, cmds=1, extra=INV, opts="none", say="FALSE"):
    return MC.format(modes=modes, ops=ops, chain=chain, acts=acts, kinds=kinds, cmds=cmds, extra=extra, opts=opts, say=say)


def main(pid):
    c = Ctx(pid, "span")
    same, say = pid == "C30", pid == "C37"
    walks = []

    def spec():
        if say:
            c.model_check("SpanMC", mc(ops=c.pick(1, 2), chain=1, cmds=2, opts=c.pick("all", "two"), say="TRUE"), timeout=850, workers=3)
        elif same:
            c.model_check("SpanMC", mc(modes=ALL, ops=1, chain=c.pick(2, 3), kinds='{"srv"}'), timeout=850, workers=3)
        else:
            c.model_check("SpanMC", mc(acts=c.pick('{"err"}', '{"ok", "err", "panic"}')), timeout=850, workers=3)

    def sim(k, modes, n, ops, cmds=3):
        def f():
            w = c.simulate("SpanMC", mc(modes=modes, ops=99, chain=4, cmds=cmds, opts="all", say="FALSE", extra="ACTION_CONSTRAINT PrintSim"), c.pick(n, n * 8), ops, seed=c.seed * 100 + k)
            groups = {}
            for x in w:
                groups.setdefault(json.dumps(x["par"]["ops"][:max(1, len(x["par"]["ops"]) - 2)], sort_keys=True), []).append(x)
            for g in groups.values():
                c.rng.shuffle(g)
                walks.extend(g[:3])
        return f

    parallel(spec, lambda: c.build([]), sim(1, '{"on"}', 150, 4, 12), sim(2, '{"on"}', 60, 9), sim(3, ALL if same else '{"on", "never"}', 100, 4), sim(4, ALL, 60, 7))
    walks.sort(key=lambda x: json.dumps(x, sort_keys=True))
    r, sc = c.rng, []
    r.shuffle(walks)
    for w in walks[:c.pick(2500, 20000)]:
        p = w["par"]
        n = sum(1 for o in p["ops"] if o["by"] == 0)
        k = r.choice([1, 1, 2, 3, 4])
        s = {"Par": p, "Threads": [r.randrange(k) for _ in range(n)], "Conc": r.random() < .5, "Seed": r.randrange(10**9)}
        for f in ("Upper", "Stream"):
            s[f] = r.random() < .4
        s["Pad"] = r.choice([0, 0, 0, 40, 300, 3500])
        if same and r.random() < .2:
            s["Noop"] = True
        sc.append(s)
    tr, ex = c.harness_par("TestSpan", {"Scripts": sc}, timeout=800)
    judge(c, "tracing", "SpanTrace", tr, TRACE.format(same="TRUE" if same else "FALSE", say="TRUE" if say else "FALSE", spans="FALSE" if same else "TRUE"))
    c.cov["executions"] = ex
    c.cov["operations"] = sum(len(s["Par"]["ops"]) for s in sc)
    return c.finish()
