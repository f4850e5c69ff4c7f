"""Load policy: C24."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Mins <- {mins}
  Ops = {ops}
  Eager = {eager}
  MaxTime = {maxtime}
  MaxLoads = {maxloads}
  MaxCalls = {maxcalls}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
ALL = '{"get","gets","mget","mgets","bget","bgets","do"}'


def mc(threads="{1,2}", mins="MinsS", ops='{"get","do"}', eager="FALSE", maxtime=4, maxloads=4, maxcalls=4, extra="INVARIANTS OneAtATime Spaced Fresh NoWedge"):
    return MC.format(threads=threads, mins=mins, ops=ops, eager=eager, maxtime=maxtime, maxloads=maxloads, maxcalls=maxcalls, extra=extra)


def R(d, *th):
    return {"d": d, "th": [({"o": x} if isinstance(x, str) else x) for x in th]}


F, X = {"o": "fin", "ok": True}, {"o": "fin", "ok": False}
READS = ["get", "gets", "mget", "mgets", "bget", "bgets", "do"]


def rounds(c, walk, p):
    out = [{"d": 0, "th": []}]
    for a in walk["acts"]:
        if a["k"] == "tick":
            out.append({"d": 1, "th": []})
        else:
            if len(out[-1]["th"]) >= 3 or c.rng.random() < p:
                out.append({"d": 0, "th": []})
            out[-1]["th"].append(a["op"])
    return [r for r in out if r["d"] or r["th"]]


def main(pid):
    c = Ctx(pid, "load")
    g = {}

    def spec():
        c.model_check("LoadMC", mc(maxtime=c.pick(3, 6), maxloads=c.pick(3, 5), maxcalls=c.pick(3, 4)), timeout=850, workers=c.pick(4, 8), mem=c.pick("4g", "12g"))

    def scripts():
        g["s"] = c.simulate("LoadMC", mc(threads="{1,2,3}", mins="MinsX", ops=ALL, eager="TRUE", maxtime=10**6, maxloads=10**6, maxcalls=10**6,
                                         extra="ACTION_CONSTRAINT PrintSim"), c.pick(200, 2000), c.pick(40, 60))

    parallel(spec, scripts, lambda: c.build(["confstore"]))
    sc = []
    for w in g["s"]:
        par = dict(w["par"], u=c.rng.choice([1, 1, 1000, 10**6, 10**9, 3600 * 10**9]))
        if par["min"] <= 0 and c.rng.random() < .5:
            par["simple"] = True
        m = c.rng.choice([0, 0, 1, 2, 3])
        if m:
            par["auto"] = [[True], [False, True], [True, False, False, True, True]][m - 1]
        rs = rounds(c, w, c.rng.choice([0, .5, 1]))
        sc.append({"par": par, "rounds": rs + [R(0, F), R(0, F), R(0, F), R(0, F), R(0, F), R(0, F), R(0, "get"), R(0, F), R(0, F)]})
    for u in (1, 10**6, 3600 * 10**9):
        for mn in (1, 2, 3, 5, 9, 2500000):
            for auto in ([True], [False, True], [False, False, True], []):
                # reads around the end of the interval, many at once
                for k in range(6):
                    rs = [R(0, *c.rng.sample(READS, c.rng.randint(1, 3))), R(c.rng.choice([0, 1]), F, "ext"), R(0, c.rng.choice([F, X])), R(0, c.rng.choice([F, X])), R(0, c.rng.choice(READS)), R(0, F), R(0, F), R(0, F)]
                    for _ in range(6):
                        rs.append(R(max(0, c.rng.choice([mn, mn, mn - 1, 1, mn + 1, max(1, mn // 2)])) if mn < 10 else c.rng.choice([1, 5000]),
                                    *([c.rng.choice(READS) for _ in range(c.rng.choice([0, 1, 1, 2, 3]))] + c.rng.choice([[], ["ext"]]))))
                        # loads that end at once, late, or only after the interval
                        rs.append(R(c.rng.choice([0, 0, 1] + ([mn - 1, mn, mn + 1, 3 * mn] if k % 2 and mn < 10 else [])), c.rng.choice([F, X])))
                        rs.append(R(0, c.rng.choice([F, X]), c.rng.choice([F, X])))
                        rs.append(R(0, c.rng.choice([F, X])))
                    sc.append({"par": {"min": mn, "u": u, "auto": auto}, "rounds": rs})
    c.rng.shuffle(sc)
    traces, execs = c.harness_par("TestRounds", {"Scripts": sc[:c.pick(400, 3000)], "Bound": 1, "DFS": c.pick(6, 40), "Rand": c.pick(8, 60)}, timeout=800)
    judge(c, "load policy", "LoadTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
