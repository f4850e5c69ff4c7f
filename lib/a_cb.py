"""Circuit breaker: C01, C02, C03."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Pars <- {pars}
  MaxNow = {maxnow}
  MaxRec = {maxrec}
  Ticks = {ticks}
  Eager = {eager}
VIEW {view}
CONSTRAINT Bound
INVARIANTS TypeOK Sheds Admits Counted
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  MRun = {run}
  MShed = {shed}
  MOrder = {order}
CONSTRAINT Acc
CHECK_DEADLOCK FALSE
"""
MODES = {"C01": dict(run="TRUE", shed="FALSE", order="FALSE"),
         "C02": dict(run="FALSE", shed="TRUE", order="FALSE"),
         "C03": dict(run="FALSE", shed="FALSE", order="TRUE")}


def mc(threads="{1,2}", pars="ParsS", maxnow=8, maxrec=3, ticks="{1,3,4}", eager="FALSE", view="FullView", extra=""):
    return MC.format(threads=threads, pars=pars, maxnow=maxnow, maxrec=maxrec, ticks=ticks, eager=eager, view=view, extra=extra)


def main(pid):
    c = Ctx(pid, "cb")
    modes = MODES[pid]
    g = {}

    def spec():
        c.model_check("CBMC", mc(pars=c.pick("ParsS", "ParsL"), threads=c.pick("{1,2}", "{1,2,3}"),
                                 maxrec=c.pick(3, 4), maxnow=c.pick(6, 9)), timeout=850, workers=c.pick(4, 8))

    def scripts():
        g["g"] = c.graph("CBMC", mc(threads=c.pick("{1,2}", "{1,2,3}"), pars=c.pick("ParsG", "ParsS"), maxrec=10**6, maxnow=10**6, eager="TRUE",
                                    view="View", ticks="{1,3,4}", extra="ACTION_CONSTRAINT PrintEdge"), timeout=850)
        g["s"] = c.simulate("CBMC", mc(threads="{1,2,3,4}", pars="ParsX", maxrec=99, maxnow=120, eager="TRUE", view="View",
                                       ticks="{1,3,4,6,7}", extra="ACTION_CONSTRAINT PrintSim"), c.pick(120, 1500), c.pick(60, 90))

    parallel(spec, scripts, lambda: c.build(["circuitbreaker"]))
    walks = g["g"].tour(c.rng, 80) + g["s"]
    sc = []
    for i, w in enumerate(walks):
        acts = [a for a in w["acts"] if a["k"] != "int" and a["k"] != "init"]
        if acts:
            sc.append({"par": w["par"], "acts": acts, "nest": i % 3 == 2})
            if i % 7 == 0:
                sc.append({"par": dict(w["par"], kind="never"), "acts": acts, "nest": i % 2 == 0})
    o = c.harness("TestSteps", {"Scripts": sc})
    traces = o["traces"]
    execs = o["execs"]
    # concurrent phases: prefix of outcomes, racing calls, sequential probes
    conc, late = [], []
    E, K = "err", "ok"

    def seq(rs, t=5):
        l = []
        for r in rs:
            if isinstance(r, int):
                l.append({"k": "tick", "d": r})
            else:
                l += [{"k": "call", "t": t}, {"k": "tend", "t": t, "r": r}, {"k": "eend", "t": t}, {"k": "oend", "t": t}]
        return l
    for n in (1, 2, 3):
        for pre in ([], [E] * n, [E] * n + [9], [E] * (n - 1), [E] * n + [9, K]):
            for thr in ([[E], [E]], [[E], [K]], [[E, E], [E]], [[E], [E], [E]], [[K], [E], [E]], [[E, K], [K, E]]):
                conc.append({"par": {"kind": "sync", "n": n, "rt": 8}, "acts": seq(pre), "threads": thr,
                             "post": seq([K if n == 1 else E, E, E, 8, E, 1, K, E])})
        # time goes by during the race: what counts is when a failure is recorded, not when it was about to be
        for pre in ([E] * (n - 1), [E] * n, [E] * n + [9], [E] * (n - 1) + [3]):
            for thr in ([[E], [E]], [[E], [K]], [[E, E], [E]], [[E], [E], [E]], [[E], [K, E]]):
                for tk in ([4], [6], [9], [4, 5]):
                    late.append({"par": {"kind": "sync", "n": n, "rt": 8}, "acts": seq(pre), "threads": thr, "ticks": tk,
                                 "post": seq(c.rng.choice([[9 - tk[0] if tk[0] < 9 else 1, K, E], [3, E, K], [5, K, E, 9, E], [6, E, 8, K], [1, E, 7, K, 1, E]]))})
    c.rng.shuffle(conc)
    c.rng.shuffle(late)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(30, 90)] + late[:c.pick(40, 120)], "Bound": c.pick(1, 2), "DFS": c.pick(40, 1500), "Rand": c.pick(30, 600)}, timeout=800)
    traces += o[0]
    execs += o[1]
    cfg = TRACE.format(**modes)
    bad = c.validate("CBTrace", traces, cfg, shards=c.pick(4, 8))
    for i in bad[:3]:
        pos = c.where("CBTrace", traces[i], cfg)
        c.violation("circuit breaker execution is not a behaviour of the specification: unexplained event %d: %s" % (
            pos, traces[i]["ev"][pos - 1]), {"trace": traces[i], "position": pos})
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
