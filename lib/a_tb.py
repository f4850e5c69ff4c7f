"""Token buckets: C06 (never more), C07 (never less)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Caps = {caps}
  Rates = {rates}
  Ticks = {ticks}
  Eager = {eager}
  Hist = {hist}
  MaxNow = {maxnow}
  Kinds = {kinds}
  Upper = {upper}
VIEW {view}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Bounded {law}
{extra}
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  Safe = {safe}
  Live = {live}
CONSTRAINT Acc
CHECK_DEADLOCK FALSE
"""


def mc(threads="{1,2}", caps="{1,2}", rates="{1,3}", ticks="{1,7,8}", eager="FALSE", hist="TRUE", maxnow=18,
       kinds='{"x"}', view="FullView", upper="TRUE", law="IntervalLaw", extra=""):
    return MC.format(**locals())


def main(pid):
    c = Ctx(pid, "tb")
    g = {}
    KS = '{"sync","atomic"}'

    def spec():
        c.model_check("TBMC", mc(maxnow=c.pick(9, 11), ticks="{1,8}", rates="{1,3}"), timeout=850, workers=c.pick(2, 8))
        c.model_check("TBMC", mc(threads="{1}", eager="TRUE", maxnow=c.pick(10, 16), ticks="{1,7,8}", caps="{0,1,2}",
                                 rates=c.pick("{0,1,2}", "{0,1,2,3}")), timeout=850, workers=c.pick(2, 8))

    def scripts():
        g["g"] = c.graph("TBMC", mc(threads="{1}", caps=c.pick("{1,2}", "{0,1,2,3}"), rates=c.pick("{1,2}", "{0,1,2,3}"), ticks="{1,7,8,18}", eager="TRUE", hist="FALSE", maxnow=10**6, kinds=KS, view="View", upper="FALSE", law="", extra="ACTION_CONSTRAINT PrintEdge"),
                         timeout=850)
        # long idle times with high rates
        g["b"] = c.simulate("TBMC", mc(threads="{1,2,3}", caps="{1,2,3,8}" if pid == "C06" else "{1,2,3,8,40000}", rates="{1,1000,9973}" if pid == "C06" else "{1,3,1000,30000,2147483647}", ticks="{1,7,8,9,400,691200,20000000,170000000}",
                                       eager="TRUE", hist="FALSE", maxnow=19 * 10**8, kinds=KS, view="View", upper="TRUE" if pid == "C06" else "FALSE", law="",
                                       extra="ACTION_CONSTRAINT PrintSim"), c.pick(60, 600), c.pick(30, 40))
        g["s"] = c.simulate("TBMC", mc(threads="{1,2,3}", caps="{0,1,2,3,5,8}", rates="{0,1,2,3,7}", ticks="{1,3,6,7,8,9,16,40,400}",
                                       eager="TRUE", hist="FALSE", maxnow=10**6, kinds=KS, view="View",
                                       extra="ACTION_CONSTRAINT PrintSim"), c.pick(150, 2000), c.pick(80, 120))

    parallel(spec, scripts, lambda: c.build(["ratelimiter"]))
    sc = op_scripts(g["g"].tour(c.rng, 100) + g["s"] + g["b"])
    o = c.harness("TestSteps", {"Scripts": sc})
    traces, execs = o["traces"], o["execs"]
    conc = []
    A = {"o": "acq"}
    for kind in ("atomic", "sync"):
        for cap in (1, 2, 3):
            for rate in (1, 2, 3):
                for pre in ([], [A] * cap, [A] * cap + [8], [A] * cap + [9, A], [A] * cap + [16], [40], [40, A], [A, 7], [A] * cap + [8 * cap + 8]):
                    for th in ([[A], [A]], [[A, A], [A, A]], [[A], [A], [A]], [[A, A, A], [A]]):
                        for tk in ([], [8], [7, 1], [16, 8], [40]):
                            conc.append({"par": {"kind": kind, "cap": cap, "rate": rate}, "acts": ops(*pre, t=6), "threads": th, "ticks": tk,
                                         "post": ops(*([A] * (cap + 1) + [8] + [A] * (cap + 1) + [80] + [A] * (cap + 1)), t=7)})
    c.rng.shuffle(conc)
    conc.sort(key=lambda s: s["par"]["kind"] != "atomic")
    na = sum(1 for s in conc if s["par"]["kind"] == "atomic")
    conc = conc[:c.pick(60, 300)] + conc[na:na + c.pick(12, 60)]
    o = c.harness_par("TestConc", {"Scripts": conc, "Bound": 2, "DFS": c.pick(25, 400), "Rand": c.pick(40, 300)}, timeout=800)
    traces += o[0]
    execs += o[1]
    cfg = TRACE.format(safe="TRUE" if pid == "C06" else "FALSE", live="TRUE" if pid == "C07" else "FALSE")
    judge(c, "token bucket", "TBTrace", traces, cfg)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
