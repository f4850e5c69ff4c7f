"""Fixed window: C08."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Pars <- {pars}
  Ticks = {ticks}
  Eager = {eager}
  Hist = {hist}
  MaxNow = {maxnow}
  MaxHist = {maxhist}
VIEW {view}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Bounded {law}
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(threads="{1,2}", pars="ParsS", ticks="{1,2,5}", eager="FALSE", hist="TRUE", maxnow=9, maxhist=99, view="FullView", law="Exact", extra=""):
    return MC.format(**locals())


def main(pid):
    c = Ctx(pid, "fw")
    g = {}

    def spec():
        c.model_check("FWMC", mc(maxnow=c.pick(6, 9), maxhist=c.pick(4, 6)), timeout=850, workers=c.pick(4, 8))

    def scripts():
        g["g"] = c.graph("FWMC", mc(threads="{1}", pars="ParsG", ticks="{1,2,3,4,9}", eager="TRUE", hist="FALSE", maxnow=10**6, view="View", law="",
                                    extra="ACTION_CONSTRAINT PrintEdge"), timeout=850)
        g["s"] = c.simulate("FWMC", mc(threads="{1,2,3}", pars="ParsX", ticks="{1,2,3,4,5,13,60,400}", eager="TRUE", hist="FALSE", maxnow=10**6,
                                       view="View", law="", extra="ACTION_CONSTRAINT PrintSim"), c.pick(250, 2000), c.pick(80, 120))

    parallel(spec, scripts, lambda: c.build(["ratelimiter"]))
    sc = op_scripts(g["g"].tour(c.rng, 100) + g["s"])
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    conc = []
    A = {"o": "acq"}
    for off in (0, 1):
        for cap in (1, 2, 3):
            for w, unit in ((1, "1ms"), (2, "1s"), (3, "50ns")):
                for pre in ([], [A], [1], [A, 2 * w], [2 * w - 1, A], [A, 7 * w]):
                    for th in ([[A], [A]], [[A, A], [A, A]], [[A], [A], [A]], [[A, A, A], [A]]):
                        for tk in ([], [1, 1], [2 * w - 1, 1], [2 * w], [4 * w, 1]):
                            conc.append({"par": {"cap": cap, "w": w, "off": off, "unit": unit}, "acts": ops(*pre, t=6), "threads": th, "ticks": tk,
                                         "post": ops(*([A] * (cap + 1) + [1] + [A] * (cap + 1) + [2 * w, A]), t=7)})
    c.rng.shuffle(conc)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(90, 400)], "Bound": 2, "DFS": c.pick(30, 400), "Rand": c.pick(40, 300)}, timeout=800)
    traces += o[0]
    execs += o[1]
    judge(c, "fixed window", "FWTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
