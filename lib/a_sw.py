"""Sliding window: C09 (no updates), C10 (reconfiguration)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Caps = {caps}
  Ws = {ws}
  Units = {units}
  UpdCaps <- {upd}
  Ticks = {ticks}
  Eager = {eager}
  Hist = {hist}
  MaxNow = {maxnow}
  MaxHist = {maxhist}
VIEW {view}
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
INVARIANTS Bounded {law}
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(threads="{1,2}", caps="{1,2}", ws="{1,2}", units='{"1s"}', upd="UNone", ticks="{1,2,3}", eager="FALSE", hist="TRUE", maxnow=9, maxhist=99,
       view="FullView", law="Law", extra=""):
    return MC.format(**locals())


def main(pid):
    c = Ctx(pid, "sw")
    g = {}
    U = pid == "C10"
    upd = (lambda x: x) if U else (lambda x: "{}")
    U4 = '{"50ns","1ms","1s","333333333ns","1h"}'

    def spec():
        c.model_check("SWMC", mc(maxnow=c.pick(6, 8), maxhist=c.pick(4, 6), ws="{1,2}", caps="{1,2,3}"), timeout=850, workers=c.pick(4, 8))
        if U:
            c.model_check("SWMC", mc(threads="{1,2}", hist="FALSE", view="View", maxnow=10**6, caps="{0,2}", upd=c.pick("US", "USL"), ticks=c.pick("{1,2}", "{1,2,3}"),
                                     ws=c.pick("{1}", "{1,2}"), law=""), timeout=850, workers=c.pick(4, 8))

    def scripts():
        g["g"] = c.graph("SWMC", mc(threads="{1}", caps=upd("{0,2}") if U else "{1,2,3}", upd="UG" if U and not c.thorough else "UGL" if U else "UNone", ws=upd("{1,2}") if U else "{2}", ticks="{1,2,3,4,9}", eager="TRUE", hist="FALSE", maxnow=10**6,
                                    view="View", law="", extra="ACTION_CONSTRAINT PrintEdge"), timeout=850)
        g["s"] = c.simulate("SWMC", mc(threads="{1,2,3}", caps="{0,1,2,3,5}" if U else "{1,2,3,4,5,8}", upd="UX" if U else "UNone", ws="{1,2,3,7}", units=U4, ticks="{1,2,3,4,5,6,13,14,60}",
                                       eager="TRUE", hist="FALSE", maxnow=10**6,
                                       view="View", law="", extra="ACTION_CONSTRAINT PrintSim"), c.pick(250, 2000), c.pick(100, 150))

    parallel(spec, scripts, lambda: c.build(["ratelimiter"]))
    walks = g["g"].tour(c.rng, 100)
    c.cov["graph_walks"] = len(walks)
    sc = op_scripts(walks + g["s"])
    if U:
        # more acquisitions between the updates than a uniform choice of operations gives
        A0 = {"o": "acq"}
        for i in range(c.pick(300, 3000)):
            l = []
            for _ in range(c.rng.randint(4, 12)):
                r = c.rng.random()
                if r < .25:
                    l.append({"o": "upd", "c": c.rng.choice([-1, 0, 1, 2, 3, 4, 5, 7]), "w": c.rng.choice([1, 2, 3])})
                elif r < .5:
                    l.append(c.rng.choice([1, 2, 2, 3, 4, 6]))
                else:
                    l += [A0] * c.rng.randint(1, 5)
            sc.append({"par": {"cap": c.rng.choice([-2, 0, 1, 2, 3, 5]), "w": c.rng.choice([1, 2, 3]), "unit": "1ms"}, "acts": ops(*l) + ops({"o": "cap"}, {"o": "win"})})
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    conc = []
    A = {"o": "acq"}

    def up(n, w):
        return {"o": "upd", "c": n, "w": w}
    for cap in (1, 2, 3):
        for w, unit in ((1, "1ms"), (2, "1s"), (3, "50ns")):
            for pre in ([], [A], [A, 1], [A, 2 * w], [A, 2, A], [A] * cap + [2 * w + 1], [A] * cap):
                ths = [[[A], [A]], [[A, A], [A, A]], [[A], [A], [A]], [[A, A, A], [A]]]
                if U:
                    ths = [[[A], [up(cap + 1, w)]], [[A, A], [up(cap - 1, w), {"o": "cap"}]], [[A], [A], [up(0, w)]], [[up(cap + 2, w)], [up(1, w)], [A]],
                           [[A, {"o": "cap"}], [up(2, w + 1)]], [[up(0, w), up(2, w)], [A, A]], [[A, A], [up(2, w), {"o": "win"}, A]]]
                for th in ths:
                    for tk in ([], [1, 1], [2 * w], [2 * w + 1], [4 * w, 1]):
                        conc.append({"par": {"cap": cap, "w": w, "unit": unit}, "acts": ops(*pre, t=6), "threads": th, "ticks": tk,
                                     "post": ops(*([A] * (cap + 1) + [{"o": "cap"}, 2 * w] + [A] * (cap + 1) + [1, A, A, 2 * w, A]), t=7)})
    c.rng.shuffle(conc)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(90, 400)], "Bound": 2, "DFS": c.pick(30, 400), "Rand": c.pick(40, 300)}, timeout=800)
    traces += o[0]
    execs += o[1]
    judge(c, "sliding window", "SWTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
