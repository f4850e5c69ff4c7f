"""Task manager: C20."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Pars <- {pars}
  Eager = {eager}
  MaxCalls = {maxcalls}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(threads="{1,2}", pars="Small", eager="FALSE", maxcalls=4, extra="INVARIANTS OnePerName Runs NoWedge"):
    return MC.format(threads=threads, pars=pars, eager=eager, maxcalls=maxcalls, extra=extra)


def main(pid):
    c = Ctx(pid, "tm")
    g = {}

    def spec():
        c.model_check("TMMC", mc(threads=c.pick("{1,2,3}", "{1,2,3,4}"), maxcalls=c.pick(4, 6)), timeout=850, workers=c.pick(4, 8), mem=c.pick("4g", "12g"))

    def scripts():
        g["s"] = c.simulate("TMMC", mc(threads="{1,2}", pars="Big", eager="TRUE", maxcalls=10**6, extra="ACTION_CONSTRAINT PrintSim"),
                            c.pick(200, 2000), c.pick(25, 40))

    parallel(spec, scripts, lambda: c.build(["schedule"]))
    sc = op_scripts(g["s"])
    for i, s in enumerate(sc):
        if i % 3:
            s["par"] = dict(s["par"], map=dict(zip("abcde", alike(c.rng, 5))))
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    names = ["a", "a", "b", "a", "b", "c", "a"]
    par = {"nm": names}

    def G(k):
        return {"o": "reg", "k": k}

    def U(n):
        return {"o": "un", "nm": n}
    A = {"o": "all"}
    conc = []
    thr = [[[G(1)], [G(2)]], [[G(1)], [G(2)], [G(4)]], [[G(1)], [U("a")]], [[G(1), U("a")], [G(2), U("a")]], [[G(1)], [A]], [[G(1), G(3)], [A], [G(2)]],
           [[A], [A]], [[A], [U("a")]], [[U("a")], [U("a")]], [[G(1), U("a"), G(2)], [U("a"), G(4)]], [[G(1), G(3)], [A, G(4)], [U("b")]],
           [[A, G(1)], [G(2), G(3)]], [[U("a"), G(1)], [G(2)]], [[A, G(1)], [A, G(2)], [G(4)]], [[U("b"), G(3)], [G(1), U("b")]]]
    post = ops(G(7), U("b"), A, t=7)
    for th in thr:
        us = {o["k"] for t in th for o in t if o["o"] == "reg"}
        for pre in ([], [5], [6], [5, 6], [7], [7, 5, 6]):
            p = [G(k) for k in pre]
            q = ops(*[G(k) for k in range(1, 8) if k not in us and k not in pre], t=7)
            c.rng.shuffle(q)
            conc.append({"par": par, "acts": ops(*p), "threads": th, "post": c.rng.choice([q + ops(U("a"), U("b"), A, t=7), ops(U("a"), A, t=7) + q, ops(A, t=7) + q + ops(A)])})
    o = c.harness_par("TestConc", {"Scripts": conc, "Bound": 2, "DFS": c.pick(30, 400), "Rand": c.pick(30, 300)}, timeout=800)
    traces += o[0]
    execs += o[1]
    judge(c, "task manager", "TMTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
