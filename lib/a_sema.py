"""Semaphores: C04 (capacity), C05 (progress)."""
from vlib import *

MC = """SPECIFICATION {spec}
CONSTANTS
  Threads = {threads}
  Caps = {caps}
  Kinds = {{"lock","chan"}}
  Eager = {eager}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = """SPECIFICATION Spec
CONSTANTS
  Safe = {safe}
  Live = {live}
CONSTRAINT Acc
CHECK_DEADLOCK FALSE
"""


def mc(threads="{1,2}", caps="{1,2}", eager="FALSE", spec="Spec", extra="INVARIANTS AtMostCap NoLostWakeup"):
    return MC.format(threads=threads, caps=caps, eager=eager, spec=spec, extra=extra)


def main(pid):
    c = Ctx(pid, "sema")
    g = {}

    def spec():
        c.model_check("SemaMC", mc(threads=c.pick("{1,2,3,4}", "{1,2,3,4,5,6}"), caps="{1,2,3}"), timeout=850)
        c.model_check("SemaMC", mc(threads="{1,2}", caps="{1}", spec="FairSpec", extra="PROPERTIES Progress AcqProgress"),
                      timeout=850)

    def scripts():
        g["g"] = c.graph("SemaMC", mc(threads=c.pick("{1,2,3}", "{1,2,3,4}"), caps="{1,2}", eager="TRUE",
                                      extra="ACTION_CONSTRAINT PrintEdge"), timeout=850)
        g["s"] = c.simulate("SemaMC", mc(threads="{1,2,3,4,5}", caps="{1,2,3,4}", eager="TRUE",
                                         extra="ACTION_CONSTRAINT PrintSim"), c.pick(100, 1500), c.pick(60, 100))

    parallel(spec, scripts, lambda: c.build(["concurrent"]))
    sc = op_scripts(g["g"].tour(c.rng, 60) + g["s"])
    # zero capacity is claimed for the lock-based semaphore only
    Z = [{"k": "op", "t": t, "op": {"o": o}} for t, o in
         [(1, "try"), (2, "rel"), (1, "try"), (3, "acq"), (4, "acq"), (5, "try"), (2, "rel"), (2, "rel"), (5, "try"), (1, "rel")]]
    sc.append({"par": {"kind": "lock", "cap": 0}, "acts": Z})
    o = c.harness("TestSteps", {"Scripts": sc})
    traces, execs = o["traces"], o["execs"]
    A, T, R = {"o": "acq"}, {"o": "try"}, {"o": "rel"}
    conc = []
    thr = [[[A, R], [A, R]], [[A, R], [T, R]], [[T], [T]], [[T], [T], [R]], [[A], [A], [R]], [[A], [A], [R], [R]],
           [[R], [R]], [[R, T, T]], [[R], [R], [T]], [[A, R], [A, R], [A, R]], [[A], [R, R]], [[A], [T], [R]],
           [[A], [A], [R, R]], [[R, R], [A, A]], [[A, R, A, R], [T, R, T, R]], [[A], [A], [A], [R, R, R]]]
    for kind in ("lock", "chan"):
        for cap in (1, 2):
            for pre in range(cap + 1):
                for th in thr:
                    for post in (ops(T, T, T, R, R, R, T, T, T, t=7), ops(R, T, R, R, T, T, t=7)):
                        conc.append({"par": {"kind": kind, "cap": cap}, "acts": ops(*[A] * pre, t=6), "threads": th, "post": post})
    for th in ([[T, T], [R, T]], [[A], [R]], [[R, R], [A], [T]]):
        conc.append({"par": {"kind": "lock", "cap": 0}, "acts": [], "threads": th, "post": ops(R, T, R, R, T, t=7)})
    c.rng.shuffle(conc)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(120, 200)], "Bound": 2, "DFS": c.pick(30, 1000), "Rand": c.pick(30, 400)},
                  timeout=800)
    traces += o[0]
    execs += o[1]
    cfg = TRACE.format(safe="TRUE" if pid == "C04" else "FALSE", live="TRUE" if pid == "C05" else "FALSE")
    judge(c, "semaphore", "SemaTrace", traces, cfg, key=lambda t: None)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()
