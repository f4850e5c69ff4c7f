"""What tracers report, and where: C38."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  SimLen = {simlen}
  Pars <- {pars}
  Ops = {{{ops}}}
  MaxSeg = {seg}
  MaxOps = {nops}
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(simlen=0, pars="Small", ops='"p"', seg=2, nops=2, extra="INVARIANTS Home Once Ended Silent Complete\nPROPERTIES Arrives"):
    return MC.format(**locals())


PARTS = ["", "a", "b", "svc", "a::b", "::", "b::c", "Orders", "orders", "x y", " a", "a ", "a:b", "{a}", "n-1_2.3", "a/b?c=d&e", "%s", "w" * 300]


def main(pid):
    c = Ctx(pid, "report")
    r = c.rng
    w = []

    def spec():
        c.model_check("ReportMC", mc(seg=c.pick(2, 3)), timeout=850, workers=4)

    def walks():
        w.extend(c.simulate("ReportMC", mc(c.pick(22, 34), "Wide", '"p","q","s"', 10**6, 3, "ACTION_CONSTRAINT PrintSim"), c.pick(240, 1500), c.pick(80, 120), seed=c.seed))

    parallel(spec, walks, lambda: c.build([]))
    for s in w:
        s["addr"] = r.choice(["127.0.0.1", "localhost"])
        m = {}
        if r.random() < .7:                                   # other names, told apart as before
            p = r.sample(PARTS, 12)
            for x in s["par"]:
                for k in ("ns", "svc", "inst"):
                    if x[k] or k != "inst":
                        x[k] = m.setdefault((k, x[k]), p.pop())
                if r.random() < .2:
                    x["svc"] = x["ns"] + "::" + x["svc"]
    traces, execs = c.harness_par("TestReport", {"Scripts": w}, shards=4)
    judge(c, "reporting", "ReportTrace", traces, TRACE)
    c.cov["executions"] = execs
    return c.finish()
