"""Limits of the HTTP client: C35."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  SimLen = {simlen}
  Callers = {{{callers}}}
  Hosts = {{{hosts}}}
  MaxConns = {maxc}
  Pars <- {pars}
  Caps = {{{caps}}}
  Waits = {{{waits}}}
  Read = {t[0]}
  Write = {t[1]}
  Dur = {t[2]}
  Idle = {t[3]}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
INV = "CONSTRAINT Bound\nINVARIANTS Limit Busy NoWaste Punctual Tidy\nPROPERTIES Young"


def mc(simlen=0, callers='"a","b","c"', hosts="1", maxc=2, pars="Small", caps="1, 2", waits="0, 2", t=(2, 3, 2, 1), extra=INV):
    return MC.format(**locals())


def main(pid):
    c = Ctx(pid, "http")
    r = c.rng
    w = []

    def spec():
        c.model_check("HttpMC", mc(maxc=c.pick(2, 3)), timeout=850, workers=4)

    def walks():
        for k in range(c.pick(2, 8)):
            # five different times
            t = r.sample([223, 311, 400, 57, 1530, 90, 777, 6100, 1001], 5)
            w.extend(c.simulate("HttpMC", mc(c.pick(26, 40), '"a","b","c","d","e"', "1, 2", 10**6, "All", "0, 1, 2, 3", "0, %d, 100000" % t[4], t[:4], "ACTION_CONSTRAINT PrintSim"),
                                c.pick(150, 800), c.pick(26, 40), seed=c.seed * 100 + k))

    parallel(spec, walks, lambda: c.build([]))
    sc = [{"par": x["par"], "acts": x["acts"], "unit": r.choice([10, 1000, 10000, 10**6]) if x["par"]["conf"]["idle"] and x["par"]["cust"]["f"] != "set" else 10000,
           "name": r.random() < .3} for x in w]
    r.shuffle(sc)
    traces, execs = c.harness_par("TestHttp", {"Scripts": sc})
    judge(c, "HTTP client", "HttpTrace", traces, TRACE)
    c.cov["executions"] = execs
    return c.finish()
