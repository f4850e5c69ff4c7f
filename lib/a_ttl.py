"""TTL limiter over an in-process Redis: C11 (decision law), C12 (key isolation, asking, failing open, cluster tags)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Pars <- {pars}
  Ops <- {ops}
  Ticks = {ticks}
  Eager = {eager}
  MaxReq = {maxreq}
  MaxNow = {maxnow}
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(threads="{1}", pars="P11", opset="O11", ticks="{2,4,8}", eager="TRUE", maxreq=5, maxnow=10**6, extra=""):
    return MC.format(threads=threads, pars=pars, ops=opset, ticks=ticks, eager=eager, maxreq=maxreq, maxnow=maxnow, extra=extra)


def R(k, m=1, l=1, v=0):
    return {"o": "req", "l": l, "k": k, "m": m, "v": v}


def I(b, l=1, v=0):
    return {"o": "isb", "l": l, "b": b, "v": v}


def main(pid):
    c = Ctx(pid, "ttl")
    g = {}
    n = pid[1:]
    inv = "VIEW View\nCONSTRAINT Bound\nINVARIANTS Law11 FailsOpen\n"

    def spec():
        c.model_check("TtlMC", mc(threads="{1,2}" if n == "11" and c.thorough else "{1}", pars="P" + n, opset="O" + n, maxreq=c.pick(5, 7) if n == "11" else c.pick(3, 4), eager="FALSE" if n == "11" and c.thorough else "TRUE",
                              ticks="{4,8}" if n == "11" else "{8}", maxnow=c.pick(32, 40) if n == "11" else c.pick(16, 24), extra=inv), timeout=850, workers=c.pick(4, 8))

    def scripts():
        g["s"] = c.simulate("TtlMC", mc(pars="X" + n, opset="O11" if n == "11" else "OX", ticks="{2,4,6,8,10,16,24,64,104}", maxreq=10**6, extra="ACTION_CONSTRAINT PrintSim"),
                            c.pick(400, 3000), c.pick(60, 100))

    parallel(spec, scripts, lambda: c.build(["ratelimiter"]))
    sc = op_scripts(g["s"]) + guided(c, n)
    for i, s in enumerate(sc):
        if i % 4:
            s["par"] = dict(s["par"], names=alike(c.rng, 5), msgs=alike(c.rng, 5), tags=alike(c.rng, 3))
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    conc = []
    for cap in (1, 2, 3):
        for win, exp in ((1, 1), (2, 5), (9, 2)):
            for tag in (0, 1):
                for pre in ([], [R(1)], [R(1), 8], [R(1)] * cap, [R(1)] * (cap + 1), [R(1)] * (cap + 1) + [8 * exp + 2], [R(1)] * cap + [8 * win + 8]):
                    for th in ([[R(1, 2)], [R(1, 3)]], [[R(1, 2), R(1, 3)], [R(1, 4), R(1, 5)]], [[R(1, 2)], [R(1, 3)], [R(1, 4)]], [[R(1, 2)], [R(2, 3)], [I(1)]],
                               [[R(1, 2), R(2, 3)], [R(2, 4), R(1, 5)]]):
                        conc.append({"par": {"lims": [{"cap": cap, "win": win, "exp": exp, "tag": tag}], "bk": c.rng.choice([[1, 1], [1, 2]]), "fixed": True}, "acts": ops(*pre, t=6),
                                     "threads": th, "post": ops(R(1), I(1), 8, R(1), 8 * exp, R(1), R(1), t=7)})
    c.rng.shuffle(conc)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(40, 300)], "Bound": 1, "DFS": c.pick(20, 200), "Rand": c.pick(16, 100)}, timeout=800)
    traces += o[0]
    execs += o[1]
    judge(c, "TTL limiter", "TtlTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()


def guided(c, n):
    """Requests at the edges of the window and of the block."""
    out = []
    rng = c.rng
    for _ in range(c.pick(300, 3000)):
        cap, win, exp = rng.choice([1, 1, 2, 3, 4, 6]), rng.choice([1, 2, 3, 8, 20]), rng.choice([1, 2, 3, 7])
        two = n == "12"
        dyn = rng.random() < .4
        l = []
        for _ in range(rng.randint(5, 25)):
            r = rng.random()
            li = rng.choice([1, 2]) if two else 1
            k = rng.choice([1, 1, 1, 2])
            if r < .55:
                l += [R(k, rng.randint(1, 5), li, rng.randint(0, 3)) for _ in range(rng.choice([1, 1, 2, cap, cap + 1]))]
            elif r < .62 and dyn:
                l.append({"o": "set", "l": 1, "cap": rng.choice([cap, max(cap - 1, 1), cap + 1]), "exp": rng.choice([exp, exp, exp + 1])})
            elif r < .7 and two:
                l.append(I(rng.choice([1, 2]), li, rng.randint(0, 1)))
            elif r < .78 and two:
                l += [{"o": "fault", "f": rng.choice(["err", "drop", "lost"])}, rng.choice([R(k, 3, li), I(k, li)])]
            else:
                l.append(rng.choice([2, 4, 8, 8 * win, 8 * win + 8, 8 * win - 2, 8 * exp - 2, 8 * exp + 2, 8 * exp, 8 * exp - 6, 16 * exp + 2, 16 * exp + 8]))
        lims = [{"cap": cap, "win": win, "exp": exp, "tag": rng.choice([0, 1])}]
        if two:
            lims.append({"cap": rng.choice([1, 2]), "win": 2, "exp": 2, "tag": rng.choice([2, 3])})
        out.append({"par": {"lims": lims, "bk": rng.choice([[1, 2], [1, 1], [2, 2]]), "fixed": not dyn and rng.random() < .5}, "acts": ops(*l)})
    return out
