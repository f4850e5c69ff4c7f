"""Event bus: C13 (blocking receivers), C14 (dropping receivers), C15 (closing, draining, collecting)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Pars <- {pars}
  Ops <- {ops}
  Ticks = {ticks}
  Eager = {eager}
  MaxCalls = {maxcalls}
  MaxSend = {maxsend}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Contiguous UpToDate Buffers NeverWaits {inv}
{extra}
"""
TRACE = "SPECIFICATION Spec\nVIEW View\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(threads="{1,2}", pars="ParsS13", opset="O13", ticks="{}", eager="FALSE", maxcalls=6, maxsend=3, inv="NoWedge", extra=""):
    return MC.format(threads=threads, pars=pars, ops=opset, ticks=ticks, eager=eager, maxcalls=maxcalls, maxsend=maxsend, inv=inv, extra=extra)


def main(pid):
    c = Ctx(pid, "bus")
    g = {}
    n = pid[1:]

    def spec():
        c.model_check("BusMC", mc(pars="ParsS15" if n == "15" else "ParsS13", opset="O" + n, maxcalls=c.pick(6, 8), ticks="{2}" if n == "15" else "{}"),
                      timeout=850, workers=c.pick(4, 8))

    def scripts():
        g["s"] = c.simulate("BusMC", mc(threads="{1,2,3,4,5}", pars="ParsX" + n, opset="O" + n, eager="TRUE", maxcalls=10**6, maxsend=12,
                                        ticks="{1,2,4}" if n == "15" else "{7,100000}", inv="",
                                        extra="ACTION_CONSTRAINT PrintSim"), c.pick(400, 3000), c.pick(40, 60))

    parallel(spec, scripts, lambda: c.build(["event"]))
    sc = op_scripts(g["s"]) + filled(n) + (collecting(c) if n == "15" else [])
    for i, s in enumerate(sc):
        if i % 3:
            s["par"] = dict(s["par"], map=dict(zip("abcdef", alike(c.rng, 5) + [""])))
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    conc = CONC[n](c)
    c.rng.shuffle(conc)
    o = c.harness_par("TestConc", {"Scripts": conc[:c.pick(60, 300)], "Bound": 2, "DFS": c.pick(25, 300), "Rand": c.pick(30, 200)}, timeout=800)
    traces += o[0]
    execs += o[1]
    judge(c, "event bus", "BusTrace", traces, TRACE)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()


def S(v):
    return {"o": "send", "v": v}


def G(r):
    return {"o": "reg", "r": r}


def V(r):
    return {"o": "recv", "r": r}


def D(r):
    return {"o": "drain", "r": r}


def X(r):
    return {"o": "close", "r": r}


GO, BX = {"o": "go"}, {"o": "bclose"}


def rv(cap, st, nm):
    return {"cap": cap, "st": st, "nm": nm}


def filled(n):
    """Receivers of many sizes filled to every level, then closed in every way and read."""
    out = []
    for cap in (1, 2, 4, 9, 10, 11, 12, 25):
        for st in ("block", "drop") if n == "15" else ("block",) if n == "13" else ("drop",):
            for k in sorted({0, 1, cap // 2, cap - 1, cap, cap + 1, cap + 3}):
                for how in ([], [X(1)], [BX], [X(1), BX]) if n == "15" else ([],):
                    for rd in ("drain", "collect", "recv") if n == "15" else ("drain", "recv"):
                        if st == "block" and k > cap and how and how[0] is BX:
                            continue
                        acts = [G(1), G(2), GO] + [S(i + 1) for i in range(k)] + how
                        acts = [dict(k="op", t=1 + i % 9, op=o) for i, o in enumerate(acts)]
                        for r in (1, 2):
                            if rd == "collect":
                                acts += ops({"o": "collect", "r": r, "d": 4}, t=8) + [{"k": "tick", "d": 4}]
                            elif rd == "drain":
                                acts += ops(D(r), D(r), t=8)
                            else:
                                acts += ops(*[V(r) for _ in range(min(k, cap) if not how else k + 1)], t=8)
                        out.append({"par": {"buf": 3, "rv": [rv(cap, st, "a"), rv(25, "drop", "b")]}, "acts": acts})
    return out


def collecting(c):
    """Bursts of events at different times while a collection is under way."""
    out = []
    for cap in (0, 1, 2, 5):
        for st in ("block", "drop"):
            for d in (2, 4, 10):
                for _ in range(c.pick(3, 20)):
                    l = ops(*[S(i + 1) for i in range(c.rng.randint(0, 4))], t=1) if c.rng.random() < .7 else []
                    l = [G(1), G(2)] + l + [{"o": "collect", "r": 1, "d": d}]
                    l = [dict(k="op", t=1 + i, op=o["op"] if "k" in o else o) for i, o in enumerate(l)]
                    v, go, left = 5, False, 3 * d
                    while left > 0:
                        k = c.rng.choice([1, 2, 2, 4])
                        l.append({"k": "tick", "d": k})
                        left -= k
                        if not go:
                            l += ops(GO, t=9)
                            go = True
                        for _ in range(c.rng.randint(0, 4)):
                            l += ops(S(v), t=9)
                            v += 1
                    l += ops(D(1), D(2), D(1), BX, D(1), t=9)
                    out.append({"par": {"buf": 6, "rv": [rv(cap, st, "a"), rv(25, "drop", "b")]}, "acts": l})
    return out


def conc13(c):
    out = []
    for buf in (0, 1, 2):
        for c1 in (0, 1, 2):
            for c2, s2 in ((0, "block"), (1, "block"), (1, "drop")):
                par = {"buf": buf, "rv": [rv(c1, "block", "a"), rv(c2, s2, "b"), rv(1, "block", "c")]}
                pre = [G(1), G(2), GO]
                if c.rng.random() < .3:
                    pre = [GO, G(1), G(2)]
                post = ops(V(1), V(2), t=8) if s2 == "block" else []
                r2 = [V(2), V(2)] if s2 == "block" else []
                for th in ([[S(1), S(2)], [V(1), V(1)], r2], [[S(1)], [S(2)], [V(1), V(1)], r2], [[S(1), S(2)], [V(1)], [V(1)], r2],
                           [[S(1), S(2)], [G(3)], [V(1), V(1)], r2], [[S(1), S(2)], [V(1)], r2, [X(2)]], [[S(1), S(2)], [V(1), X(1)], r2],
                           [[S(1)], [S(2)], [S(3)], [V(1), V(1), V(1)], r2 + r2]):
                    out.append({"par": par, "acts": ops(*pre, t=7), "threads": [x for x in th if x],
                                "post": ops(S(9), t=6) + ops(D(1), t=8) + ops(D(2), t=8) + ops(D(1), t=8)})
    return out


def conc14(c):
    out = []
    for buf in (0, 2):
        for c1 in (0, 1, 2):
            for c2, s2 in ((0, "drop"), (1, "drop"), (1, "block"), (0, "block")):
                par = {"buf": buf, "rv": [rv(c1, "drop", "a"), rv(c2, s2, "b")]}
                pre = [G(1), G(2), GO]
                r2 = [V(2), V(2)] if s2 == "block" else [V(2)]
                for th in ([[S(1), S(2)], r2], [[S(1)], [S(2)], r2], [[S(1), S(2)], [V(1)], r2], [[S(1), S(2), S(3)], [D(1)], r2], [[S(1), S(2)], [D(1), D(1)], [V(2)]],
                           [[S(1), S(2)], [S(3)], r2 + [V(2)]]):
                    out.append({"par": par, "acts": ops(*pre, t=7), "threads": th, "post": ops(S(9), t=6) + ops(D(1), t=8) + ops(D(2), t=9) + ops(D(1), t=8)})
    return out


def conc15(c):
    out = []
    C4 = {"o": "collect", "r": 1, "d": 4}
    for buf in (0, 2):
        for c1, s1 in ((0, "block"), (1, "block"), (1, "drop"), (2, "drop"), (0, "drop")):
            for c2, s2, nm in ((1, "block", "b"), (1, "drop", "b"), (1, "drop", "a"), (0, "block", "a")):
                par = {"buf": buf, "rv": [rv(c1, s1, "a"), rv(c2, s2, nm)]}
                for pre in ([G(1), G(2), GO], [GO, G(1), G(2)], [G(1), GO]):
                    rg = [G(2)] if pre[-1] is GO and len(pre) == 2 else []
                    for th in ([[S(1), S(2)], [X(1)]], [[S(1), S(2)], [V(1), X(1)]], [[X(1)], [X(1)], [S(1)]], [[S(1)], [X(1), D(1)], [V(2)] if not rg else rg], [[X(1)], [BX]],
                               [[BX], [BX], [V(1)]], [[D(1), BX], [X(1)]], [rg + [X(1)], [S(1), S(2)]], [[C4], [S(1), S(2)]], [[C4], [S(1)], [X(1)]], [[C4], [BX]], [[X(1)], [D(1)], [S(1)]]):
                        sends = [o["v"] for t in th for o in t if o["o"] == "send"]
                        bx = any(o is BX for t in th for o in t)
                        if rg and not bx and not any(o["o"] == "reg" for t in th for o in t) and c.rng.random() < .5:
                            th = th + [rg]
                        reg2 = len(pre) == 3 or any(o["o"] == "reg" for t in th for o in t)
                        post = ([] if bx else ops(S(8), t=6) + ops(S(9), t=9)) + [4] * 0
                        post = post + [{"k": "tick", "d": 4}] + ops(D(1), t=8) + (ops(D(2), X(2), X(2), t=8) if reg2 else []) + ops(X(1), X(1), D(1), V(1), t=8)
                        if not bx:
                            post = post + ops(BX, t=8)
                        pr = ops(*pre, t=7)
                        if bx and buf == 2 and c.rng.random() < .5:
                            pr = pr + ops(S(5), t=5) + ops(S(6), t=4)
                            post = ops(D(1), t=9) + (ops(D(2), t=9) if reg2 else []) + post
                        out.append({"par": par, "acts": pr, "threads": th, "post": post})
    return out


CONC = {"13": conc13, "14": conc14, "15": conc15}
