"""Configuration store: C21 (validated values), C22 (atomic registration), C23 (persistence)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  KS = {{"", "k1", "k2", "k3", "k4"}}
  Threads = {threads}
  Pars <- {pars}
  Ops <- {ops}
  OKeys = {okeys}
  OVals = {ovals}
  Eager = {eager}
  MaxCalls = {maxcalls}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = 'SPECIFICATION Spec\nCONSTANT KS = {"", "k1", "k2", "k3", "k4"}\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n'
VALS = '{"","a1","a2","b1","b2","ab","zz"}'
KEYS = '{"","k1","k2","k3","k4"}'


def mc(threads="{1}", pars="P1", opset="O22", okeys='{"k1"}', ovals='{"a1","ab","b1"}', eager="FALSE", maxcalls=4, extra="INVARIANTS Validated NoWedge"):
    return MC.format(threads=threads, pars=pars, ops=opset, okeys=okeys, ovals=ovals, eager=eager, maxcalls=maxcalls, extra=extra)


def main(pid):
    c = Ctx(pid, "store")
    g = {}
    n = pid[1:]

    def spec():
        if n == "23":
            c.model_check("StoreMC", mc(pars="P2", opset="O23S", okeys='{"k1"}', maxcalls=c.pick(6, 8), extra="INVARIANTS Validated NoWedge Same None2"),
                          timeout=850, workers=c.pick(4, 8), mem=c.pick("4g", "12g"))
        else:
            c.model_check("StoreMC", mc(threads="{1,2}", opset="O22S", maxcalls=c.pick(4, 5)), timeout=850, workers=c.pick(4, 8), mem=c.pick("4g", "12g"))

    def scripts():
        g["s"] = c.simulate("StoreMC", mc(pars="P23" if n == "23" else "PX", opset="O" + n, okeys=KEYS if n == "22" else '{"","k1","k2"}', ovals=VALS, eager="TRUE",
                                          maxcalls=10**6, extra="ACTION_CONSTRAINT PrintSim"), c.pick(400, 3000), c.pick(40, 60))

    parallel(spec, scripts, lambda: c.build(["confstore"]))
    sc = op_scripts(g["s"])
    for s in sc:
        # half of the histories start with registered keys
        if c.rng.random() < .6:
            s["acts"] = ops(G("k1", "a1", "A"), G("k2", "", "B")) + s["acts"]
        if n == "23":
            s["acts"] = interleave(s["acts"]) + crowded(c.rng) + ops({"o": "fault", "on": False}, D, {"o": "restart"}, *[{"o": "bgets", "ks": ["k1", "k2", "k3", "k4"]}] * 2, {"o": "load"},
                                                    {"o": "bget", "ks": ["k1", "k2", "k3", "k4"]}, D)
        else:
            s["acts"] += ops({"o": "bgets", "ks": ["k1", "k2", "k3", "k4"]}, {"o": "bget", "ks": ["k1", "k2", "k3", "k4"]})
    for i, s in enumerate(sc):
        if i % 3:
            # keys and values of any characters, hard to tell apart
            s["par"] = dict(s["par"], map=dict(zip(["k1", "k2", "k3", "k4", "a1", "a2", "b1", "b2", "ab", "zz"], alike(c.rng, 10))))
    for i, s in enumerate(sc):
        # processors that convert to anything, different values to the same
        if i % 2:
            s["par"] = dict(s["par"], conv=c.rng.sample(range(14), 7))
        if i % 4 > 1:
            s["par"] = dict(s["par"], same=True)
    traces, execs = c.harness_par("TestSteps", {"Scripts": sc}, shards=4)
    conc = CONC[n](c)
    if conc:
        o = c.harness_par("TestConc", {"Scripts": conc, "Bound": 2, "DFS": c.pick(20, 200), "Rand": c.pick(25, 200)}, timeout=800)
        traces += o[0]
        execs += o[1]
    judge(c, "configuration store", "StoreTrace", traces, TRACE, key=lambda t: "load-race" if t["par"].get("kf") else None)
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()


def crowded(r):
    """Much is persisted, some of it for keys that are not registered (any more) or not for their processors."""
    if r.random() < .4:
        return []
    ks = ["k1", "k2", "k3", "k4"]
    r.shuffle(ks)
    l = [{"o": "fault", "on": False}]
    for k in ks:
        l.append(R(k, "dereg"))
        p = r.choice("AB")
        if k != ks[0] or r.random() < .5:
            l += [G(k, r.choice(["a1", "ab"]) if p == "A" else "b1", p), U(k, r.choice(["a1", "a2", "ab"]) if p == "A" else r.choice(["b1", "b2", "ab"]))]
    for k in ks[:r.choice([1, 1, 2])]:
        l.append({"o": "ext", "k": k, "v": r.choice(["zz", "zz", "a2", "b2"])})
    l += [D, {"o": "restart"}, {"o": "load"}, {"o": "bget", "ks": ks}, {"o": "restart"}, R(ks[3]), R(ks[2]), R(ks[1])]
    return ops(*l)


def interleave(acts):
    """Look at the persistence layer now and then."""
    out = []
    for i, a in enumerate(acts):
        out.append(a)
        if i % 5 == 4:
            out += ops(D)
    return out


D = {"o": "dump"}


def G(k, v, p):
    return {"o": "reg", "k": k, "v": v, "p": p}


def U(k, v, o="upd"):
    return {"o": o, "k": k, "v": v}


def R(k, o="get"):
    return {"o": o, "k": k}


def B(*kv):
    return {"o": "batch", "kv": [list(e) for e in kv]}


def BG(*ks, o="bget"):
    return {"o": o, "ks": list(ks)}


END = [R("k1"), R("k1", "gets"), R("k2"), R("k2", "gets"), R("k3"), R("k3", "gets")]
PAR = {"pol": "none", "per": "mem"}


def conc21(c):
    out = []
    pre = [G("k1", "a1", "A"), G("k2", "", "B")]
    for th in ([[U("k1", "a2"), U("k1", "ab")], [R("k1"), R("k1", "gets"), R("k1")]], [[U("k1", "a2")], [U("k1", "ab")], [R("k1"), R("k1", "gets")]],
               [[U("k1", "zz"), U("k1", "a2")], [R("k1"), R("k1", "gets"), R("k1", "mgets")]], [[B(("k1", "a2"), ("k2", "b1"), ("k1", "b1"))], [BG("k1", "k2", "k1"), BG("k2", "k1", o="bgets")]],
               [[U("k1", "a2"), R("k1")], [R("k1"), R("k1", "reset"), R("k1", "gets")]], [[B(("k1", "a2"), ("k3", "a1"))], [B(("k1", "ab"), ("k2", "b2"))], [BG("k1", "k2")]],
               [[G("k3", "a1", "A"), U("k3", "a2")], [R("k3"), R("k3", "gets")]], [[G("k3", "a1", "A")], [R("k3", "gets"), R("k3")], [U("k3", "a2")]],
               [[U("k1", "a2"), U("k1", "a1")], [U("k1", "ab", "updnp"), R("k1")], [R("k1"), R("k1", "gets")]], [[U("k1", "ab"), U("k2", "ab")], [BG("k1", "k2"), BG("k2", "k1", o="bgets")]]):
        for p in (pre, pre + [U("k1", "ab"), U("k2", "b1")]):
            out.append({"par": PAR, "acts": ops(*p), "threads": th, "post": ops(*END)})
    l = [s for s in conc22(c) if not s["par"].get("kf")]
    c.rng.shuffle(l)
    return out + l[:15]


def conc22(c):
    out = []
    pre = [G("k1", "a1", "A")]
    DE, RE = R("k1", "dereg"), R("k1", "reset")
    for th in ([[U("k1", "a2")], [DE]], [[U("k1", "ab")], [DE, G("k1", "b1", "B"), R("k1")]], [[U("k1", "a2")], [DE, G("k1", "b1", "B"), R("k1")], [R("k1", "gets"), R("k1")]],
               [[G("k2", "a1", "A")], [G("k2", "b1", "B")], [R("k2")]], [[G("k2", "a1", "A"), U("k2", "ab")], [G("k2", "b1", "B"), U("k2", "b2")]],
               [[DE], [DE], [G("k1", "b2", "B")]], [[DE, G("k1", "", "B")], [R("k1"), R("k1", "gets"), R("k1")]], [[RE, R("k1")], [U("k1", "a2"), R("k1")]],
               [[RE], [U("k1", "a2")], [R("k1"), R("k1", "gets")]], [[RE], [DE, G("k1", "b1", "B")], [U("k1", "ab")]], [[U("k1", "a2"), DE], [U("k1", "ab"), G("k1", "ab", "B")]],
               [[B(("k1", "a2"), ("k2", "b1"), ("k1", "ab"))], [DE, G("k1", "b1", "B")], [G("k2", "b2", "B")]], [[DE, G("k1", "a2", "A")], [G("k1", "b1", "B"), R("k1")], [R("k1", "mget"), R("k1", "mgets")]],
               [[U("k1", "zz"), U("k1", "b1")], [DE, G("k1", "b2", "B"), R("k1")]], [[R("k1"), R("k1", "gets")], [DE, G("k1", "a2", "A"), U("k1", "ab")]],
               [[U("k1", "a2"), U("k1", "ab")], [DE, G("k1", "a2", "A")], [RE, R("k1")]], [[DE], [U("k1", "a2"), R("k1")], [R("k1", "gets"), R("k1")]]):
        for p in (pre, pre + [U("k1", "ab"), G("k3", "b1", "B")]):
            for q in ([], [G("k1", "b2", "B"), G("k2", "b2", "B")]):
                out.append({"par": PAR, "acts": ops(*p), "threads": th, "post": ops(*(END + q + END))})
    # loading overlapping a reset: known finding
    if "load-race" in c.known:
        out.append({"par": dict(PAR, pol="simple", kf=True), "acts": ops(G("k1", "a1", "A"), {"o": "ext", "k": "k1", "v": "a2"}), "threads": [[R("k1")], [RE]], "post": ops(R("k1"))})
    return out


def conc23(c):
    return []


CONC = {"21": conc21, "22": conc22, "23": conc23}
