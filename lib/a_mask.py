"""Printing configurations: C33 (no secrets), C39 (the settings that there are)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Kinds = {{{kinds}}}
  Objs = {objs}
  Forms = {{{forms}}}
  Secs <- {secs}
  Render = "{render}"
  MaxP = {maxp}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
KINDS = ["mysql", "oracle", "postgresql", "redis", "es", "pprof"]
FORMS = ["String", "v", "+v", "s", "ln", "log", "wrap", "slice", "map", "err", "val", "val+v", "valwrap", "valslice"]
# characters that occur in no label, number or public value, all two bytes long
AL = list("éßñøЖЩЯ¶§¿¡£¥©®±µ÷")
MIX = list("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789*%:/@?#&= \"'\\{}\n\t\0")


def q(l):
    return ", ".join('"%s"' % x for x in l)


def mc(kinds=("k",), objs="{1}", forms=("f",), secs="S6", render="stars", maxp=2, extra="CONSTRAINT Bound\nINVARIANTS Blind Function"):
    return MC.format(kinds=q(kinds), objs=objs, forms=q(forms), secs=secs, render=render, maxp=maxp, extra=extra)


SMC = """SPECIFICATION Spec
CONSTANTS
  SimLen = {simlen}
  Kinds = {{{kinds}}}
  Objs = {objs}
  Forms = {{{forms}}}
  Settings = {settings}
  Texts = {{{texts}}}
CHECK_DEADLOCK FALSE
{extra}
"""


def shown(pid):
    c = Ctx(pid, "mask")
    g = {}

    def spec():
        c.model_check("ShownMC", SMC.format(simlen=0, kinds=q(["k"]), objs="{1,2}", forms=q(["f"]), settings=c.pick("{1,2}", "{1,2,3}"), texts=q(["p", "q"]), extra="INVARIANTS Faithful"), timeout=850, workers=2)

    def scripts():
        g["s"] = c.simulate("ShownMC", SMC.format(simlen=40, kinds=q(KINDS + ["http", "trace"]), objs="{1,2,3}", forms=q(["String", "v", "+v", "s", "ln", "log", "map", "err", "val"]),
                                                  settings="{0,1,2,3,4,5,6,7,8,9}", texts=q(["p"]), extra="ACTION_CONSTRAINT PrintSim"), c.pick(200, 2000), 40)

    parallel(spec, scripts, lambda: c.build([]))
    sc = [{"acts": s["acts"]} for s in op_scripts(g["s"])]
    for kind in KINDS + ["http", "trace"]:
        for f in ("String", "v", "+v", "s", "ln", "log", "map", "err"):
            for _ in range(c.pick(3, 40)):
                a = [{"o": "make", "i": 1, "kind": kind}]
                for _ in range(6):
                    a += [{"o": "print", "i": 1, "f": f}] + [{"o": "set", "i": 1, "n": c.rng.randrange(60)} for _ in range(c.rng.choice([1, 1, 3]))]
                sc.append({"acts": a})
    o = c.harness("TestShown", {"Scripts": sc, "Seed": c.seed})
    judge(c, "printed settings", "ShownTrace", o["traces"], TRACE)
    c.cov["executions"] = len(sc)
    return c.finish()


def main(pid):
    if pid == "C39":
        return shown(pid)
    c = Ctx(pid, "mask")
    g = {}

    def spec():
        for r in ("stars", "long"):
            c.model_check("MaskMC", mc(render=r, maxp=c.pick(2, 3)), timeout=850, workers=4)

    def scripts():
        g["s"] = c.simulate("MaskMC", mc(KINDS, "{1,2}", FORMS, "S6", maxp=10**6, extra="ACTION_CONSTRAINT PrintSim"), c.pick(60, 400), c.pick(60, 120))

    parallel(spec, scripts, lambda: c.build([]))
    r = c.rng

    def sec(n):
        """One text of n characters; long ones of any characters, short ones of characters that occur nowhere else."""
        return [r.choice(MIX if n >= 6 and i % 2 == 0 else AL) for i in range(n)]

    def twin(u, n):
        """One text of n characters that has to do with u or with a public value."""
        t = r.choice(["same", "tail", "head", "mid", "host", "stars", "rep", "chars"])
        k = len(u)
        if t == "same" and k == n:
            return u
        if t == "tail" and k < n:
            return sec(n - k) + u
        if t == "head" and k < n:
            return u + sec(n - k)
        if t == "mid" and k < n:
            j = r.randrange(n - k + 1)
            return sec(j) + u + sec(n - k - j)
        if t == "host":
            w = list(r.choice(["localhost", "db.example", "a=b,c=d", "%s", "x:1,y:2", "db1", "Password", "Username", "Host: "]))
            return (w + sec(n))[:n] if r.random() < .5 else (sec(n) + w)[-n:] if n else []
        if t == "stars":
            return list("*" * n) if r.random() < .5 else [r.choice("*%v{}") for _ in range(n)]
        if t == "rep" and k:
            return (u * n)[:n]
        if t == "chars":
            return [r.choice("aeo :,{}0") for _ in range(n)]
        return sec(n)

    def field(u, n):
        """A text of n characters in which u stands as if it were printed."""
        w = list(r.choice(["Password", "Username", "password", "Pass", "User"]) + r.choice([": ", ":", "=", ": \""])) + u + list(r.choice([",", ", ", "}", "\"", ""]))
        return (sec(n) + w)[-n:] if len(w) < n else sec(n)

    sc = []
    for w in g["s"]:
        # the texts of the specification stand for longer ones: each letter for one text, of the same length for both
        n = r.choice([1, 2, 3, 7, 12, 30])
        m = {"x": sec(n), "y": sec(n)}
        if r.random() < .4:
            m["y"] = twin(m["x"], n)
        l = []
        for a in w["acts"]:
            a = dict(a)
            for f in ("u", "p"):
                if f in a:
                    a[f] = [ch for x in a[f] for ch in m[x]]
            l.append(a)
        sc.append({"L": l})
    # every kind, every form, several secrets of the same lengths
    for i in range(c.pick(30, 600)):
        for kind in KINDS:
            l = [{"k": "make", "i": 1, "kind": kind, "v": str(r.randrange(1000)), "u": [], "p": []}]
            for _ in range(4):
                nu, np = r.choice([0, 1, 2, 3, 6, 10, 40]), r.choice([0, 1, 2, 3, 6, 10, 40, 200])
                lab = r.random() < .3
                if lab:
                    np = r.choice([1, 2, 5, 9])
                    nu = np + r.choice([11, 13, 20])
                    if r.random() < .3:
                        nu, np = np, nu
                fs = r.sample(FORMS, 4) if i % 4 else FORMS
                for _ in range(3):
                    u, p = sec(nu), sec(np)
                    t = r.random()
                    if lab and t < .7:
                        if nu > np:
                            u = field(p, nu)
                        else:
                            p = field(u, np)
                        t = 1
                    if nu == np and t < .2:
                        p = u
                    elif t < .45:
                        p = twin(u, np)
                    elif t < .6:
                        u = twin(p, nu)
                    l += [{"k": "user", "i": 1, "u": u}, {"k": "pass", "i": 1, "p": p}] + [{"k": "print", "i": 1, "f": f} for f in fs]
                if r.random() < .7:
                    l.append({"k": "pub", "i": 1, "v": str(r.randrange(1000))})
            sc.append({"L": l})
    o = c.harness("TestMask", {"Scripts": sc})
    judge(c, "printed configuration", "MaskTrace", o["traces"], TRACE)
    c.cov["executions"] = o["execs"]
    c.cov["printed"] = sum(1 for s in sc for a in s["L"] if a["k"] == "print")
    return c.finish()
