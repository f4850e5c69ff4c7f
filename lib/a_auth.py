"""Guarded profiling endpoints: C28."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Pars <- {pars}
  MaxT = {maxt}
  Threads = {threads}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
PATHS = ["/debug/pprof/", "/debug/pprof/cmdline", "/debug/pprof/symbol", "/debug/pprof/goroutine?debug=1", "/debug/pprof/heap?debug=1", "/debug/pprof/threadcreate?debug=1"]
AL = list("abcXYZ019 :::%+/=\\\"'@#?&;,\t\n") + ["é", "日", "ß", "\x01", "\x7f", "Ａ"]


def mc(pars="One", maxt=3, threads="{1}", extra="INVARIANTS Closed Apart Carries NoneNone"):
    return MC.format(pars=pars, maxt=maxt, threads=threads, extra=extra)


def hdr(txt, sch="Basic", gap=" ", enc="std"):
    return {"sch": sch, "gap": gap, "enc": enc, "txt": txt}


def near(r, u, p):
    """A text near the configured credentials."""
    cr = u + [":"] + p
    k = r.randint(0, 20)
    s = list(cr)
    i = r.randrange(len(s))
    if k == 0:
        return cr[:i]
    if k == 1:
        return cr[i + 1:]
    if k == 2:
        return cr + [r.choice(AL)]
    if k == 3:
        return [r.choice(AL)] + cr
    if k == 4:
        s[i] = r.choice(AL)
        return s
    if k == 5:
        s[i] = s[i].swapcase()
        return s
    if k == 6:
        s.insert(i, r.choice([":", "\0", " ", s[i]]))
        return s
    if k == 7:
        s.pop(i)
        return s
    if k == 8:
        return p + [":"] + u
    if k == 9:
        return u + [r.choice(["::", ";", " ", "", "=", ": "])] + p
    if k == 10:
        return u + [":"]
    if k == 11:
        return [":"] + p
    if k == 12:
        j = r.randrange(len(s))
        s[i], s[j] = s[j], s[i]
        return s
    if k == 13:
        return cr + [":"] + cr
    if k in (15, 16, 17, 18):
        # a piece of the name or of the password, cut at any place or between two equal characters
        t = list(u if k < 17 else p)
        if t:
            i, j = sorted((r.randint(0, len(t)), r.randint(0, len(t))))
            seps = [x for x, ch in enumerate(t) if not str(ch).isalnum()]
            if seps and r.random() < .7:
                j = r.choice(seps)
                if r.random() < .5:
                    i, j = j + 1, len(t)
                else:
                    i = 0
            t = t[i:j]
        return t + [":"] + p if k < 17 else u + [":"] + t
    if k == 19:
        return [ch.upper() if r.random() < .5 else ch.lower() for ch in cr]
    if k == 20:
        return [ch for ch in u if ch.strip() and ch.isalnum()] + [":"] + p
    return [" "] + cr + [" "]


def chars(t):
    return [ch for x in t for ch in x]


def rnd(r):
    return [r.choice(AL) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40, 150]))] if r.random() < .8 else list(r.choice(["admin", "s3cret", "a:b", ":", "::", "a:", ":a", "pass word", "Basic ", "null", "true"]))


def requests(c, par, n):
    r, l = c.rng, []
    for _ in range(n):
        k = r.randrange(len(par)) + 1
        q = par[r.randrange(len(par))] if r.random() < .2 else par[k - 1]
        u, p = q["u"], q["p"]
        x = r.random()
        if x < .25:
            h = [hdr(u + [":"] + p)]
        elif x < .7:
            h = [hdr(chars(near(r, u, p)))]
        elif x < .9:
            h = [hdr(u + [":"] + p, r.choice(["Basic", "basic", "BASIC", "Bearer", "Digest", "", "Basi", "BasicX", "Basic Basic"]), r.choice([" ", " ", "", "  ", "\t", "=", ":"]), r.choice(["std", "std", "raw", "url", "double", "trail", "cut", "tail", "junk"]))]
        else:
            h = [hdr(chars(near(r, u, p))) for _ in range(r.randint(0, 2))] + [hdr(u + [":"] + p)] * r.randint(0, 1)
        l.append({"C": k, "H": h})
    return l


def main(pid):
    c = Ctx(pid, "auth")
    txt = {}

    def spec():
        c.model_check("AuthMC", mc("One", c.pick(3, 5)), timeout=850, workers=2)
        c.model_check("AuthMC", mc("Two", 0, c.pick("{1}", "{1,2}")), timeout=850, workers=4)

    def gen():
        for p in ("One", "Two"):
            out = c.model_check("AuthMC", mc(p, c.pick(3, 4) if p == "One" else 0, extra="ACTION_CONSTRAINT PrintReq"), timeout=850, workers=2)
            for ln in out.splitlines():
                if ln.startswith('"TXT '):
                    o = json.loads(json.loads(ln)[4:])
                    txt.setdefault(json.dumps(o["par"]), {})[json.dumps([o["c"], o["h"]])] = {"C": o["c"], "H": o["h"]}

    parallel(spec, gen, lambda: c.build([]))
    sc = []
    for p, l in txt.items():
        l = list(l.values())
        c.rng.shuffle(l)
        par = json.loads(p)
        lim = c.pick(150 if len(par) == 1 else 25, 10**6)
        good = [q for q in l if q["H"] == [hdr(par[q["C"] - 1]["u"] + [":"] + par[q["C"] - 1]["p"])]]
        l = good[:2] + l[:lim] + good[:1]
        for fw in (["gin"], ["fast"]) if len(par) == 1 else (["gin", "fast"], ["fast", "fast"], ["gin", "gin"], ["fast", "gin"]):
            sc.append({"Par": [dict(q, fw=f) for q, f in zip(par, fw)], "L": [dict(q) for q in l]})
    for i in range(c.pick(300, 4000)):
        par = [{"fw": c.rng.choice(["gin", "fast"]), "u": rnd(c.rng), "p": rnd(c.rng)} for _ in range(c.rng.choice([1, 1, 2, 3]))]
        if len(par) > 1 and c.rng.random() < .4:
            par[1]["u"] = list(par[0]["u"])
        if len(par) > 1 and c.rng.random() < .4:
            par[1]["p"] = list(par[0]["p"])
        sc.append({"Par": par, "L": requests(c, par, 30), "Conc": i % 3 == 0})
    for s in sc:
        for q in s["L"]:
            q["Path"] = c.rng.choice(PATHS if c.rng.random() < .3 else PATHS[1:3])
            q["Method"] = c.rng.choice(["GET", "GET", "GET", "POST"]) if q["Path"] != "/debug/pprof/symbol" else "GET"
    o = c.harness("TestAuth", {"Scripts": sc})
    judge(c, "profiling endpoint", "AuthTrace", o["traces"], TRACE)
    c.cov["executions"] = o["execs"]
    c.cov["requests"] = sum(len(s["L"]) for s in sc)
    return c.finish()
