"""Configuration loading: C26 (precedence), C27 (names and reach), C36 (sources that cannot be understood)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Names <- {names}
  KindsMC = {kinds}
  Vals = {vals}
  MaxLeaf = {leaf}
  MaxDepth = {depth}
  MaxSrc = {src}
  Full = {full}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
KINDS = ["bool", "float64", "int", "int64", "string", "uint", "uint64", "dur"]


def mc(names="NamesS", kinds='{"int","unsup"}', vals='{"1","2"}', leaf=2, depth=1, src=3, full="FALSE", extra="INVARIANTS Distinct Precedence Untouched NotHalf"):
    return MC.format(names=names, kinds=kinds, vals=vals, leaf=leaf, depth=depth, src=src, full=full, extra=extra)


def name(path, sep, f):
    # only to aim the sources: the specification derives the names itself
    return sep.join("".join((sep if i and ch.isupper() else "") + f(ch) for i, ch in enumerate(nm)) for nm in path)


# value -> texts for yaml, env, flag
STR = ["", "false", "0", "a b", "=x", "-y", "日本", "null", "# no", "a=b", "x", "'q'", "\"", "~", "yes", "c:\\d", " s ", "-1", "--", "a,b", "{}", "${X}", "%s"]


def value(c, k, v):
    """A concrete value of the kind for the abstract value v (0 is the zero value), and a text for it."""
    r, k0 = c.rng, k
    k = k.lstrip("n") if k in ("nstring", "nint", "nbool", "ndur") else k
    if k == "bool":
        b = v % 2 == 1
        return str(b).lower(), {"yaml": str(b).lower(), "env": r.choice(["true", "1", "T", "TRUE"] if b else ["false", "0", "F", "False"]), "flag": r.choice(["true", "1"] if b else ["false", "0"])}
    if k == "string":
        s = "" if v == 0 else r.choice(STR) if v > 1 else "s%d" % r.randint(0, 99)
        return s, {"yaml": json.dumps(s), "env": s, "flag": s}
    if k == "dur":
        t, n = ("0s", 0) if v == 0 else r.choice([("3s", 3 * 10**9), ("1h0m0.5s", 3600 * 10**9 + 5 * 10**8), ("-2ms", -2 * 10**6), ("1ns", 1), ("1000h", 3600 * 10**12)])
        return str(n), {"yaml": t if k0 == "dur" else str(n), "env": t, "flag": t}
    if k == "float64":
        t, n = ("0", "0") if v == 0 else r.choice([("1.5", "1.5"), ("-0.25", "-0.25"), ("3", "3"), ("1e10", "1e+10"), ("0.1", "0.1"), ("1e-3", "0.001")])
        return n, {"yaml": t, "env": t, "flag": t}
    if k in ("uint", "uint64"):
        t = "0" if v == 0 else str(r.choice([1, 7, 3306, 2**31, 2**32 + 1, 2**63, 2**64 - 1]))
        return t, {"yaml": t, "env": t, "flag": t}
    if k in ("int", "int64"):
        t = "0" if v == 0 else str(r.choice([1, -1, 6379, -2**31, 2**32 + 5, 2**63 - 1, -2**63]))
        d = {"yaml": t, "env": t, "flag": t}
        if t == "6379":
            d = {"yaml": t, "env": r.choice(["6379", "0x18eb"]), "flag": r.choice(["6379", "0x18EB"])}
        return t, d
    t = str(v % 3)
    return t, {"yaml": t, "env": t, "flag": t}


def concrete(c, walk, names):
    ops, leaf, stack, nodes = [], [], [([], True)], []
    rest, decoys = [], []
    used = {}
    for a in walk["acts"]:
        o = dict(a["op"])
        if o["e"] == "open":
            p, x = stack[-1]
            stack.append((p if o["emb"] else p + [o["nm"]], x and o["nm"][0].isupper()))
            if o["emb"] and names:
                decoys.append((p, o["nm"]))
            nodes.append(o)
            o["top"] = len(ops)
            ops.append(o)
        elif o["e"] == "close":
            stack.pop()
            ops.append(o)
        elif o["e"] == "leaf":
            p, x = stack[-1]
            o["u"] = c.rng.randint(0, 18)
            nodes.append(o)
            leaf.append({"path": p + [o["nm"]], "k": o["k"], "pub": x and o["nm"][0].isupper(), "op": o, "emb": [d for d in decoys]})
            ops.append(o)
        else:
            i = o["i"]
            k = leaf[i - 1]["k"]
            v, t = value(c, k, int(o["v"]))
            o["v"] = v
            if o["e"] in ("env", "flag"):
                o["nm"] = name(leaf[i - 1]["path"], "_" if o["e"] == "env" else "-", str.upper if o["e"] == "env" else str.lower)
            o["t"] = t.get(o["e"], "")
            if o["e"] == "flag":
                d = c.rng.choice(["-", "--"])
                if k in ("bool", "nbool"):
                    o["t"] = [d + o["nm"]] if v == "true" and c.rng.random() < .5 else [d + o["nm"] + "=" + o["t"]]
                elif c.rng.random() < .5:
                    o["t"] = [d + o["nm"] + "=" + o["t"]]
                else:
                    o["t"] = [d + o["nm"], o["t"]]
            used.setdefault(i, set()).add(o["e"])
            rest.append(o)
    # null for pointers and for whole levels without other mention
    for i, l in enumerate(leaf):
        if l["pub"] and l["op"]["p"] and "yaml" not in used.get(i + 1, ()) and l["k"] != "unsup" and c.rng.random() < .15:
            rest.append({"e": "null", "i": i + 1, "t": c.rng.choice(["null", "~", ""])})
    if not any(o["e"] in ("yaml", "null") for o in rest):
        for n, o in enumerate(nodes):
            if o["e"] == "open" and c.rng.random() < .5 and o["nm"][0].isupper() and not o["inl"]:
                rest.append({"e": "nulls", "n": n, "t": c.rng.choice(["null", "~", ""])})
                break
    if names and leaf:
        real = {name(l["path"], "_", str.upper) for l in leaf}
        for _ in range(c.rng.randint(0, 4)):
            l = c.rng.choice(leaf)
            p = l["path"]
            q = ["".join(x) for x in p]
            d = c.rng.choice([name(p, "_", str.lower), "".join(q).upper(), "_".join(q), name(p, "-", str.lower), "_".join(q).upper(), name(p, "_", str.upper) + "_", "_" + name(p, "_", str.upper),
                              name([[ch for ch in x] for x in p[-1:]], "_", str.upper), name(p, "__", str.upper), name([list(x) for x in l["emb"][-1][0] + [l["emb"][-1][1]] + p[len(l["emb"][-1][0]):]], "_", str.upper) if l["emb"] else "X"])
            if d not in real and d:
                v, t = value(c, l["k"], c.rng.randint(0, 2))
                rest.append({"e": "env", "nm": d, "v": v, "t": t["env"]})
    pres = [o for o in rest if o["e"] == "preset"]
    y = any(o["e"] in ("yaml", "null", "nulls") for o in rest)
    par = {"y": "c" if y else c.rng.choice(["", "c", "conf-file"]), "file": y or c.rng.random() < .5, "last": c.rng.random() < .5, "names": names, "head": c.rng.choice(["", "# comment\n"]) if y else ""}
    # an "x" with a lone "--" or a positional argument ends the flags: keep the file first then
    fl = [o for o in rest if o["e"] == "flag"]
    return {"Par": par, "Ops": [dict(o, nm=list(o["nm"])) if o["e"] in ("open", "leaf") else o for o in ops] + pres + [o for o in rest if o["e"] not in ("preset", "flag")] + fl}


NOTS = {"int": ["", "x", "1.5", "1e3", "99999999999999999999", " 1", "1 ", "1,000", "0x", "true", "--1", "9223372036854775808"], "uint": ["", "x", "1.5", "-1", "+-2", "18446744073709551616", "1 "],
        "bool": ["", "yes", "no", "2", "on", "truee", " true"], "dur": ["", "5", "5 s", "1d", "x", "1h-1m", "s"], "float64": ["", "x", "1,5", "1.2.3", "1 "]}
YNOTS = {"int": ["x", "[1]", "{a: 1}", "true", "99999999999999999999", "'x'"], "uint": ["x", "-1", "[1]"], "bool": ["maybe", "2", "[true]", "{a: true}"],
         "string": ["[a]", "{a: b}"], "dur": ["5 parsecs", "[1]", "x", "{a: 1}"], "float64": ["x", "[1]", "{}"]}
TEXTS = ["a: [", "\t- x", "key: 'open", "- 1\n- 2\n", "just text", "\x01\x02", "a: b: c", "{", "a:\n  b\n c: d\n", "%TAG", "42", "a: *none", "? [a"]


def spoil(c, s):
    """The script, with one source (or several) that cannot be understood."""
    r = c.rng
    path, leaf = [([], True)], []
    for o in s["Ops"]:
        if o["e"] == "open":
            p, x = path[-1]
            path.append((p if o["emb"] else p + [o["nm"]], x and o["nm"][0].isupper()))
        elif o["e"] == "close":
            path.pop()
        elif o["e"] == "leaf":
            p, x = path[-1]
            if x and o["nm"][0].isupper() and o["k"] in KINDS:
                leaf.append((len(leaf_all(s, o)), p + [o["nm"]], o["k"]))
    s = json.loads(json.dumps(s))
    par = s["Par"]
    par["bad"] = True
    par["strict"] = r.random() < .5
    ops = [o for o in s["Ops"] if o["e"] not in ("null", "nulls")]
    ways = ["text", "missing", "dir", "noflag"] + (["yaml", "env", "flag", "novalue"] * 5 if leaf else [])
    w = r.choice(ways)
    o = {"e": "badsource", "how": w, "t": ""}
    if w in ("text", "missing", "dir", "yaml"):
        par["y"], par["file"] = par["y"] or "c", True
    if w == "text":
        o["t"] = r.choice(TEXTS)
    elif w == "noflag":
        o.update(how="flag", t=r.choice([["-no-such"], ["--zz=1"], ["-=x"], ["---x"]]))
        par["last"] = False
    elif w in ("yaml", "env", "flag", "novalue"):
        for _ in range(50):
            i, p, k = r.choice(leaf)
            kk = {"int64": "int", "uint64": "uint"}.get(k, k)
            if w == "yaml" or w == "novalue" and k != "bool" or kk in NOTS and w != "novalue":
                break
        else:
            return spoil(c, s)
        o.update(e="badfield", i=i)
        f = "-" + name(p, "-", str.lower)
        if w == "yaml":
            o["t"] = r.choice(YNOTS[kk])
            ops = [x for x in ops if not (x["e"] == "yaml" and x["i"] == i)]
        elif w == "env":
            o["nm"], o["t"] = name(p, "_", str.upper), r.choice(NOTS[kk])
            ops = [x for x in ops if not (x["e"] == "env" and x["nm"] == o["nm"])]
        elif w == "flag":
            t = r.choice(NOTS[kk])
            o["t"] = [f + "=" + t] if k == "bool" or r.random() < .5 else [f, t]
        else:
            o.update(how="flag", t=[f])
            par["last"] = False
    s["Ops"] = ops + [o]
    return s


def leaf_all(s, o):
    l = []
    for x in s["Ops"]:
        if x["e"] == "leaf":
            l.append(x)
        if x is o:
            return l


def main(pid):
    c = Ctx(pid, "conf")
    names = pid == "C27"
    kinds = "{" + ",".join('"%s"' % k for k in KINDS + (["unsup", "nstring", "nint", "nbool", "ndur", "unsup"] if names else [])) + "}"
    g = {"s": []}

    def spec():
        c.model_check("ConfMC", mc(leaf=2, depth=c.pick(1, 2), src=c.pick(3, 4)), timeout=850, workers=c.pick(4, 8), mem="8g")

    def sim(leaf, depth, ln, n):
        return lambda: c.simulate("ConfMC", mc(names="NamesX", kinds=kinds, vals='{"0","1","2"}', leaf=leaf, depth=depth, src=10**6, full="TRUE", extra="ACTION_CONSTRAINT PrintSim"), n, ln)

    k = c.pick(3, 30)
    r = parallel(spec, sim(1, 1, 5, 200 * k), sim(2, 2, 9, 200 * k), sim(4, 3, 16, 200 * k), sim(7, 3, 26, 150 * k), sim(12, 4, 45, 60 * k), lambda: c.build([]))
    g["s"] = [w for x in r[1:6] for w in x]
    sc = []
    for w in g["s"]:
        sc.append(concrete(c, w, names))
    c.rng.shuffle(sc)
    if pid == "C36":
        sc = sc[:c.pick(300, 3000)] + [spoil(c, x) for x in sc[:c.pick(700, 8000)]]
        c.rng.shuffle(sc)
    sc = sc[:c.pick(4000, 60000)]
    traces, execs = c.harness_par("TestLoads", {"Scripts": sc})
    judge(c, "configuration loading", "ConfTrace", traces, TRACE)
    c.cov["executions"] = execs
    return c.finish()
