"""Typed value processors: C25.  Key texts: C32 (spec Keys)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Pars <- {pars}
  MaxLen = {maxlen}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def mc(pars="AllP", maxlen=3, extra="INVARIANT Inv"):
    return MC.format(pars=pars, maxlen=maxlen, extra=extra)


def num(i):
    return {"n": i < 0, "d": [int(x) for x in str(abs(i))] if i else []}


def ipar(lo, loi, hi, hii, **k):
    return dict({"k": "int", "lo": num(lo), "loi": loi, "hi": num(hi), "hii": hii}, **k)


def named():
    M = 2**31 - 1
    return [ipar(-M - 1, True, M, True, name="Int"), ipar(0, False, M, True, name="IntGtZero"), ipar(0, True, M, True, name="IntGtEqZero"),
            {"k": "str", "min": 0, "max": M, "name": "String"}, {"k": "bool", "name": "Bool"}, {"k": "dur", "name": "Duration"},
            {"k": "url", "name": "Url"}, {"k": "urls", "name": "UrlString"}, {"k": "css", "name": "CssColorHex"}]


def mutate(rng, s, toks):
    s = list(s)
    for _ in range(rng.choice([1, 1, 2])):
        o = rng.randint(0, 3)
        i = rng.randint(0, len(s))
        if o == 0:
            s.insert(i, rng.choice(toks))
        elif o == 1 and s:
            s.pop(min(i, len(s) - 1))
        elif o == 2 and s:
            s[min(i, len(s) - 1)] = rng.choice(toks)
        elif s:
            s.insert(i, s[min(i, len(s) - 1)])
    return s


def ints(c, n):
    """Texts around the bounds of processors with large bounds."""
    out = []
    E = 2**63
    bounds = [-E, -E + 1, -2**31, -2**31 - 1, -1000, -1, 0, 1, 7, 8, 255, 2**31 - 1, 2**31, 2**53, E - 1]
    pars = [p for p in named() if p["k"] == "int"] + [ipar(-E, True, E - 1, True), ipar(-E, False, E - 1, False), ipar(0, False, 0, False), ipar(5, True, 4, True)]
    for _ in range(n):
        lo, hi = sorted(c.rng.sample(bounds, 2))
        pars.append(ipar(lo, c.rng.random() < .5, hi, c.rng.random() < .5))
    for p in pars:
        lo, hi = [(-1 if p[k]["n"] else 1) * int("".join(map(str, p[k]["d"])) or "0") for k in ("lo", "hi")]
        vs = set(b + d for b in bounds + [lo, hi] for d in (-2, -1, 0, 1, 2)) | {10 * hi, 10 * lo, hi + 2**32, lo - 2**32, hi + 2**64, lo - 2**64, 2**64, 10**40}
        t = []
        for v in vs:
            s = str(v)
            t.append(list(s))
            t.append(list(s.replace("-", "")) if v < 0 else ["-"] + list(s))
            if c.rng.random() < .3:
                t.append((["-"] if v < 0 else []) + ["0"] * c.rng.choice([1, 2, 25]) + list(s.lstrip("-")))
            if c.rng.random() < .5:
                t.append(mutate(c.rng, s, ["_", " ", "0", "x", ".", "e", "1", ",", "\n", "+", "-", "٣"]))
        t += [list(x) for x in ("0x10", "010", "0b1", "0o7", "1_000", "1e3", "1.0", " 1", "1 ", "+1", "--1", "+-1", "", "-", "+", "９", "-0", "00", "-00")]
        out.append({"Par": p, "L": t})
    return out


def durs(c, n):
    t = []
    U = [["h"], ["m"], ["s"], ["m", "s"], ["u", "s"], ["µ", "s"], ["μ", "s"], ["n", "s"]]
    cap = {"h": 7, "m": 8, "s": 9, "ms": 9, "us": 9, "µs": 9, "μs": 9, "ns": 9}
    fr = {"h": 3, "m": 3, "s": 9, "ms": 6, "us": 3, "µs": 3, "μs": 3, "ns": 3}
    for _ in range(n):
        s = c.rng.choice([[], [], ["-"], ["+"]])
        for _ in range(c.rng.choice([1, 1, 2, 3, 4])):
            u = c.rng.choice(U)
            k = "".join(u)
            i = c.rng.choice([[], ["0"], ["0", "0", "7"], list(str(c.rng.randint(0, 99))), list(str(c.rng.randint(1, 10**cap[k] - 1)))])
            f = c.rng.choice([None, None, "", "5", "0", str(c.rng.randint(0, 10**fr[k] - 1)).zfill(fr[k]), "125"])
            if not i and not f:
                i = ["1"]
            s = s + i + ([] if f is None else ["."] + list(f)) + u
        t.append(s)
        if c.rng.random() < .4:
            t.append([x for x in mutate(c.rng, s, ["x", " ", ".", "-", "+", "d", "S", "h", "s", "1"])])
    for h, r in (("2562047", "47m16.854775807s"), ("2562047", "47m16.854775808s"), ("2562047", "48m"), ("2562048", ""), ("2562047", "47m16.8547758s8ns"), ("2562047", "2836.9s")):
        for sg in ("", "-"):
            t.append(list(sg + h + "h" + r))
    t += [list(x) for x in ("", "0", "-0", "+0", "00", "1", "-1", "1h ", " 1h", "1 h", "1H", "h", ".h", ".", "-", "1..5s", "1.5.s", ".5s", "5.s", "1d", "1w", "1min", "1hs", "1sm", "1e3s", "0x1s", "1_0s", "--1s", "1s-1s", "0h", "0.0s", "5e-1s", "1h\n")]
    # more digits than the machine carries
    t = [s for s in t if all(len(r) <= 9 for r in re.findall(r"\d+", "".join(s)))]
    t = [s for s in t if all(len(f) <= fr[u] for f, u in re.findall(r"\.(\d+)([a-zµμ]+)", "".join(s)) if u in fr)]
    t = [s for s in t if all(len(f) <= 3 for f, u in re.findall(r"\.(\d+)([a-zµμ]*)", "".join(s)) if u not in fr)]
    return [{"Par": {"k": "dur", "name": "Duration"}, "L": t}]


def csss(c, n):
    t = []
    H = "0123456789abcdefABCDEF"
    for _ in range(n):
        s = ["#"] + [c.rng.choice(H) for _ in range(6)]
        t.append(s)
        t.append(mutate(c.rng, s, list("g#G\n zé0f:")))
    t += [["#"] + [h] * 6 for h in H] + [["#"] + [h] * k for h in "0f" for k in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12)]
    t += [["#"] + list("00000") + [x] for x in "/:@G`g{-٣"]
    return [{"Par": {"k": "css", "name": "CssColorHex"}, "L": t}]


def strs(c, n):
    out = []
    for lo, hi in ((0, 0), (0, 1), (1, 1), (3, 5), (2, 1), (0, 255), (255, 256), (1, 2**31 - 1), (-1, 3), (10, 10)):
        t = [[c.rng.choice("xyz 0\n")] * k for k in sorted({max(0, b + d) for b in (lo, min(hi, 300)) for d in (-2, -1, 0, 1, 2)} | {0, 400})]
        t += [["é"] * k + ["x"] * j for k in (0, 1, 2, 5) for j in (0, 1, 4)]
        out.append({"Par": {"k": "str", "min": lo, "max": hi}, "L": t})
    out.append({"Par": [p for p in named() if p["k"] == "str"][0], "L": [[], ["x"], [" "], ["x"] * 300, ["é"] * 3]})
    return out


def words(c, n):
    out = []
    B = [["true"], ["false"], [], ["True"], ["TRUE"], ["t"], ["1"], ["0"], ["f"], ["true", " "], [" ", "true"], ["true", "false"], ["tru"], ["yes"], ["truetrue"], ["false\n"], ["False"], ["T"], ["F"], ["FALSE"]]
    out.append({"Par": {"k": "bool", "name": "Bool"}, "L": B + B})
    for m in (["a", "b"], [""], [], ["a", "A"], ["a,b", "a", "b"], ["a b", "b"], ["[a]", "a*"], ["é"], ["a", "a", "c"], ["true", "1"], ["ab", "abc", "bc"]):
        t = [[x] for x in ("", "a", "b", "A", "B", "ab", "a,b", "b,a", "a b", "[a]", "a*", "aa", "é", "É", "c", "1", "true", "abc", "bc", "a ", " a", "a\n")]
        t += [mutate(c.rng, list(x), list("abA ,")) for x in m for _ in range(5)]
        out.append({"Par": {"k": "enum", "m": m}, "L": t})
    return out


def main(pid):
    if pid == "C32":
        return keys(pid)
    c = Ctx(pid, "procs")
    g = {"short": {}, "deep": []}

    def spec():
        c.model_check("ProcsMC", mc(maxlen=c.pick(3, 4)), timeout=850, workers=c.pick(4, 8), mem="8g")

    def short():
        out = c.model_check("ProcsMC", mc(pars="SomeP", maxlen=c.pick(3, 4), extra="ACTION_CONSTRAINT PrintText"), workers=2, mem="8g", timeout=850)
        for ln in out.splitlines():
            if ln.startswith('"TXT '):
                o = json.loads(json.loads(ln)[4:])
                g["short"].setdefault(json.dumps(o["par"], sort_keys=True), []).append(o["s"])

    def deep():
        g["deep"] = c.simulate("ProcsMC", mc(pars="LongP", maxlen=10**6, extra="ACTION_CONSTRAINT PrintSim"), c.pick(60, 600), 7)

    parallel(spec, short, deep, lambda: c.build([]))
    sc = []
    for p, l in g["short"].items():
        if len(l) > c.pick(4000, 40000):
            l = c.rng.sample(l, c.pick(4000, 40000))
        sc += [{"Par": json.loads(p), "L": [[]] + l[i::8]} for i in range(8)]
    for w in g["deep"]:
        s = [a["c"] for a in w["acts"]]
        sc.append({"Par": w["par"], "L": [s[:k] for k in range(1, len(s) + 1)]})
    sc += ints(c, c.pick(25, 400)) + durs(c, c.pick(1000, 20000)) + csss(c, c.pick(300, 5000)) + strs(c, 0) + words(c, 0)
    for s in sc:
        c.rng.shuffle(s["L"])
    split = []
    for s in sc:
        for i in range(0, len(s["L"]), 200):
            split.append({"Par": s["Par"], "L": s["L"][i:i + 200]})
    o = c.harness("TestTexts", {"Scripts": split})
    judge(c, "value processor", "ProcsTrace", o["traces"], TRACE)
    c.cov["texts"] = sum(len(s["L"]) for s in split)
    # key texts
    keytexts(c, "C25", c.pick(300, 3000), False)
    c.cov["executions"] = o["execs"]
    return c.finish()


KMC = """SPECIFICATION Spec
CONSTANT MaxLen = {maxlen}
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sound RoundTrip NoEmpty
{extra}
"""
KTRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"


def keytexts(c, pid, n, deep):
    """Key texts: all short ones of the specification, and walks around well-formed ones."""
    out = c.model_check("KeysMC", KMC.format(maxlen=2 if not deep else 3, extra="ACTION_CONSTRAINT PrintText"), workers=2)
    docs = [[]] + [json.loads(json.loads(ln)[4:]) for ln in out.splitlines() if ln.startswith('"TXT ')]
    docs = docs if len(docs) < n else docs[:1] + c.rng.sample(docs, n)
    D = ["priv1", "priv1-one", "priv2", "pub1", "pub1-one", "pub2", "cert1", "ec", "pkcs8", "trunc", "junk", "priv-d", "priv-p", "priv-mix", "priv-tail", "pub-tail", "pub-alg", "rsapub", "cert-tail"]
    K = ["priv", "pub", "cert", "pkcs8", "rsapub", "xcert", "lower"]
    T = D + ["t"] + ["B:" + k for k in K] + ["E:" + k for k in K] + ["W:pub1", "W:pub2"]
    for k in K:
        for d in D:
            b = ["B:" + k, d, "E:" + k]
            docs += [b, ["t"] + b, b + ["t"]]
            for _ in range(2 if not deep else 10):
                docs.append(mutate(c.rng, b, T))
                docs.append(b + mutate(c.rng, ["B:" + c.rng.choice(K), c.rng.choice(D), "E:" + c.rng.choice(K)], T))
    out = []
    bits = [[1024, 1024], [1031, 1024]] if not deep else [[1024, 1031], [1032, 1536], [2048, 1025], [3072, 2047]]
    for b in bits:
        o = c.harness("TestKeys", {"Docs": docs, "Bits": b})
        out += o["traces"]
    judge(c, "key text", "KeysTrace", [json.loads(x) for x in sorted(set(json.dumps(t) for t in out))], KTRACE)
    c.cov["key_texts"] = len(docs)


def keys(pid):
    c = Ctx(pid, "procs")
    parallel(lambda: c.model_check("KeysMC", KMC.format(maxlen=c.pick(3, 4), extra=""), workers=4, timeout=850), lambda: c.build([]))
    keytexts(c, pid, c.pick(1500, 20000), c.thorough)
    c.cov["executions"] = c.cov["traces_validated_against_impl"]
    return c.finish()
