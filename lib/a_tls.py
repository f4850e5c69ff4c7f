"""TLS trust of the HTTP client: C29."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANT Pars <- All
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS OnlyInsecureSkips OsOnly CustomOnly ClosedWithoutFiles Identity Decided"


def main(pid):
    c = Ctx(pid, "tls")
    pairs = []

    def spec():
        out = c.model_check("TlsMC", MC.format(extra=INV + "\nACTION_CONSTRAINT PrintPar"), timeout=850, workers=4)
        seen = set()
        for ln in out.splitlines():
            if ln.startswith('"TXT ') and ln not in seen:
                seen.add(ln)
                o = json.loads(json.loads(ln)[4:])
                pairs.append((o["c"][0], o["s"][0]))

    parallel(spec, lambda: c.build([]))
    pairs.sort(key=lambda p: json.dumps(p, sort_keys=True))
    r = c.rng
    bad = {"nokey", "nocert", "mismatch", "missing"}
    broken = [p for p in pairs if p[0]["cert"] in bad or any("missing" in f for f in p[0]["files"])]
    fine = [p for p in pairs if p not in broken] if len(broken) < 200 else pairs
    r.shuffle(fine)
    # every client, every server, and a share of the pairs; documented modes first
    main_ = [p for p in fine if p[0]["mode"] in ("OS", "", "CUSTOM", "INSECURE")]
    rest = [p for p in fine if p[0]["mode"] not in ("OS", "", "CUSTOM", "INSECURE")]
    near = [p for p in main_ if p[1]["host"] == "right" and p[1]["time"] == "valid"]
    use = near[:c.pick(3000, 10**6)] + main_[:c.pick(2500, 10**6)] + rest[:c.pick(800, 10**6)]
    r.shuffle(use)
    sc = []
    for i in range(0, len(use), 6):
        g = use[i:i + 6]
        C, S, ops = [], [], []
        for cl, s in g:
            if cl not in C:
                C.append(cl)
            if s not in S:
                S.append(s)
            ops.append([C.index(cl) + 1, S.index(s) + 1])
        more = [[r.randrange(len(C)) + 1, r.randrange(len(S)) + 1] for _ in range(6)]
        ops += more + ([r.choice(ops)] * 2 if r.random() < .3 else [])
        r.shuffle(ops)
        sc.append({"Par": {"c": C, "s": S}, "Ops": ops, "Conc": r.random() < .3, "Keep": r.random() < .5, "V12": r.random() < .3})
    for cl, s in broken:
        sc.append({"Par": {"c": [cl], "s": [s]}, "Ops": [[1, 1]], "Child": any("missing" in f for f in cl["files"])})
    S = [s for s in {json.dumps(p[1]): p[1] for p in near}.values()]
    for mode in ("CUSTOM", "INSECURE", "OS", "custom"):
        for f in ([["junk"]], [["c1"], ["junk"]], [["junk"], ["c1"]]):
            sc.append({"Par": {"c": [{"mode": mode, "files": f, "cert": r.choice(["none", "cliA"])}], "s": S}, "Ops": [[1, j + 1] for j in range(len(S))], "Child": True})
    r.shuffle(sc)
    tr, ex = c.harness_par("TestTls", {"Scripts": sc}, timeout=800)
    judge(c, "TLS client", "TlsTrace", tr, TRACE)
    c.cov["executions"] = ex
    c.cov["connections"] = sum(len(s["Ops"]) for s in sc)
    return c.finish()
