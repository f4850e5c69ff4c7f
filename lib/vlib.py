"""Common machinery of the checks: build the instrumented harness from /repo,
drive TLC (exhaustive checking, script generation, trace validation), report."""
import fcntl, hashlib, itertools, json, os, random, re, shutil, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
GO = "/opt/veriftools/go1.27.3/bin/go"


class CheckError(Exception):
    """The check itself failed: an error exit, never a verdict."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Ctx:
    def __init__(self, pid, area, level="model_checking"):
        self.pid, self.area, self.level = pid, area, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.t0 = time.time()
        self.bdir = os.path.join(VERIF, ".build", area)
        self.work = os.path.join(VERIF, ".build", "work-" + pid)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.knownhit = set()
        os.makedirs(os.path.join(VERIF, ".build"), exist_ok=True)
        self._lock = open(os.path.join(VERIF, ".build", area + ".lock"), "w")
        fcntl.flock(self._lock, fcntl.LOCK_EX)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self._ctr = itertools.count()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def tlog(self, what, t1):
        if os.environ.get("VERIF_TIMES"):
            log("  [%6.2f] %-50s %.2fs" % (time.time() - self.t0, what, time.time() - t1))

    # ---- build -------------------------------------------------------------
    def goenv(self):
        e = dict(os.environ)
        e.update(PATH=os.path.dirname(GO) + ":/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off",
                 GO111MODULE="on", GOWORK="off", GOFLAGS="-mod=mod", GONOSUMDB="*", GONOSUMCHECK="1",
                 GOSUMDB="off", CGO_ENABLED="0")
        e.setdefault("HOME", "/root")
        e.pop("INTEGRATION_TEST", None)
        return e

    def build(self, instrument=(), pkg=None, prepare=None):
        """Compile harness package areas/<area> against /repo's working tree; instrument the given packages."""
        t1 = time.time()
        pkg = pkg or "./areas/" + self.area
        b = self.bdir
        shutil.rmtree(b, ignore_errors=True)
        os.makedirs(b)
        shutil.copytree(os.path.join(VERIF, "harness"), os.path.join(b, "h"))
        h = os.path.join(b, "h")
        mod = open(os.path.join(REPO, "go.mod")).read()
        reqs = re.findall(r"require\s*\((.*?)\)", mod, re.S)
        singles = re.findall(r"^require\s+([^\s(]+\s+\S+)", mod, re.M)
        lines = ["module verif", "", "go 1.25", "", "require (", "\tgithub.com/chanjarster/gears v0.0.0"]
        for r in reqs:
            lines += ["\t" + x.strip() for x in r.strip().splitlines() if x.strip()]
        lines += ["\t" + x for x in singles] + [")", "", "replace github.com/chanjarster/gears => ../g", ""]
        open(os.path.join(h, "go.mod"), "w").write("\n".join(lines))
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(h, "go.sum"))
        env = self.goenv()
        if prepare:
            prepare(h, env)

        def run(cmd, **k):
            return subprocess.run(cmd, cwd=h, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                                  timeout=600, **k)

        r = run([GO, "build", "-o", os.path.join(b, "instr"), "./cmd/instr"])
        if r.returncode:
            raise CheckError("cannot build instrumenter:\n" + r.stdout)
        self.instrumented = False
        for mode in ([list(instrument)] if instrument else []) + [[]]:
            shutil.rmtree(os.path.join(b, "g"), ignore_errors=True)
            r = run([os.path.join(b, "instr"), REPO, os.path.join(b, "g")] + mode)
            if r.returncode:
                log("instrumentation failed:", r.stdout)
                continue
            r = run([GO, "test", "-c", "-vet=off", "-o", os.path.join(b, "t.bin"), pkg])
            if r.returncode == 0:
                self.instrumented = bool(mode)
                self.tlog("build", t1)
                if instrument and not mode:
                    log("note: instrumented build failed; using the plain build")
                return
            log("build failed (instrumented=%s):\n%s" % (bool(mode), r.stdout[-3000:]))
        raise CheckError("harness does not build against " + REPO)

    def harness(self, test, inp, timeout=300, env=None):
        """Run one test function of the harness binary on inp; returns the JSON it wrote."""
        t1 = time.time()
        n = next(self._ctr)
        fi = os.path.join(self.work, "in%d.json" % n)
        fo = os.path.join(self.work, "out%d.json" % n)
        json.dump(inp, open(fi, "w"))
        e = self.goenv()
        e.update(VH_IN=fi, VH_OUT=fo, VH_SEED=str(self.seed), VH_TIER=self.tier, GOMEMLIMIT="6GiB")
        e.update(env or {})
        try:
            r = subprocess.run([os.path.join(self.bdir, "t.bin"), "-test.run", "^" + test + "$", "-test.timeout",
                                "%ds" % timeout, "-test.count=1"], cwd=self.work, env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout + 30, errors="replace", text=True)
        except subprocess.TimeoutExpired:
            raise CheckError("harness timed out")
        self.tlog("harness " + test, t1)
        if r.returncode or not os.path.exists(fo):
            if crashed(r.stdout, os.path.join(self.bdir, "g")):
                raise CodeCrash(self, "the code under test crashes the program:\n" + tail(r.stdout)[:1500], inp, r.stdout)
            raise CheckError("harness failed (rc=%d):\n%s" % (r.returncode, tail(r.stdout)))
        return json.load(open(fo))

    def harness_par(self, test, inp, shards=6, key="Scripts", **k):
        """Like harness, with the scripts split over several processes; returns (traces, executions)."""
        l = inp[key]
        n = max(1, min(shards, len(l) // 4))
        rs = parallel(*[(lambda i=i: self.harness(test, dict(inp, **{key: l[i::n], "Shard": i}), **k)) for i in range(n)])
        return [t for r in rs for t in r["traces"]], sum(r["execs"] for r in rs)

    # ---- TLC ---------------------------------------------------------------
    def tlc(self, module, cfg, args=(), env=None, workers=4, timeout=600, mem="4g", dfs=False, simlen=0):
        t1 = time.time()
        md = os.path.join(self.work, "md%d" % next(self._ctr))
        os.makedirs(md)
        cfgf = os.path.join(md, "M.cfg")
        if "SimLen" in open(os.path.join(SPEC, module + ".tla")).read():
            cfg += "\nCONSTANT SimLen = %d\n" % simlen
        open(cfgf, "w").write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC"] + (["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []) + ["-Xmx" + mem, "-Xss16m", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE", "-config", cfgf] + list(args) + [
                   os.path.join(SPEC, module + ".tla")]
        try:
            r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, errors="replace")
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + module)
        out = r.stdout
        self.tlog("tlc %s %s" % (module, " ".join(args)), t1)
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"(\d[\d,]*) states generated.*?(\d[\d,]*) distinct states found", out)
        gen, dist = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return r.returncode, out, gen, dist

    def model_check(self, module, cfg, **k):
        """Exhaustive check of the specification; a failure is an error of the check (the spec is wrong)."""
        rc, out, gen, dist = self.tlc(module, cfg, **k)
        if rc != 0:
            raise CheckError("TLC: specification check of %s failed (rc=%d):\n%s" % (module, rc, tail(out)))
        self.cov["states"] += dist
        self.cov["transitions"] += gen
        return out

    def graph(self, module, cfg, **k):
        """Exhaustive check that also returns the labelled edges printed by the action constraint PrintEdge."""
        k.setdefault("workers", 1)
        out = self.model_check(module, cfg, **k)
        edges = []
        for ln in out.splitlines():
            if ln.startswith('"EDGE '):
                edges.append(json.loads(json.loads(ln)[5:]))
        return Graph(edges)

    def simulate(self, module, cfg, num, length, seed=None, **k):
        """Random walks of the specification of the given number of (non-internal) actions: [{par, acts}]."""
        seed = self.seed if seed is None else seed
        k.setdefault("timeout", 300)
        rc, out, gen, dist = self.tlc(module, cfg, args=["-simulate", "num=%d" % num, "-depth", str(4 * length), "-seed",
                                                         str(seed)], workers=1, simlen=length, **k)
        if rc != 0:
            raise CheckError("TLC simulation of %s failed (rc=%d):\n%s" % (module, rc, tail(out)))
        walks, seen = [], set()
        for ln in out.splitlines():
            if ln.startswith('"SIM '):
                o = json.loads(json.loads(ln)[4:])
                key = json.dumps([o["par"], o["acts"][:-1]], sort_keys=True)    # TLC prints all candidates for the last step
                if key not in seen:
                    seen.add(key)
                    walks.append({"par": o["par"], "acts": [a for a in o["acts"] if a["k"] != "int"]})
        if not walks:
            raise CheckError("TLC simulation of %s produced no walk" % module)
        m = re.search(r"The number of states generated: (\d+)", out)
        if m:
            self.cov["transitions"] += int(m.group(1))
        return walks

    def validate(self, module, traces, cfg, shards=4, **k):
        """Trace validation: returns the indices of the traces that are not behaviours of the specification."""
        k.setdefault("timeout", 800)
        # shards run in parallel, one depth-first TLC worker each
        nsh = max(1, min(shards, len(traces) // 150))
        idx = [list(range(i, len(traces), nsh)) for i in range(nsh)]
        res = parallel(*[(lambda ix=ix: [ix[j] for j in self._validate(module, [traces[i] for i in ix], cfg, **k)]) for ix in idx])
        bad = sorted(i for r in res for i in r)
        self.cov["traces_validated_against_impl"] += len(traces)
        for t in traces[:2]:
            if len(self.cov["samples"]) < 6:
                self.cov["samples"].append(compact(t))
        return bad

    def _validate(self, module, traces, cfg, **k):
        if not traces:
            return []
        fn = os.path.join(self.work, "traces%d.json" % next(self._ctr))
        json.dump(traces, open(fn, "w"))
        rc, out, gen, dist = self.tlc(module, cfg, env={"VTRACES": fn}, workers=1, dfs=True, **k)
        acc = set(int(x) for x in re.findall(r'<<"ACC", (\d+)>>', out))
        if rc != 0:
            raise CheckError("TLC: trace validation with %s failed (rc=%d):\n%s" % (module, rc, tail(out)))
        self.cov["tv_states"] = self.cov.get("tv_states", 0) + dist
        return [i for i in range(len(traces)) if i + 1 not in acc]

    def where(self, module, trace, cfg, **k):
        """Longest prefix of a rejected trace that the specification explains."""
        fn = os.path.join(self.work, "traces%d.json" % next(self._ctr))
        json.dump([trace], open(fn, "w"))
        rc, out, gen, dist = self.tlc(module, cfg + "\nINVARIANT PrintPos\n", env={"VTRACES": fn}, workers=1, **k)
        ls = [int(x) for x in re.findall(r'<<"AT", (\d+)>>', out)]
        return max(ls) if ls else 0

    # ---- verdicts ----------------------------------------------------------
    def violation(self, what, replay, key=None):
        """Record a violation of the property shown by the real code. key identifies a known finding."""
        if key is not None and key in self.known:
            self.knownhit.add(key)
            return
        self.violations.append((what, replay))

    def finish(self, explanation=None):
        self.cov["samples"] = self.cov["samples"][:6] or ["none"]
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        if explanation:
            self.cov["explanation"] = explanation
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        for kf in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[kf]))
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        if self.violations:
            d = os.path.join(VERIF, "replay")
            os.makedirs(d, exist_ok=True)
            for i, (what, rep) in enumerate(self.violations[:3]):
                fn = os.path.join(d, "%s-%d.json" % (self.pid, i))
                json.dump({"property": self.pid, "what": what, "seed": self.seed, "tier": self.tier, "replay": rep},
                          open(fn, "w"), indent=1)
                print(what)
                print("VIOLATION property=%s replay=%s" % (self.pid, fn))
            return 1
        print("OK property=%s tier=%s seed=%d wall=%.1fs %s" % (self.pid, self.tier, self.seed, time.time() - self.t0, {
            k: v for k, v in self.cov.items() if k not in ("samples",)}))
        return 0


class CodeCrash(CheckError):
    """The harness process was ended by a panic or fatal error raised in the code under test."""

    def __init__(self, ctx, what, inp, out):
        CheckError.__init__(self, what)
        self.ctx, self.what, self.rep = ctx, what, {"input": compact(inp), "output": out[-6000:]}

    def report(self):
        self.ctx.violation(self.what, self.rep)
        return self.ctx.finish()


def crashed(out, g):
    """Is the goroutine that ended the process in the code under test?"""
    if "panic: test timed out" in out:
        # it spins inside the code under test
        return any(re.match(r"goroutine \d+ .*\[(running|runnable)", b) and g + "/" in b for b in out.split("\n\n"))
    m = re.search(r"^(panic: |fatal error: )(.*)$", out, re.M)
    if not m or "deadlock" in m.group(2):
        return False
    for l in out[m.end():].splitlines():
        l = l.strip()
        if re.match(r"/\S+\.go:\d+", l):
            if l.startswith(g + "/"):
                return True
            if "/src/runtime/" in l or "/src/internal/" in l or "/src/sync/" in l or "/src/reflect/" in l or "/h/vs" in l or "/h/va" in l:
                continue
            return False
    return False


def tail(out):
    i = out.find("Starting...")
    o = out[i:] if i >= 0 else out
    if len(o) < 400:
        o = out[-2500:]
    return o if len(o) < 6000 else o[:3000] + "\n...\n" + o[-3000:]


def compact(t):
    s = json.dumps(t)
    return t if len(s) < 3000 else s[:3000]


def load_known(pid):
    """known_findings.txt: lines 'finding: property=<id> key=<key> <text>' (fixed: lines suppress nothing)."""
    d = {}
    fn = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(fn):
        for ln in open(fn):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln.strip())
            if m and m.group(1) == pid:
                d[m.group(2)] = m.group(3)
    return d


class Graph:
    """Labelled transition graph printed by TLC: edges {f, a, t, i} (from, action, to, from-is-initial, par)."""

    def __init__(self, edges):
        self.ids = {}
        self.out = []
        self.init = []
        self.par = {}
        seen = set()
        self.edges = 0
        for e in edges:
            f, t = self.id(e["f"]), self.id(e["t"])
            if e.get("i") and f not in self.par:
                self.init.append(f)
                self.par[f] = e["par"]
            k = (f, json.dumps(e["a"], sort_keys=True), t)
            if k in seen:
                continue
            seen.add(k)
            self.out[f].append((e["a"], t))
            self.edges += 1

    def id(self, s):
        h = hashlib.md5(s.encode()).hexdigest()
        if h not in self.ids:
            self.ids[h] = len(self.out)
            self.out.append([])
        return self.ids[h]

    def tour(self, rng, maxlen, maxwalks=10**9):
        """Walks from initial states that together take every edge (greedy: nearest untaken edge)."""
        todo = {f: set(range(len(o))) for f, o in enumerate(self.out) if o}
        left = self.edges
        walks = []
        dead = set()
        inits = list(self.init)
        rng.shuffle(inits)
        ii = 0
        while left > 0 and len(walks) < maxwalks and inits:
            s = inits[ii % len(inits)]
            ii += 1
            start = s
            acts = []
            while len(acts) < maxlen:
                path = self._nearest(s, todo, maxlen - len(acts))
                if path is None:
                    break
                for (f, j) in path:
                    a, t = self.out[f][j]
                    if f in todo and j in todo[f]:
                        todo[f].discard(j)
                        left -= 1
                    acts.append(a)
                    s = t
            if not acts:
                dead.add(start)
                if len(dead) >= len(inits):
                    break
                continue
            walks.append({"par": self.par[start], "acts": acts})
        return walks

    def _nearest(self, s, todo, lim):
        from collections import deque
        prev = {s: None}
        q = deque([(s, 0)])
        while q:
            f, d = q.popleft()
            if todo.get(f):
                j = min(todo[f])
                path = [(f, j)]
                while prev[f] is not None:
                    pf, pj = prev[f]
                    path.append((pf, pj))
                    f = pf
                path.reverse()
                return path
            if d + 1 >= lim:
                continue
            for j, (a, t) in enumerate(self.out[f]):
                if t not in prev:
                    prev[t] = (f, j)
                    q.append((t, d + 1))
        return None

    def random_walks(self, rng, num, depth):
        ws = []
        for _ in range(num):
            s = rng.choice(self.init)
            p = self.par[s]
            acts = []
            while len(acts) < depth and self.out[s]:
                a, s = rng.choice(self.out[s])
                acts.append(a)
            ws.append({"par": p, "acts": acts})
        return ws


def parallel(*fns):
    """Run callables in parallel; re-raise the first error; return their results."""
    res, err = [None] * len(fns), []

    def w(i, f):
        try:
            res[i] = f()
        except BaseException as e:
            err.append(e)

    ts = [threading.Thread(target=w, args=(i, f)) for i, f in enumerate(fns)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if err:
        raise err[0]
    return res


def op_scripts(walks):
    """Object scripts from walks of a specification: drop internal steps."""
    out = []
    for w in walks:
        acts = [a for a in w["acts"] if a["k"] in ("op", "tick")]
        if acts:
            out.append({"par": w["par"], "acts": acts})
    return out


def ops(*os, t=5):
    """Sequential actions: strings or dicts are operations of thread t, ints are clock steps."""
    l = []
    for o in os:
        if isinstance(o, int):
            l.append({"k": "tick", "d": o})
        else:
            l.append({"k": "op", "t": t, "op": o if isinstance(o, dict) else {"o": o}})
    return l


ALIKE = list("abkuserKAB019:_-./*?%[]\\'\"$#!~,;= ") + ["é", "e\u0301", "日", "ß", "ſ", "\t", "\u00a0"]


def alike(r, n):
    """Different texts that are hard to tell apart: in case, blanks, prefixes, tails of long texts, Unicode forms."""
    base = "".join(r.choice(ALIKE) for _ in range(r.choice([0, 1, 2, 5, 12, 70, 300])))
    out = []
    while len(out) < n:
        t = r.choice(out + [base])
        for _ in range(r.choice([1, 1, 2])):
            k = r.randint(0, 9)
            i = r.randint(0, len(t))
            t = [t + r.choice(ALIKE), r.choice(ALIKE) + t, t.swapcase(), t + " ", " " + t, t[:i] + r.choice(ALIKE) + t[i:], t[:i] + t[i + 1:], t.lower(), t + t[-1:], t[:-1] + r.choice(ALIKE)][k]
        if t not in out and not t.startswith("_rl:") and not t.endswith(":bl") and t:
            out.append(t)
    return out


def judge(c, what, module, traces, cfg, shards=None, key=None):
    """Validate traces of the real code; report those that are not behaviours of the specification."""
    bad = c.validate(module, traces, cfg, shards=shards or c.pick(4, 8), timeout=850)
    for i in bad[:40]:
        k = key(traces[i]) if key else None
        if k is not None and k in c.known:
            c.knownhit.add(k)
            continue
        if len(c.violations) >= 3:
            break
        pos = c.where(module, traces[i], cfg)
        ev = traces[i]["ev"]
        c.violation("%s: execution is not a behaviour of the specification %s (par %s): unexplained event %d: %s" % (
            what, module, json.dumps(traces[i].get("par")), pos, json.dumps(ev[pos - 1]) if 0 < pos <= len(ev) else "-"),
            {"trace": traces[i], "position": pos}, key=k)
    return bad
