"""Clients of databases, Redis and Elasticsearch: C34."""
from urllib.parse import quote_plus
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  SimLen = {simlen}
  Pars <- {pars}
  Holders = {{{holders}}}
  MaxConns = {maxc}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
TRACE = "SPECIFICATION Spec\nCONSTRAINT Acc\nCHECK_DEADLOCK FALSE\n"
INV = "INVARIANTS Limit Alone Kept Young AtRest Vetted Working"
LOCS = ["", "", "UTC", "Asia/Shanghai", "America/New_York", "Local"]
PLAIN = list("abcxyzABC0189_-.")
ODD = list("@:/?#&=%+ ,;'\"\\()[]{}!$*<>|~^`éß日\t")
MYOPT = ["time_zone", "sql_mode", "autocommit", "wait_timeout", "group_concat_max_len", "max_execution_time", "tx_isolation", "init_connect"]
PGOPT = ["application_name", "search_path", "timezone", "statement_timeout", "lock_timeout", "app.tenant", "role", "work_mem"]


HOOK = """package go_ora

import (
	"database/sql/driver"
	"fmt"
)

type VerifWant struct {
	User, Password, Service, Sid, Instance string
	Servers                                []string
	Timeout, Prefetch                      int
}

var VerifHook func(VerifWant) (driver.Conn, error)

func verifConnect(name string) (driver.Conn, error) {
	c, err := newConnectionStringFromUrl(name)
	if err != nil {
		return nil, err
	}
	o := c.connOption
	w := VerifWant{User: o.UserID, Password: c.password, Service: o.ServiceName, Sid: o.SID, Instance: o.InstanceName, Timeout: int(o.SessionInfo.Timeout), Prefetch: o.PrefetchRows}
	for _, s := range o.Servers {
		w.Servers = append(w.Servers, fmt.Sprintf("%s:%d", s.Addr, s.Port))
	}
	return VerifHook(w)
}
"""


def oracle_hook(h, env):
    """There is no Oracle server here: the driver understands the connection text as ever, but its connections are the harness's."""
    d = subprocess.run([GO, "list", "-mod=mod", "-m", "-f", "{{.Dir}}", "github.com/sijms/go-ora/v2"], cwd=h, env=env, stdout=subprocess.PIPE, text=True).stdout.strip()
    src = open(d + "/connection.go").read()
    new = re.sub(r"(func \(\w+ \*Oracle(?:Driver|Connector)\) (?:Open|Connect)\((?:ctx|name) [\w.]+\) \(driver.Conn, error\) \{\n)",
                 lambda m: m[1] + "\tif VerifHook != nil {\n\t\treturn verifConnect(%s)\n\t}\n" % ("name" if ") Open(" in m[1] else "connector.connectString"), src)
    if new.count("return verifConnect") != 2:
        raise CheckError("the Oracle driver is not the expected one")
    o = os.path.join(os.path.dirname(h), "ora")
    shutil.rmtree(o, ignore_errors=True)
    shutil.copytree(d, o, copy_function=shutil.copyfile)
    for f, t in (("connection.go", new), ("zz_verif_hook.go", HOOK)):
        open(os.path.join(o, f), "w").write(t)
    with open(os.path.join(h, "go.mod"), "a") as f:
        f.write("\nreplace github.com/sijms/go-ora/v2 => ../ora\n")


def mc(pars="Small", simlen=0, maxc=5, holders="1, 2, 3", extra=INV):
    return MC.format(pars=pars, simlen=simlen, maxc=maxc, holders=holders, extra=extra)


def main(pid):
    c = Ctx(pid, "conn")
    g = {}
    starts = []
    r = c.rng

    def spec():
        c.model_check("ConnMC", mc(maxc=c.pick(4, 7)), timeout=850, workers=4)

    def ways():
        out = c.model_check("ConnMC", mc("Begin", extra=INV + "\nACTION_CONSTRAINT PrintPar\nCONSTRAINT OnlyStart"), timeout=300, workers=1)
        for ln in out.splitlines():
            if ln.startswith('"TXT '):
                starts.append(json.loads(json.loads(ln)[4:]))

    def walks():
        g["s"] = c.simulate("ConnMC", mc("All", c.pick(22, 40), 10**6, '"a","b","c","d","e"', extra="ACTION_CONSTRAINT PrintSim"), c.pick(150, 1200), c.pick(22, 40))

    parallel(spec, ways, walks, lambda: c.build([], prepare=oracle_hook))

    def text(n, odd=.4, bad=""):
        s = "".join(r.choice(ODD if r.random() < odd else PLAIN) for _ in range(n))
        for b in bad:
            s = s.replace(b, "x")
        return s

    def some(kind, what):
        n = r.choice([1, 2, 5, 8, 16, 33])
        odd = r.choice([0, .2, .6, 1])
        if what == "user":
            # a MySQL or Basic user name ends at the first colon
            return "" if kind == "redis" else text(n, odd, "" if kind == "pg" else ":")
        if what == "pw":
            # Elasticsearch: no password, no user
            return text(r.choice([0, n, n, n]) if kind != "es" else n, odd)
        if kind == "ora":
            sv, sid = text(n, odd, "/|").strip(), text(n, odd, ",|").strip()
            return r.choice([sv + "|", "|" + sid, sv + "|" + sid]) if sv and sid else "orcl|"
        if kind in ("mysql", "pg"):
            return "" if kind == "mysql" and r.random() < .1 else text(n, odd, "/?" if kind == "mysql" else "")
        return str(r.randrange(16)) if kind == "redis" else "here"

    def other(x, kind, what):
        while True:
            y = r.choice([some(kind, what), x.upper(), x[:-1], x + "x", x.strip()])
            if kind == "ora" and what == "db":
                y = r.choice([some(kind, what), some(kind, what), "|"])
            if kind == "es" and y == "":
                continue
            if kind == "redis" and what == "db":
                y = some(kind, what)
            if y != x and not (y == "" and what == "user" and kind != "redis"):
                return y

    def dress(p, pool):
        """A script for the parameters p of the specification: texts instead of letters, and what the specification leaves out."""
        k, cf, sv = p["kind"], p["conf"], p["srv"]
        s = {"Par": p, "Tracer": k in ("mysql", "pg", "ora") and r.random() < .4, "Cust": cf["cust"]["what"] != "none" or r.random() < .5,
             "Host": r.choice(["127.0.0.1", "localhost"]), "Dial": 0, "Times": [0, 0, 0], "Params": ""}
        if pool and k == "redis":
            s["Cust"] = True
        m = {}
        for w in ("user", "pw", "db"):
            m[w] = some(k, w)
        if k == "es" and cf["cust"]["what"] == "none" and r.random() < .15:
            m["user"] = m["pw"] = ""
        cw, cv = cf["cust"]["what"], ""
        o = {w: other(m[w], k, w) for w in ("user", "pw", "db")}
        if k == "es":
            o["db"] = m["db"]
            if m["user"] == "":
                o["pw"] = "x"
        for w, srv in (("user", sv["user"]), ("pw", sv["pw"]), ("db", sv["dbs"][0])):
            # the letters of the specification: x is another text
            t = o[w] if srv == "x" else m[w]
            if w == "db":
                sv["dbs"] = [t]
            else:
                sv[w] = t
            cf[w] = m[w]
        if cw in o:
            cv = o[cw]
        elif cw == "opt":
            cv = text(r.choice([1, 6, 15]), r.choice([0, .5]), "," if k == "ora" else "")
            if k == "ora":
                cv = cv.strip() or "i"
        cf["cust"] = {"what": cw, "val": cv}
        cf["opts"] = []
        if not cf["loc"] and k == "mysql":
            cf["loc"] = r.choice(LOCS)
        if k in ("mysql", "pg"):
            names = r.sample(MYOPT if k == "mysql" else PGOPT, r.choice([0, 1, 2, 3, 5]))
            if cw == "opt" and "application_name" in names:
                names.remove("application_name")
            ps = []
            for nm in names:
                v = text(r.choice([1, 3, 9, 20]), r.choice([0, .4, 1]))
                if k == "mysql":
                    v = str(r.randrange(10**6)) if r.random() < .4 else "'" + v.replace("'", "") + "'"
                cf["opts"].append([nm, v])
                ps.append(nm + "=" + (quote_plus(v) if r.random() < .7 else quote_plus(v, safe="/:@,;()'\"").replace("+", "%20")))
            if k == "pg":
                ps.insert(r.randrange(len(ps) + 1), "sslmode=disable")
                s["Dial"] = 1 if cf["rt"] == "short" else r.choice([0, 0, 30])
            s["Params"] = "&".join(ps)
        if k == "ora":
            s["Service"], s["Sid"] = cf["db"].split("|")
            s["Servers"] = ",".join("%s:%d" % (r.choice(["rac1", "10.0.0.1", "db.example.org"]), r.choice([1521, 1522, 7001])) for _ in range(r.choice([0, 0, 1, 3])))
            s["Dial"] = 1 if cf["rt"] == "short" else r.choice([0, 0, 1, 2, 3, 30])
            cf["opts"] = [["host", s["Host"]]]
            if s["Servers"]:
                cf["opts"].append(["servers", s["Servers"]])
            if s["Dial"]:
                cf["opts"].append(["timeout", str(s["Dial"])])
            if r.random() < .5:
                n = r.randrange(26, 1000)
                cf["opts"].append(["PREFETCH_ROWS", str(n)])
                s["Params"] = r.choice(["PREFETCH_ROWS=%d", "DUMMY=%%2Fx&PREFETCH_ROWS=%d", "PREFETCH_ROWS=%d&DUMMY=a%%20b"]) % n
            if r.random() < .5 and cw != "opt":
                v = text(5, .5, ",").strip() or "i"
                cf["opts"].append(["application_name", v])
                s["Params"] = "&".join([x for x in [s["Params"]] if x] + ["INSTANCE NAME=" + quote_plus(v)])
        # what cannot be read is left out
        if s["Params"] and r.random() < .3:
            l = s["Params"].split("&")
            l.insert(r.randrange(len(l) + 1), r.choice(["", "foo", "bad=%zz", "bad=%2"]))
            s["Params"] = "&".join(l)
        cf["seen"] = []
        if s["Cust"]:
            h = s["Host"]
            if k == "mysql":
                s["Times"] = [r.choice([0, 30, 60]), r.choice([0, 30, 60, 90]), 0]
                dur = {0: "0s", 30: "30s", 60: "1m0s", 90: "1m30s"}
                see = {"user": cf["user"], "pw": cf["pw"], "db": cf["db"], "net": "tcp", "timeout": dur[s["Times"][0]], "read": {"none": "0s", "short": "1.5s", "long": "1h0m0s"}[cf["rt"]], "write": dur[s["Times"][1]],
                       "typed": "true" if cf["typed"] else "false", "loc": cf["loc"] or "UTC", "host": h}
            elif k == "pg":
                see = {"connect_timeout": str(s["Dial"]) if s["Dial"] else ""}
            elif k == "ora":
                see = {"timeout": str(s["Dial"]) if s["Dial"] else "", "sid": s["Sid"], "servers": s["Servers"]}
            elif k == "redis":
                see = {"pw": cf["pw"], "db": cf["db"], "pool": str(cf["max"]), "min": str(cf["min"]), "host": h}
            else:
                see = {"user": cf["user"], "pw": cf["pw"], "addrs": "true"}
            cf["seen"] = [[a, see[a]] for a in sorted(see)]
        return s

    sc = []
    # every way to start, several times with different texts
    for w in starts:
        slow = w["par"]["srv"]["hang"]
        for _ in range(c.pick(1, 3) if slow else c.pick(3, 25) if w["ok"] else c.pick(1, 6)):
            p = json.loads(json.dumps(w["par"]))
            s = dress(p, False)
            s["Acts"] = [{"K": "want", "H": "a"}, {"K": "free", "H": "a"}]
            sc.append(s)
    # pools
    for w in g["s"]:
        s = dress(w["par"], True)
        acts, slow, typed = [], 0, 0
        for a in w["acts"]:
            if a["k"] == "slow":
                slow += 1
                if slow > 1:
                    continue
            if a["k"] == "typed":
                typed += 1
                if typed > 3:
                    continue
            if a["k"] in ("want", "free", "pass", "typed", "slow"):
                acts.append({"K": a["k"], "H": a.get("h", "")})
        s["Acts"] = acts
        sc.append(s)
    # several addresses
    for i in range(c.pick(6, 40)):
        n = r.choice([2, 3, 5])
        u, p = some("es", "user"), some("es", "pw")
        at = ["n%d" % j for j in range(n)]
        s = {"Par": {"kind": "es2", "conf": {"user": u, "pw": p, "db": at[0], "opts": [], "max": r.choice([0, 3]), "idle": r.choice([0, 1, 3]), "min": 0, "life": "none", "typed": False, "loc": "",
                                             "rt": "none", "seen": [], "cust": {"what": "none", "val": ""}},
                     "srv": {"user": u, "pw": p, "dbs": at, "hang": False, "down": False}},
             "Tracer": False, "Cust": False, "Host": r.choice(["127.0.0.1", "localhost"]), "Dial": 0, "Times": [0, 0, 0], "Params": "",
             "Acts": [{"K": k, "H": "a"} for _ in range(2 * n) for k in ("want", "free")]}
        sc.append(s)
    r.shuffle(sc)
    o = c.harness("TestConn", {"Scripts": sc, "Par": 32}, timeout=c.pick(200, 800))
    judge(c, "client", "ConnTrace", o["traces"], TRACE)
    c.cov["executions"] = o["execs"]
    c.cov["ways_to_start"] = len(starts)
    return c.finish()
