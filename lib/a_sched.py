"""Scheduled tasks: C16 (start/stop once), C17 (fixed delay), C18 (fixed rate), C19 (cancellation and finality)."""
from vlib import *

MC = """SPECIFICATION Spec
CONSTANTS
  Threads = {threads}
  Kinds = {kinds}
  Is = {iss}
  Ts = {ts}
  Ops = {ops}
  Eager = {eager}
  MaxTime = {maxtime}
  MaxJobs = {maxjobs}
  MaxCalls = {maxcalls}
VIEW View
CHECK_DEADLOCK FALSE
{extra}
"""
INV = "INVARIANTS NoOverlap Delays Rate NoneSkipped OnlyStarted CancelExact Final NoWedge"
TRACE = """SPECIFICATION Spec
CONSTANTS
  Sch = {sch}
  AnyIv = {any}
  Can = {can}
  Fin = {fin}
CONSTRAINT Acc
CHECK_DEADLOCK FALSE
"""
KINDS = {"C16": '{"delay","rate"}', "C17": '{"delay"}', "C18": '{"rate"}', "C19": '{"delay","rate"}'}
OPS = {"C16": '{"start","mstart","stop","mstop"}', "C17": '{"start"}', "C18": '{"start"}', "C19": '{"start","stop"}'}
ASPECTS = {"C16": (1, 1, 0, 0), "C17": (1, 0, 0, 0), "C18": (1, 0, 0, 0), "C19": (0, 0, 1, 1)}


def mc(pid, threads="{1,2}", iss="{1,2,3}", ts="{1,2,3}", eager="FALSE", maxtime=6, maxjobs=7, maxcalls=3, extra=INV):
    return MC.format(kinds=KINDS[pid], ops=OPS[pid], threads=threads, iss=iss, ts=ts, eager=eager, maxtime=maxtime, maxjobs=maxjobs,
                     maxcalls=maxcalls, extra=extra)


def rounds(c, walk, p):
    """Group the operations of a walk that happen at one instant into rounds that race."""
    out = [{"d": 0, "th": []}]
    for a in walk["acts"]:
        if a["k"] == "tick":
            out.append({"d": 1, "th": []})
        else:
            if len(out[-1]["th"]) >= 3 or c.rng.random() < p:
                out.append({"d": 0, "th": []})
            op = dict(a["op"])
            if op.get("j") == 0:
                del op["j"]
            out[-1]["th"].append(op)
    return [r for r in out if r["d"] or r["th"]]


def main(pid):
    c = Ctx(pid, "sched")
    g = {}

    def spec():
        q = {"C16": dict(iss="{2}", ts="{1}", maxtime=3, maxcalls=4), "C17": dict(maxtime=7, maxjobs=8), "C18": dict(maxtime=4, maxjobs=5),
             "C19": dict(iss="{1,2}", ts="{1,2}", maxtime=3, maxjobs=4)}[pid]
        t = {"C16": dict(iss="{1,2}", ts="{1,2}", maxtime=4, maxcalls=5, threads="{1,2,3}"), "C17": dict(maxtime=10, maxjobs=10),
             "C18": dict(maxtime=6, maxjobs=7), "C19": dict(maxtime=5, maxjobs=6)}[pid]
        c.model_check("SchedMC", mc(pid, **c.pick(q, t)), timeout=850, workers=c.pick(4, 8), mem=c.pick("4g", "12g"))

    def scripts():
        g["s"] = c.simulate("SchedMC", mc(pid, threads="{1,2,3}", iss="{1,2,3,4,5,6}", ts="{1,2,3,4,5,7}", eager="TRUE", maxtime=60, maxjobs=60,
                                          maxcalls=6, extra="ACTION_CONSTRAINT PrintSim"), c.pick(150, 1500), c.pick(30, 60))

    parallel(spec, scripts, lambda: c.build(["schedule"]))
    sc = []
    for w in g["s"]:
        rs = rounds(c, w, c.rng.choice([0, .5, 1]))
        if not any("start" in o["o"] for r in rs for o in r["th"]):
            continue
        if pid in ("C16", "C19"):
            rs = [{"d": 0, "th": [{"o": "start"}]}] * c.rng.choice([0, 1]) + rs
        par = dict(w["par"], fail=c.rng.random() < .5 and pid != "C16")
        if c.rng.random() < .2:
            par["u"] = c.rng.choice([7, 1000, 10**9, 3600 * 10**9])
        par["pol"] = c.rng.choice([["manual"]] * 3 + [["obey"], ["inst", "manual", "obey"]])
        sc.append({"par": par, "rounds": rs + tail_rounds(par)})
    sc += FAM[pid](c)
    c.rng.shuffle(sc)
    traces, execs = c.harness_par("TestRounds", {"Scripts": sc, "Bound": 1, "DFS": c.pick(12, 60), "Rand": c.pick(16, 80)}, timeout=800)
    sch, any_, can, fin = ("TRUE" if x else "FALSE" for x in ASPECTS[pid])
    judge(c, "scheduled task", "SchedTrace", traces, TRACE.format(sch=sch, any=any_, can=can, fin=fin))
    c.cov["executions"] = execs
    c.cov["instrumented"] = c.instrumented
    return c.finish()


def R(d, *th):
    return {"d": d, "th": [({"o": x} if isinstance(x, str) else x) for x in th]}


def E(j):
    return {"o": "end", "j": j}


def tail_rounds(par):
    """Time enough for whatever is still pending to show."""
    return [R(1) for _ in range(par["i"] + 2)] + [R(0, *[E(j) for j in range(k, k + 6)]) for k in (1, 7, 13)] + [R(1) for _ in range(par["i"] + 2)]


def params(c, kinds, n):
    l = [{"kind": k, "i": i, "t": t, "pol": p, "fail": f} for k in kinds for i in (1, 2, 3, 5) for t in (1, 2, 3, 4, 8, 10**9)
         for p in (["inst"], ["obey"], ["inst", "obey"], ["obey", "inst", "inst"], ["manual"]) for f in (False, True)]
    c.rng.shuffle(l)
    return l[:n]


def fam_once(c):
    """Many starts and stops at one instant, from outside and from inside jobs, before, during and after the life of a task."""
    out = []
    S, P, MS, MP = "start", "stop", "mstart", "mstop"
    for kind in ("delay", "rate"):
        for i, pol in ((2, ["inst"]), (1, ["inst"]), (3, ["manual"]), (2, ["obey"])):
            par = {"kind": kind, "i": i, "t": 2, "pol": pol, "fail": False}
            run = [R(1), R(1), R(1), R(1)]
            for a in ((S,), (S, S), (S, MS, S), (P, S), (P, S, S), (MP, MS, P)):
                for b in ((P,), (P, P), (MP, P, MP), (S, P), (S, MS), ({"o": S, "j": 1}, {"o": P, "j": 1}), ({"o": P, "j": 1}, P)):
                    out.append({"par": par, "rounds": [R(0, *a), R(0, S)] + run[:c.rng.randint(0, 4)] + [R(1, *b)] + run[:3] + [R(0, S, P), R(0, MS)] + tail_rounds(par)})
    c.rng.shuffle(out)
    return out[:c.pick(100, 400)]


def fam_sched(kinds):
    def f(c):
        """Long runs with jobs of many durations and results."""
        out = []
        for par in params(c, kinds, c.pick(60, 400)):
            rs = [R(0, "start")]
            j = 1
            for _ in range(c.pick(25, 60)):
                th = []
                for _ in range(c.rng.choice([0, 0, 1, 1, 2])):
                    th.append(E(c.rng.randint(max(1, j - 3), j + 1)))
                    if c.rng.random() < .6:
                        j += 1
                rs.append(R(1, *th))
            if c.rng.random() < .5:
                rs += [R(1, *[E(k) for k in range(1, 5)])]
            out.append({"par": dict(par, u=c.rng.choice([0, 0, 0, 5, 10**6, 10**9])), "rounds": rs})
        # many jobs, with fixed rates also many at once
        for kind in kinds:
            for pol in (["inst"], ["manual"], ["inst", "manual"]):
                n = c.pick(150, 600) if pol == ["inst"] or kind == "rate" else 6
                out.append({"par": {"kind": kind, "i": 1, "t": 10**9, "pol": pol, "fail": True}, "rounds": [R(0, "start")] + [R(1)] * n + [R(0, *[E(k) for k in range(1, n)])] + [R(1)] * 6})
        return out
    return f


def fam_stop(c):
    """A stop at every moment of the schedule, alone or at the instant of a tick, a timeout or an end of a job."""
    out = []
    for par in params(c, ("delay", "rate"), c.pick(40, 160)):
        for k in range(0, 2 * par["i"] + 2):
            for at in (0, 1):
                j = 1 + k // max(1, par["i"])
                th = c.rng.choice([["stop"], ["stop"], ["stop", E(j)], [E(j), "stop"], [{"o": "stop", "j": j}]])
                rs = [R(0, "start")] + [R(1) for _ in range(k)]
                if c.rng.random() < .4 and par["pol"] == ["manual"]:
                    rs[-1] = R(rs[-1]["d"], *(rs[-1]["th"] + [E(1), E(2)]))
                rs += [R(at, *th), R(1), R(0, E(j), E(j + 1))]
                out.append({"par": par, "rounds": rs + tail_rounds(par)})
        if par["pol"] == ["manual"]:
            out.append({"par": par, "rounds": [R(0, "start", "stop")] + tail_rounds(par)})
    c.rng.shuffle(out)
    return out[:c.pick(160, 1500)]


FAM = {"C16": fam_once, "C17": fam_sched(("delay",)), "C18": fam_sched(("rate",)), "C19": fam_stop}
