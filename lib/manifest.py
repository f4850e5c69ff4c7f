"""Writes /verif/MANIFEST.json from the table below (developer tool; the result is committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification checked with TLC; conformance by replaying specification-generated scripts and scheduler-controlled executions of the real code and validating the recorded traces against the specification with TLC"
NOTE = "The specification is checked exhaustively within the bounds of the configuration; the real code is bound to it on every transition of a small instance, random walks of a larger one and %s. Trusted: TLC, the trace recorder, the fake clock of testing/synctest%s. Not a proof for executions outside those explored."
SCHED = "scheduler-enumerated interleavings (preemption bounded and randomized) of the instrumented code"
REDIS = "schedules of the server's execution order, against an in-process Redis that interprets the scripts the code loads"
FR = ", the in-process Redis (commands, expiry, Lua subset)"
CL = {
    "C01": (SCHED, ""), "C02": (SCHED, ""), "C03": (SCHED, ""), "C04": (SCHED, ""), "C05": (SCHED, ""), "C06": (SCHED, ""), "C07": (SCHED, ""), "C08": (SCHED, ""), "C09": (SCHED, ""), "C10": (SCHED, ""), "C11": (REDIS, FR), "C12": (REDIS, FR), "C13": (SCHED, ""), "C14": (SCHED, ""), "C15": (SCHED, ""), "C16": (SCHED, ""), "C17": (SCHED, ""), "C18": (SCHED, ""), "C19": (SCHED, ""), "C20": (SCHED, ""), "C21": (SCHED, ""), "C22": (SCHED, ""), "C23": ("sequential scripts with restarts, persistence faults and a Redis stand-in", ", the in-process Redis"), "C24": (SCHED, ""), "C25": ("every short text, walks of the text machines and mutations of well-formed texts", ""), "C32": ("every short key text of the specification and mutations of well-formed ones", ", crypto/x509 and encoding/pem"),
    "C29": ("every configured client and a share of all client-server pairs in real TLS handshakes", ", crypto/tls, the in-memory connections"),
    "C30": ("every handler chain up to a length with every tracer kind, and simulated mixes of nested operations", ", go2sky, fasthttp routing and client, go-redis, the scripted Redis server"),
    "C31": ("operation pairs exhaustively and simulated mixes of nested, concurrent operations", ", go2sky, fasthttp routing and client, go-redis, the scripted Redis server"),
    "C33": ("every kind of configuration in every printed form with several secrets of the same lengths", ""),
    "C34": ("every way to start of the specification with many texts and random walks of connection use against stand-in servers", ", the stand-in servers (MySQL, PostgreSQL, Redis, HTTP on loopback; for Oracle connections below the driver's own reading of the connection text), the drivers, database/sql; real time (generous margins)"),
    "C35": ("random histories of requests, answers and pauses with many configurations", ", the HTTP library's client, the in-memory connections"),
    "C36": ("random struct types and sources, one of which cannot be understood, each in a process of its own", ", reflect, flag and gopkg.in/yaml.v3"),
    "C37": ("every combination of options with single operations exhaustively and simulated mixes of nested, concurrent operations with long texts", ", go2sky, fasthttp routing and client, go-redis, the scripted Redis server"),
    "C39": ("simulated histories of making, changing and printing configurations of every kind in many printed forms", ""),
    "C38": ("simulated histories of several tracers and segments against real gRPC servers on loopback", ", go2sky and its gRPC reporter, google.golang.org/grpc"),
    "C28": ("every request of the small instance against both frameworks, random credentials and mutations of them", ", encoding/base64"),
    "C26": ("random struct types (reflect.StructOf) and sources", ", reflect and gopkg.in/yaml.v3"), "C27": ("random struct types (reflect.StructOf) and sources with decoy names", ", reflect and gopkg.in/yaml.v3"),
}
NA = {
}


def main():
    props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in CL:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % i,
                           "technique": TV, "level": "model_checking", "level_note": NOTE % CL[i]})
        else:
            na.append({"property": i, "reason": NA.get(i, "No check yet: work in progress.")})
    m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "checks": checks, "not_applicable": na,
         "notes": "All instrumentation is applied to a copy of /repo's working tree when a check builds (cmd/instr); /repo carries no hooks."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)


main()
