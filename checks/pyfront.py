"""P01: the verification conditions of the Python front end against the cut-point machine of spec/Prog.tla."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import pyrender
import vlib


def source(p):
    r = pyrender.Render()
    n = len(r.lines)
    for f in p["fns"]:
        r.fn(f, p["seed"])
    return r.lines[n:] + ["calls %s" % "; ".join("%s=%s(%s)" % (c["res"], c["fn"], ",".join(c["args"])) for c in p["calls"]),
                          "precondition " + ("none" if p["pre"][0] == "none" else pyrender.expr(p["pre"]))]


def main(c):
    n, mv = (20000, 6) if vlib.THOROUGH else (2600, 5)
    base = ((vlib.SEED - 1) * 20000) % 40000
    out = c.tlc_ok("ProgGen", env={"P_LANG": "py", "P_FROM": base + 1, "P_TO": base + n, "P_MAXVARS": mv})
    progs = sorted(vlib.printed(out, "PROG"), key=lambda p: p["seed"])
    open(c.path("progs.json"), "w").write(json.dumps(progs))
    os.mkdir(c.path("scratch"))
    c.pypy("h_pyfront.py", c.path("progs.json"), c.path("cases.json"), c.path("scratch"))
    cases = json.load(open(c.path("cases.json")))["cases"]
    out = c.tlc_ok("FrontCheck", cfg="FrontCheck4.cfg" if vlib.THOROUGH and 0 else None, env={"CASES": c.path("cases.json")}, timeout=800)
    vs = sorted(vlib.printed(out, "VERDICT"))
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d programs" % (len(vs), len(cases)))
    for i, v in vs:
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("%s: %s" % (v, source(progs[i])))
        if v != "ok":
            c.violation("P01: %s: seed %d: %s" % (v, progs[i]["seed"], " | ".join(source(progs[i]))), {"source": source(progs[i]), "conditions": cases[i]["asserts"]})
    c.traces = len(vs)
    for p in progs[:: max(1, len(progs) // 5)]:
        c.sample({"program": source(p)})
    k = lambda f: sum(1 for p in progs if f(p))  # noqa: E731
    t = lambda p: json.dumps(p)  # noqa: E731
    c.extra.update({"programs": len(progs), "with_loops": k(lambda p: '"while"' in t(p)), "with_several_loops": k(lambda p: t(p).count('"while"') > 1),
                    "with_several_calls": k(lambda p: len(p["calls"]) > 1), "with_lists": k(lambda p: '"append"' in t(p)), "with_preconditions": k(lambda p: p["pre"][0] != "none")})
    c.assume = ["Integer variables range over {0,1,2} (thorough {-1,0,1,2}), lists and sets over three values each, when conditions and obligations are compared.",
                "Reads outside a list and division by zero get the same fixed value on both sides.",
                "No list or set has two names in the generated programs."]


vlib.run("P01", main)
