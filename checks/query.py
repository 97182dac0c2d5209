"""P12: the assembled verification query means the negated condition for the candidates."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def shape(p):
    return "lang %s, candidates %s, %d axioms" % (" ".join(f["name"] for f in p["lang"]), " ".join(f["name"] for f in p["cands"]), len(p["axioms"]))


def go(c):
    out = c.tlc_ok("QueryGen", env={"Q_NUM": "1500" if vlib.THOROUGH else "150"}, extra=("-fp", "1", "-seed", str(vlib.SEED)), workers=1)
    seen, ps = set(), []
    for p in vlib.printed(out, "PROBLEM"):
        s = json.dumps(p, sort_keys=True)
        if s not in seen:
            seen.add(s)
            ps.append(p)
    open(c.path("problems.json"), "w").write(json.dumps(ps))
    os.mkdir(c.path("scratch"))
    c.pypy("h_query.py", c.path("problems.json"), c.path("cases.json"), c.path("scratch"))
    J = json.load(open(c.path("cases.json")))
    for f in J["failed"]:
        c.violation("P12: %s: no query: %s" % (shape(ps[f["id"]]), f["what"]), {"problem": ps[f["id"]], **f})
    if not J["cases"]:
        return
    texts = {x["id"]: x.pop("text") for x in J["cases"]}
    open(c.path("cases.json"), "w").write(json.dumps(J))
    out = c.tlc_ok("Query", env={"CASES": c.path("cases.json"), "PROBLEMS": c.path("problems.json")})
    vs = vlib.printed(out, "VERDICT")
    if len({v[0] for v in vs}) != len(J["cases"]):
        raise vlib.Machinery("verdicts for %d of %d cases" % (len(vs), len(J["cases"])))
    for i, v in vs:
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("reference semantics rejects %s: %s" % (shape(ps[i]), v))
        if v != "ok":
            c.violation("P12: %s: %s" % (shape(ps[i]), v), {"problem": ps[i], "query": texts[i]})
    c.traces = len(vs)
    for x in J["cases"][:2]:
        c.sample({"problem": shape(ps[x["id"]]), "commands": len(x["cmds"])})
    c.extra.update({"problems": len(ps), "query_commands": sum(len(x["cmds"]) for x in J["cases"])})
    c.assume = ["Candidates and conditions are compared under six assignments of the free variables; quantified axioms under the same assignments."]


vlib.run("P12", go)
