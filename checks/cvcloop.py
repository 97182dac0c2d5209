"""P11: the CVC5 synthesis loop returns only the verified solution and always ends."""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen
import vlib


def sygus(n):
    """a term CVC5 can have in a candidate: its operators take two operands, and the query's own integer functions are not declared to it"""
    return n[0] != "iexp" and not (n[0] in ("add", "mul", "and", "or") and len(n[2]) < 2) and all(sygus(x) for x in n[2])


def read(c):
    """candidates printed in CVC5's way mean the same after they are read"""
    fns, terms, npairs = gen.terms(c, "IBSTU", [], 6000 if vlib.THOROUGH else 300)
    terms = [t for t in terms if sygus(t)]
    step = 1 if vlib.THOROUGH else 3
    # all pairs are in three parts, the seed says which
    terms = [t for i, t in enumerate(terms) if i % step == vlib.SEED % step or i >= npairs]

    def part(j):
        with open(c.path("t%d.json" % j), "w") as f:
            json.dump({"fns": fns, "terms": terms[j::8]}, f)
        c.pypy("h_cvcread.py", c.path("t%d.json" % j), c.path("o%d.json" % j), c.path("rs%d" % j), timeout=800)
        return json.load(open(c.path("o%d.json" % j)))
    with ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(part, range(8)))
    cases = []
    for j, p in enumerate(parts):
        for b in p["bad"]:
            c.violation("P11: candidate %s not read: %s" % (b["printed"] or gen.label(terms[j::8][b["id"]]), b["bad"]), b)
        cases += [dict(x, id=x["id"] * 8 + j) for x in p["cases"]]
    with open(c.path("cases.json"), "w") as f:
        json.dump({"cases": cases, "smt": parts[0]["smt"], "sigs": parts[0]["sigs"]}, f)
    vs = vlib.printed(c.tlc_ok("CvcRead", env={"CASES": c.path("cases.json")}, timeout=800), "VERDICT")
    if len({v[0] for v in vs}) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d candidates" % (len(vs), len(cases)))
    byid = {x["id"]: x for x in cases}
    for i, hits, v in vs:
        x = byid[i]
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("reference semantics rejects %s: %s" % (gen.label(x["term"]), v))
        if v != "ok":
            c.violation("P11: candidate %s is read as %s ; %s" % (x["printed"], x["shown"], v), x)
    c.traces += len(cases)
    for x in cases[:2]:
        c.sample({"candidate": x["printed"], "read": x["shown"]})
    c.extra.update({"candidates_read": len(cases), "operator_pairs": npairs, "evaluations_compared": sum(v[1] for v in vs)})


def loop(c):
    T = vlib.THOROUGH
    c.tlc_ok("CvcLoop", env={"GEN_MODE": "model", "C_LINES": 6 if T else 4}, timeout=1500)
    out = c.tlc_ok("CvcLoop", cfg="CvcLoopGen.cfg", env={"GEN_MODE": "gen", "C_LINES": 8}, simulate=8000 if T else 1500, depth=14, workers=1)
    runs = list({json.dumps(x): x for x in vlib.printed(out, "RUN")}.values())
    if len(runs) < 300:
        raise vlib.Machinery("only %d behaviours" % len(runs))
    with open(c.path("runs.json"), "w") as f:
        json.dump(runs, f)
    c.pypy("h_cvcloop.py", c.path("runs.json"), c.path("lcases.json"), c.path("s"))
    cases = json.load(open(c.path("lcases.json")))["cases"]
    vs = vlib.printed(c.tlc_ok("CvcLoop", cfg="Check0.cfg", env={"GEN_MODE": "check", "C_LINES": 0, "CASES": c.path("lcases.json")}), "VERDICT")
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d behaviours" % (len(vs), len(cases)))
    n = {}
    for i, v in vs:
        k = cases[i]
        n[k["res"]["out"]] = n.get(k["res"]["out"], 0) + 1
        if v != "ok":
            c.violation("P11: %s: %s %s" % (v, json.dumps({x: k[x] for x in ("cfg", "lines", "code")}), k["res"]["err"]), k)
        elif i % 60 == 0:
            c.sample({x: k[x] for x in ("cfg", "lines", "code", "res")})
    c.traces += len(vs)
    c.extra.update({"behaviours": len(runs), "outcomes": n})


def main(c):
    with ThreadPoolExecutor(2) as ex:
        for f in [ex.submit(loop, c), ex.submit(read, c)]:
            f.result()
    c.assume = ["The last candidate line is the solution's (cvc5 prints a line for every candidate it considers).", "The synthesiser process ends eventually."]


vlib.run("P11", main)
