"""P06: simplify, rewrite, map_args, count_variable_uses, == on every generated term."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen
import vlib


def main(c):
    fns, terms, n, substs = None, None, None, None
    fns, terms, n = gen.terms(c, "IBLMNXSTU", [], 6000 if vlib.THOROUGH else 300, modes=("pairs", "bools"))
    substs = gen.last_substs
    json.dump(substs, open(c.path("substs.json"), "w"))
    json.dump({"terms": terms, "substs": substs, "formstep": 5, "window": 40}, open(c.path("terms.json"), "w"))
    c.pypy("h_ops.py", c.path("terms.json"), c.path("cases.json"))
    J = json.load(open(c.path("cases.json")))
    for f in J["failed"]:
        c.violation("P06: %s: %s" % (gen.label(f["term"]), f["what"]), f)
    out = c.tlc_ok("ExprOps", env={"CASES": c.path("cases.json"), "SUBSTS": c.path("substs.json")})
    vs = vlib.printed(out, "VERDICT")
    want = len(J["cases"]) + len(J["wins"]) + len(J["forms"])
    if len(vs) != want:
        raise vlib.Machinery("verdicts for %d of %d items" % (len(vs), want))
    by = {x["id"]: x for x in J["cases"]}
    for kind, i, v in vs:
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("reference semantics rejects %s: %s" % (gen.label(terms[i]), v))
        if v != "ok":
            if kind == "win":
                c.violation("P06: %s" % v, None)
            else:
                c.violation("P06: %s: %s" % (gen.label(terms[i]), v), by.get(i))
    c.traces = len(vs)
    for x in J["cases"][::len(J["cases"]) // 4]:
        c.sample({"term": gen.label(x["term"]), "counts": x["counts"]})
    c.extra.update({"terms_operated_on": len(J["cases"]), "equality_pairs_compared": sum(len(w["ids"]) ** 2 for w in J["wins"]),
                    "declarations_rebuilt": len(J["forms"]), "substitutions_per_term": len(substs)})
    c.assume = ["Reference meaning as in P03; equality of expressions is compared to equality of trees without types.",
                "Counts of Let-bound names are not compared (a binder is counted by the library)."]


vlib.run("P06", main)
