"""P03, P04, P05: emitted SMT, Rosette and Python text means the term."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen
import vlib

# operators a back end does not offer (they raise, or name a function the back end has no definition of)
TENSOR = []
PY_SKIP = ["LetI", "LetIB", "LetL", "LetIL", "Implies", "o.implies", "EqS", "IteS", "CallTupleGet0", "CallTupleGet1", "CallTupleGet3B",
           "CallTupleGet3I", "o.tget0", "o.tget1", "o.tget3B", "o.concat", "o.leq", "o.col_slice", "o.col_slice##", "o.col_slicelen",
           "o.col_slicelen##", "o.col_vec", "o.transpose", "IntExp", "CallMember", "CallSubset", "CallTup"]
CONF = {
    "P03": ("smt", "IBLMNSTU", []),
    "P04": ("rkt", "IBLMNXSTU", []),
    "P05": ("py", "IBLMNTU", PY_SKIP),
}


label = gen.label


def main(prop):
    be, types, skip = CONF[prop]

    def go(c):
        fns, terms, npairs = gen.terms(c, types, skip, 6000 if vlib.THOROUGH else 400)
        json.dump({"fns": fns, "terms": terms}, open(c.path("terms.json"), "w"))
        c.pypy("h_text.py", be, c.path("terms.json"), c.path("cases.json"))
        J = json.load(open(c.path("cases.json")))
        for f in J["failed"]:
            c.violation("%s: no %s text for %s: %s" % (prop, be, label(f["term"]), f["what"]), f)
        out = c.tlc_ok("TextCheck", env={"CASES": c.path("cases.json"), "BACKEND": be})
        byid = {x["id"]: x for x in J["cases"]}
        evals, shapes = 0, set()
        verdicts = vlib.printed(out, "VERDICT")
        if len({v[0] for v in verdicts}) != len(J["cases"]):
            raise vlib.Machinery("verdicts for %d of %d cases" % (len(verdicts), len(J["cases"])))
        for i, hits, v in verdicts:
            evals += hits
            x = byid[i]
            if v.startswith("SPECERROR"):
                raise vlib.Machinery("reference semantics rejects %s: %s" % (label(x["term"]), v))
            if v != "ok":
                c.violation("%s: %s prints as %s ; %s" % (prop, label(x["term"]), x["shown"], v), x)
            elif hits:
                shapes.add(x["shown"])
        c.traces = len(verdicts)
        for x in J["cases"][:2] + J["cases"][-3:]:
            c.sample({"term": label(x["term"]), "text": x["shown"]})
        c.extra.update({"operator_pairs": npairs, "evaluations_compared": evals,
                        "distinct_texts_with_defined_meaning": len(shapes), "emission_failures": len(J["failed"])})
        c.assume = ["Reference meaning leaves open: division/modulo with negative operands, out-of-range reads, negative slice bounds.",
                    "Integers are compared up to magnitude 20000."]
    vlib.run(prop, go)


main(sys.argv[1])
