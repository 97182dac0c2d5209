"""P13: the shipped theories and runtime library compute the operations they stand for."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import sexp
import vlib


def go(c):
    U = os.path.join(vlib.REPO, "metalift", "utils")
    rd = lambda n: open(os.path.join(U, n)).read()  # noqa: E731
    text = "\n".join(rd(n) for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt", "map-axioms.smt"))
    J = sexp.smt_env(text)
    J["data"] = sexp.datatypes(text)
    J["rkt"] = sexp.rkt_defs(rd("utils.rkt"), sexp.rkt_rules(rd("bounded.rkt")))
    open(c.path("cases.json"), "w").write(json.dumps(J))
    for mode in ("smt", "det", "rkt"):
        out = c.tlc_ok("Theory", env={"CASES": c.path("cases.json"), "THEORY_MODE": mode, "THEORY_DEEP": "1" if vlib.THOROUGH else "0"}, timeout=800)
        for kind, name, v in vlib.printed(out, "BAD"):
            c.violation("P13: %s %s %s" % ({"rkt": "runtime", "det": "theory function", "data": "constructor", "ax": ""}.get(kind, "theory"), name, v), {"kind": kind})
    c.traces = c.states // 2
    c.extra.update({"axioms": len(J["axioms"]), "defined_theory_functions": len(J["defs"]), "runtime_functions": len(J["rkt"]), "datatype_constructors": len(J["data"])})
    c.sample({"axiom": sexp.show(J["axioms"][0])})
    c.assume = ["Operations are judged within their domain: indices not negative, reads inside the list, rectangular matrices with at least one column for transposition.",
                "The Rosette runtime is interpreted by the specification (no Racket here); sets are sorted lists of integers."]


vlib.run("P13", go)
