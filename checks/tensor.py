"""P14: the shipped tensor operators compute what their names state, and their axioms are true of them."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def go(c):
    deep = "1" if vlib.THOROUGH else "0"
    rows = vlib.printed(c.tlc_ok("Tensor", env={"TENSOR_MODE": "ops", "TENSOR_DEEP": deep}), "OPS")[0]
    open(c.path("ops.json"), "w").write(json.dumps(rows))
    os.mkdir(c.path("scratch"))
    c.pypy("h_tensor.py", c.path("ops.json"), c.path("lib"), c.path("scratch"))
    for f in json.load(open(c.path("lib.failed.json"))):
        c.violation("P14: " + f, None)
    s0 = c.states
    for mode in ("smt", "rkt", "py"):
        p = c.path("lib.%s.json" % mode)
        if not os.path.exists(p):
            continue
        J = json.load(open(p))
        if mode == "smt":
            axs = len(J["axioms"])
            c.extra.update({"axioms": axs, "definitions_sort_checked": len(J["tdefs"])})
            if axs == 0:
                raise vlib.Machinery("no axioms found in the emitted query")
        out = c.tlc_ok("Tensor", env={"CASES": p, "TENSOR_MODE": mode, "TENSOR_DEEP": deep}, timeout=850)
        for kind, name, v in vlib.printed(out, "BAD"):
            c.violation("P14: %s %s%s %s" % (mode, {"ax": "", "op": "", "sort": "the definition of ", "listed": "function "}[kind], name, v), {"kind": kind})
    c.traces = (c.states - s0) // 2
    c.extra["operators"] = len(rows)
    c.sample({"operator": rows[0]})
    c.assume = ["Operands have matching shapes (equal lengths and rows, at least one column where columns are read); division is judged for non-negative dividends and positive divisors.",
                "Functions passed to operators are three fixed polynomials.", "Three-dimensional tensors exist only for Rosette.", "The Rosette runtime is interpreted by the specification (no Racket here)."]


vlib.run("P14", go)
