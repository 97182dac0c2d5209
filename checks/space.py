"""P21: the search spaces of the tensor library hold the candidates they are meant to."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def go(c):
    deep = "1" if vlib.THOROUGH else "0"
    c.pypy("h_space.py", c.path("space.json"), deep)
    J = json.load(open(c.path("space.json")))
    for f in J["failed"]:
        c.violation("P21: " + f, None)
    out = c.tlc_ok("Space", env={"CASES": c.path("space.json"), "SP_DEEP": deep, "SP_SEED": str(vlib.SEED)}, timeout=860)
    for what, v in vlib.printed(out, "BAD"):
        c.violation("P21: %s: %s" % (what, v), None)
    sizes = vlib.printed(out, "SIZE")
    c.traces = len(J["exprs"]) + len(J["synths"]) + len(J["trips"]) + 4 + 3 * sum(len(f["orders"]) for f in J["families"])
    c.extra.update({"expression_spaces": len(J["exprs"]), "candidates_compared_or_sampled": sum(s[1] for s in sizes), "families": len(J["families"])})
    if not J["exprs"] or not J["families"]:
        if not J["failed"]:
            raise vlib.Machinery("nothing was built")
    else:
        c.sample({"space": J["exprs"][min(2, len(J["exprs"]) - 1)]["what"]})
        c.sample({"family": J["families"][0]["what"]})
    c.assume = ["Nesting up to two is compared exactly over one or two integer operands; deeper spaces are judged on sampled expressions (whose scalars are sums, differences, products and quotients when they scale a vector).",
                "Division, roots, exponentials and the mapped function are uninterpreted in the comparison: spaces are compared for every meaning of them up to accidental agreement modulo a prime.",
                "Inputs of the kernels have equal shapes, at least two rows and as many rows as columns where a space mentions the number of rows only (the general spaces); loops over columns are judged on square inputs.",
                "What a slice means beyond the operand is left open."]


vlib.run("P21", go)
