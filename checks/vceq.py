"""P07: equality propagation on every generated verification condition keeps its validity."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def show(n):
    k, pl, a, _ = n
    if k in ("var", "int", "bool"):
        return str(pl)
    return "%s(%s)" % (pl if k == "call" else k, ", ".join(show(x) for x in a))


def main(c):
    env = {"GEN_MODE": "shapes", "GEN_DEEP": "1" if vlib.THOROUGH else "0"}
    ts = vlib.printed(c.tlc_ok("VcTerms", env=env, workers=1), "VC")
    if not vlib.THOROUGH:
        import random
        random.Random(vlib.SEED).shuffle(ts)
        ts = ts[:6000]
    n = len(ts)
    env["GEN_MODE"] = "walk"
    seen = {json.dumps(t) for t in ts}
    for t in vlib.printed(c.tlc_ok("VcTerms", env=env, simulate=20000 if vlib.THOROUGH else 800, depth=12, workers=1), "VC"):
        s = json.dumps(t)
        if s not in seen:
            seen.add(s)
            ts.append(t)
    open(c.path("vcs.json"), "w").write(json.dumps(ts))
    c.pypy("h_vc.py", c.path("vcs.json"), c.path("out.json"), timeout=800)
    J = json.load(open(c.path("out.json")))
    for f in J["failed"]:
        c.violation("P07: %s: %s" % (show(f["term"]), f["what"]), f)
    doms = [(2, 0), (3, 40)] if vlib.THOROUGH else [(2, 0)]
    for dom, sample in doms:
        open(c.path("cases.json"), "w").write(json.dumps({"cases": J["cases"], "dom": dom, "sample": sample}))
        vs = vlib.printed(c.tlc_ok("VcValid", env={"CASES": c.path("cases.json")}), "VERDICT")
        if len(vs) != len(J["cases"]):
            raise vlib.Machinery("verdicts for %d of %d conditions" % (len(vs), len(J["cases"])))
        by = {x["id"]: x for x in J["cases"]}
        for i, v in vs:
            if v != "ok":
                c.violation("P07: %s: %s -> %s: %s" % (by[i]["which"], show(ts[i]), show(by[i]["opt"]), v), by[i])
        c.traces += len(vs)
    changed = sum(1 for x in J["cases"] if show(x["opt"]) != show(x["term"]))
    for x in J["cases"][:: max(1, len(J["cases"]) // 5)]:
        c.sample({"condition": show(x["term"]), "optimised": show(x["opt"])})
    c.extra.update({"conditions_from_shapes": n, "conditions_from_walks": len(ts) - n, "conditions_the_optimiser_changed": changed})
    if changed < len(J["cases"]) // 10:
        raise vlib.Machinery("the optimiser hardly changes anything (%d)" % changed)
    c.assume = ["Validity is judged in every structure with two integers (thorough: also sampled ones with three); functions other than equality are uninterpreted.",
                "Conditions have no binders (Let, lambda) around equalities."]


vlib.run("P07", main)
