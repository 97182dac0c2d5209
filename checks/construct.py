"""P20: construction accepts exactly the well-typed operations; in-place operations change only their object."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    open(c.path("none.json"), "w").write('{"cases": []}')
    cases = vlib.printed(c.tlc_ok("Construct", env={"GEN_MODE": "gen", "CASES": c.path("none.json")}, workers=1), "CASE")
    hists = []
    for k in ("L", "M", "N"):
        hs = vlib.printed(c.tlc_ok("InPlace", env={"GEN_KIND": k}, workers=1), "HIST") if vlib.THOROUGH else \
            vlib.printed(c.tlc_ok("InPlace", env={"GEN_KIND": k}, simulate=60, depth=6, workers=1), "HIST")
        for h in hs:
            h["kind"] = k
            hists.append(h)
    open(c.path("cases.json"), "w").write(json.dumps(cases))
    open(c.path("hists.json"), "w").write(json.dumps(hists))
    c.pypy("h_construct.py", c.path("cases.json"), c.path("hists.json"), c.path("out.json"))
    J = json.load(open(c.path("out.json")))
    out = c.tlc_ok("Construct", env={"GEN_MODE": "check", "CASES": c.path("out.json")})
    vs = vlib.printed(out, "VERDICT")
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d constructions" % (len(vs), len(cases)))
    n = {"yes": 0, "no": 0, "open": 0}
    for i, v, e in vs:
        n[e] += 1
        if v != "ok":
            c.violation("P20: %s(%s): %s" % (cases[i]["op"], ", ".join(cases[i]["args"]), v), J["cases"][i])
    for h, g in zip(hists, J["hists"]):
        if g["err"]:
            c.violation("P20: in-place history %s on %s: raises %s" % (h["hist"], h["kind"], g["err"]), h)
        elif g["now"] != h["now"]:
            c.violation("P20: in-place history %s on %s: the objects hold %s instead of %s" % (h["hist"], h["kind"], g["now"], h["now"]), h)
        elif g["taken"] != h["taken"] or not g["kept"]:
            c.violation("P20: in-place history %s on %s: expressions taken earlier changed" % (h["hist"], h["kind"]), h)
    c.traces = len(vs) + len(hists)
    for x in vs[:: len(vs) // 5]:
        c.sample({"construction": cases[x[0]], "expected": x[2]})
    c.extra.update({"constructions_accepted": n["yes"], "constructions_rejected": n["no"], "left_open": n["open"], "in_place_histories": len(hists)})
    c.assume = ["Operands are variables, plain Python integers/Booleans and literals; deeper operands are covered by P03's terms.",
                "Calls, list indices and bounds, and the two sides of Eq are not type-checked by the library (left open)."]


vlib.run("P20", main)
