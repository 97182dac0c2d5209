"""P19: fresh variable names and object sets, over histories enumerated by TLC."""
import itertools
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    def gen(what, n, sim=None):
        env = {"GEN_MODE": "gen", "GEN_WHAT": what, "GEN_LEN": n, "GEN_RANDOM": "1" if sim else "0"}
        hs = vlib.printed(c.tlc_ok("VarSets", env=env, simulate=sim, depth=n + 1 if sim else None, workers=1), "HIST")
        return [list(h) for h in {json.dumps(h): h for h in hs}.values()]
    T = vlib.THOROUGH
    track = gen("track", 4 if T else 3) + gen("track", 10, 4000 if T else 500)
    sets = gen("sets", 1) + gen("sets", 12, 6000 if T else 600)
    n = 12
    coll = [list(o) for k in (0, 1, 2) for o in itertools.product(range(1, n + 1), repeat=k)]
    if T:
        coll += [list(o) for o in itertools.product(range(1, n + 1), repeat=3)]
    open(c.path("hists.json"), "w").write(json.dumps({"track": track, "sets": sets, "coll": coll}))
    c.pypy("h_varsets.py", c.path("hists.json"), c.path("out.json"))
    cases = json.load(open(c.path("out.json")))["cases"]
    vs = vlib.printed(c.tlc_ok("VarSets", env={"GEN_MODE": "check", "GEN_WHAT": "track", "GEN_LEN": 0, "GEN_RANDOM": "0", "CASES": c.path("out.json")}), "VERDICT")
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d histories" % (len(vs), len(cases)))
    for i, v in vs:
        if v != "ok":
            k = cases[i]
            c.violation("P19: %s: %s" % (v, k.get("hist", k.get("objs"))), k)
    c.traces = len(vs)
    for x in vs[:: max(1, len(vs) // 5)]:
        c.sample({"history": cases[x[0]].get("hist", cases[x[0]].get("objs"))})
    c.extra.update({"tracker_histories": len(track), "set_histories": len(sets), "collections": len(coll)})
    c.assume = ["Names are drawn from pools chosen to collide; objects from a pool of 12 with equal structures among them.",
                "Asking the tracker twice for the same plain name and type means the same variable."]


vlib.run("P19", main)
