"""P10: the Rosette guess-and-verify loop returns only verified candidates and always ends."""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    T = vlib.THOROUGH
    # the machine itself, exhaustively: safety and termination
    c.tlc_ok("RosLoop", env={"GEN_MODE": "model", "R_ROUNDS": 2 if T else 1}, timeout=3000 if T else 300)
    out = c.tlc_ok("RosLoop", cfg="RosLoopGen.cfg", env={"GEN_MODE": "gen", "R_ROUNDS": 4 if T else 3}, simulate=8000 if T else 1200, depth=80, workers=1)
    runs = list({json.dumps(x): x for x in vlib.printed(out, "RUN")}.values())
    if len(runs) < 300:
        raise vlib.Machinery("only %d behaviours" % len(runs))
    parts = [runs[i::8] for i in range(8)]

    def part(i):
        inp, res = c.path("r%d.json" % i), c.path("o%d.json" % i)
        with open(inp, "w") as f:
            json.dump(parts[i], f)
        c.pypy("h_rosloop.py", inp, res, c.path("s%d" % i))
        return json.load(open(res))["cases"]
    with ThreadPoolExecutor(8) as ex:
        cases = [x for p in ex.map(part, range(8)) for x in p]
    with open(c.path("all.json"), "w") as f:
        json.dump({"cases": cases}, f)
    vs = vlib.printed(c.tlc_ok("RosLoop", cfg="Check0.cfg", env={"GEN_MODE": "check", "R_ROUNDS": 0, "CASES": c.path("all.json")}), "VERDICT")
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d behaviours" % (len(vs), len(cases)))
    n = {}
    for i, v in vs:
        k = cases[i]
        key = "%s of %d rounds" % (k["out"], k["cfg"]["rounds"] + 1)
        n[key] = n.get(key, 0) + 1
        if v != "ok":
            c.violation("P10: %s: %s" % (v, json.dumps({x: k[x] for x in ("cfg", "trace")})), k)
        elif i % 40 == 0:
            c.sample({x: k[x] for x in ("cfg", "trace", "out", "idx")})
    c.traces = len(vs)
    c.extra.update({"behaviours": len(runs), "outcomes": n})
    c.assume = ["A solution file appears at once with its whole content.", "The synthesiser process ends eventually.",
                "When the synthesiser dies after writing solutions, both using them and failing are accepted."]


vlib.run("P10", main)
