"""P17: a proposal of a language model is accepted only when proved."""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    T = vlib.THOROUGH
    c.tlc_ok("LlmLoop", env={"GEN_MODE": "model", "L_TRIES": 2}, timeout=3000)
    out = c.tlc_ok("LlmLoop", cfg="LlmLoopGen.cfg", env={"GEN_MODE": "gen", "L_TRIES": 3}, simulate=20000 if T else 4000, depth=60, workers=1)
    runs = list({json.dumps(x): x for x in vlib.printed(out, "RUN")}.values())
    if len(runs) < 800:
        raise vlib.Machinery("only %d behaviours" % len(runs))
    parts = [runs[i::8] for i in range(8)]

    def part(i):
        inp, res = c.path("r%d.json" % i), c.path("o%d.json" % i)
        with open(inp, "w") as f:
            json.dump(parts[i], f)
        c.pypy("h_llmloop.py", inp, res, c.path("s%d" % i))
        return json.load(open(res))["cases"]
    with ThreadPoolExecutor(8) as ex:
        cases = [x for p in ex.map(part, range(8)) for x in p]
    with open(c.path("all.json"), "w") as f:
        json.dump({"cases": cases}, f)
    vs = vlib.printed(c.tlc_ok("LlmLoop", cfg="Check0.cfg", env={"GEN_MODE": "check", "L_TRIES": 1, "CASES": c.path("all.json")}), "VERDICT")
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d behaviours" % (len(vs), len(cases)))
    n = {}
    for i, v in vs:
        k = cases[i]
        key = "%s with %s%s" % (k["res"]["out"], k["cfg"]["how"], " (ended early)" if k["res"]["crashed"] and k["res"]["asks"] != [a[0] for a in k["asks"]] else "")
        n[key] = n.get(key, 0) + 1
        if v != "ok":
            c.violation("P17: %s: %s %s" % (v, json.dumps({x: k[x] for x in ("cfg", "asks")}), k["res"]["err"]), k)
        elif i % 200 == 0:
            c.sample({x: k[x] for x in ("cfg", "asks", "out", "res")})
    c.traces = len(vs)
    c.extra.update({"behaviours": len(runs), "outcomes": n})
    c.assume = ["The reader of proposals is replaced here (P16 checks it).", "Where a verifier or a proposal breaks down the run may go on with the next attempt or end with a failure."]


vlib.run("P17", main)
