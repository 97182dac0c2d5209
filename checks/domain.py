"""P18: the inputs of bounded synthesis cover exactly the intended domain."""
import json
import os
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    out = c.tlc_ok("Domain", env={"GEN_MODE": "gen", "GEN_FULL": "1" if vlib.THOROUGH else "0"}, workers=1, extra=["-seed", str(vlib.SEED)])
    cfgs = list({json.dumps(x): x for x in vlib.printed(out, "CFG")}.values())
    if len(cfgs) < 80:
        raise vlib.Machinery("only %d configurations" % len(cfgs))
    parts = [cfgs[i::8] for i in range(8)]

    def part(i):
        inp, res = c.path("c%d.json" % i), c.path("o%d.json" % i)
        with open(inp, "w") as f:
            json.dump(parts[i], f)
        c.pypy("h_domain.py", inp, res, c.path("s%d" % i))
        return json.load(open(res))["cases"], vlib.printed(
            c.tlc_ok("Domain", env={"GEN_MODE": "check", "GEN_FULL": "0", "CASES": res}, workers=1, timeout=3000 if vlib.THOROUGH else 800), "VERDICT")
    skipped = 0
    with ThreadPoolExecutor(8) as ex:
        for cases, vs in ex.map(part, range(8)):
            if len(vs) != len(cases):
                raise vlib.Machinery("verdicts for %d of %d programs" % (len(vs), len(cases)))
            c.traces += len(vs)
            for i, v, sk in vs:
                k = cases[i]
                skipped += sk
                if v != "ok":
                    c.violation("P18: bound %d, %s: %s" % (k["bound"], json.dumps(k["vars"]), v), {x: k[x] for x in ("vars", "bound", "unbounded", "verify", "rounds", "err")})
                elif i % 9 == 0:
                    c.sample({x: k[x] for x in ("vars", "bound", "unbounded", "verify", "rounds")})
    c.extra.update({"configurations": len(cfgs), "with_a_variable_too_large_to_enumerate": skipped})
    c.assume = ["Racket's take, list, sort and remove-duplicates as the specification defines them; a length out of range stops the program, so it is no input.",
                "Integer entries range over {0,1} and lengths over -1..bound+1; larger types are decided with every input given its own value.",
                "Matrices and tensors have rows of exactly the bound's width; sets hold integers."]


vlib.run("P18", main)
