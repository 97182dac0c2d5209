"""P23: the query put to the verifier for a language model's proposal states the proposal."""
import json
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib

W = 6


def main(c):
    total = 1200 if vlib.THOROUGH else 180
    start = 1 + (vlib.SEED - 1) * 5000
    out = c.tlc_ok("PropGen", env={"P_FROM": start, "P_TO": start + total - 1}, workers=1, timeout=3000)
    lib, ss = vlib.printed(out, "LIB")[0], vlib.printed(out, "SESSION")
    if len(ss) < total:
        raise vlib.Machinery("only %d sessions" % len(ss))
    repo = os.environ.get("ML_REPO", "/repo")

    def part(i):
        d = c.path("s%d" % i)
        os.makedirs(d)
        for m in ("metalift", "llmlift_scripts"):
            shutil.copytree(os.path.join(repo, m), os.path.join(d, m), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "verification_with_testing"))
        inp, res = c.path("p%d.json" % i), c.path("r%d.json" % i)
        with open(inp, "w") as f:
            json.dump({"lib": lib, "sessions": ss[i::W]}, f)
        c.pypy("h_llmquery.py", inp, res, d, timeout=10000 if vlib.THOROUGH else 700)
        shutil.rmtree(d, ignore_errors=True)
        J = json.load(open(res))
        J["lib"] = lib
        for n, k in enumerate(J["cases"]):
            k["id"] = n
        texts = [k.pop("text") for k in J["cases"]]
        vs = []
        if J["cases"]:
            if J["th"] is None:
                J["th"] = {"sigs": {"": [[], ""]}, "defs": {"": [[], ["i", 0]]}}
            with open(res, "w") as f:
                json.dump(J, f)
            vs = vlib.printed(c.tlc_ok("LlmQuery", env={"CASES": res}, workers=1, timeout=10000), "VERDICT")
            if len({v[0] for v in vs}) != len(J["cases"]):
                raise vlib.Machinery("verdicts for %d of %d queries" % (len(vs), len(J["cases"])))
        return J, texts, vs
    with ThreadPoolExecutor(W) as ex:
        done = list(ex.map(part, range(W)))
    hits = dead = 0
    for J, texts, vs in done:
        for i, v in vs:
            k = J["cases"][i]
            if v.startswith("ok "):
                hits += int(v[3:])
                dead += v == "ok 0"
                if i % 12 == 0:
                    c.sample({"session": k["sid"], "rosette": k["rkt"], "assignments": int(v[3:])})
                continue
            run = next(r for r in J["runs"] if r["id"] == k["sid"])
            c.violation("P23: %s (%s)" % (v, "Rosette" if k["rkt"] else "SMT"), {"session": run, "query": texts[i]})
        for r in J["runs"]:
            if r["err"]:
                c.violation("P23: no query for a proposal: %s" % r["err"], r)
    n = sum(len(v) for _, _, v in done)
    c.traces = n
    c.extra.update({"sessions": total, "queries": n, "Rosette queries": sum(k["rkt"] for J, _, _ in done for k in J["cases"]), "assignments compared": hits, "queries without a decided assignment": dead})
    if n < total // 4 or hits < n:
        raise vlib.Machinery("only %d queries, %d assignments" % (n, hits))
    c.assume = ["Where Python gives a proposed function no value, or the reader's expression another one (P16), nothing is compared.",
                "The benchmark's conditions pass arguments in the order of their names, the output last."]


vlib.run("P23", main)
