"""P16: what the reader of language-model proposals accepts means what it means in Python."""
import json
import os
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import vlib


def main(c):
    T = vlib.THOROUGH
    total = 8000 if T else 1000
    start = 1 + (vlib.SEED - 1) * 20000
    out = c.tlc_ok("PyGen", env={"P_FROM": start, "P_TO": start + total - 1}, workers=1)
    lib, progs = vlib.printed(out, "LIB")[0], vlib.printed(out, "PROG")
    if len(progs) < total:
        raise vlib.Machinery("only %d programs" % len(progs))
    repo = os.environ.get("ML_REPO", "/repo")
    parts = [progs[i::8] for i in range(8)]

    def part(i):
        d = c.path("s%d" % i)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for m in ("metalift", "llmlift_scripts"):
            shutil.copytree(os.path.join(repo, m), os.path.join(d, m), ignore=shutil.ignore_patterns("__pycache__", "*.pyc", "verification_with_testing"))
        inp, res = c.path("p%d.json" % i), c.path("r%d.json" % i)
        with open(inp, "w") as f:
            json.dump({"lib": lib, "progs": parts[i]}, f)
        c.pypy("h_pyread.py", inp, res, d, timeout=14000 if T else 800)
        shutil.rmtree(d, ignore_errors=True)
        got = json.load(open(res))
        for p in got:
            p["fns"] = [x for x in p["fns"]]
        with open(c.path("c%d.json" % i), "w") as f:
            json.dump({"lib": lib, "cases": [{"id": p["id"], "fns": p["fns"], "back": p["back"]} for p in got]}, f)
        vs = vlib.printed(c.tlc_ok("ReadPy", env={"CASES": c.path("c%d.json" % i)}, workers=1, timeout=14000), "VERDICT")
        if len(vs) != len(got):
            raise vlib.Machinery("verdicts for %d of %d programs" % (len(vs), len(got)))
        return got, vs
    with ThreadPoolExecutor(8) as ex:
        done = list(ex.map(part, range(8)))
    byid = {p["id"]: p for g, _ in done for p in g}
    vs = [v for _, w in done for v in w]
    rejected, judged, hits, why = 0, 0, 0, {}
    for i, n, v in vs:
        p = byid[i]
        if v == "rejected":
            rejected += 1
            k = "".join(x if not x.isdigit() else "" for x in p["back"]["err"])[:60]
            why[k] = why.get(k, 0) + 1
        elif v != "ok":
            c.violation("P16: %s\n%s" % (v, p["text"]), p)
        else:
            judged += 1
            hits += n
            if i % 100 == 0:
                c.sample({"text": p["text"], "assignments": n})
    c.traces = len(vs)
    c.extra.update({"programs": len(vs), "rejected": rejected, "accepted": judged, "assignments compared": hits,
                    "reasons to reject": dict(sorted(why.items(), key=lambda x: -x[1])[:12])})
    if judged < total // 8 or hits < total:
        raise vlib.Machinery("only %d of %d programs accepted (%d assignments)" % (judged, total, hits))
    c.assume = ["`/` between integers is not generated (the reader takes it for integer division by design).",
                "Where the intermediate language fixes no value (negative run-time indices and bounds, division of negative numbers) nothing is compared.",
                "Library functions mean their Python bodies."]


vlib.run("P16", main)
