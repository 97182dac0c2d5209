"""P09: solution files are read back with the meaning of the printed text."""
import concurrent.futures
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen
import vlib


def main(c):
    fns, terms, npairs = gen.terms(c, "IBLMNXSTU", [], 8000 if vlib.THOROUGH else 500, modes=("pairs", "solver"))
    out = c.tlc_ok("SolGen", simulate=3000 if vlib.THOROUGH else 400, depth=6, workers=1)
    lays, seen = [], set()
    for x in vlib.printed(out, "LAYOUT"):
        s = json.dumps(x)
        if s not in seen:
            seen.add(s)
            lays.append(x)
    # neighbouring terms are much alike: spread them over the layouts
    terms = [terms[i] for k in range(7) for i in range(k, len(terms), 7)]
    json.dump({"fns": fns, "terms": terms}, open(c.path("terms.json"), "w"))
    json.dump(lays, open(c.path("lay.json"), "w"))

    def part(j):
        c.pypy("h_readsol.py", c.path("terms.json"), c.path("lay.json"), c.path("cases%d.json" % j), c.path("scratch%d" % j), j, 8, timeout=800)
        return json.load(open(c.path("cases%d.json" % j)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(part, range(8)))
    cases = [x for p in parts for x in p["cases"]]
    bad = [x for p in parts for x in p["bad"]]
    for b in bad:
        c.violation("P09: %s not read back: %s" % (gen.label(terms[b["id"]]), b["bad"]), b)
    json.dump({"cases": cases, "rkt": parts[0]["rkt"], "smt": parts[0]["smt"], "sigs": parts[0]["sigs"]}, open(c.path("cases.json"), "w"))
    out = c.tlc_ok("ReadBack", env={"CASES": c.path("cases.json")}, timeout=800)
    verdicts = vlib.printed(out, "VERDICT")
    if len({v[0] for v in verdicts}) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d cases" % (len(verdicts), len(cases)))
    byid, evals = {x["id"]: x for x in cases}, 0
    for i, hits, v in verdicts:
        evals += hits
        x = byid[i]
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("reference semantics rejects %s: %s" % (gen.label(x["term"]), v))
        if v != "ok":
            c.violation("P09: %s is read back as %s ; %s" % (x["printed"] or gen.label(x["term"]) + " (not printed)", x["shown"], v), x)
    c.traces = len(cases)
    for x in cases[:2] + cases[-3:]:
        c.sample({"printed": x["printed"], "read_back": x["shown"]})
    c.extra.update({"layouts": len(lays), "operator_pairs": npairs, "evaluations_compared": evals,
                    "functions_left_out_of_the_file": sum(1 for x in cases if not x["printed"])})
    c.assume = ["A solution file has the layout of Rosette's print-forms: a position line, then the definition, continuation lines indented.",
                "The meaning of Racket text is that of spec/RktSem.tla with the shipped runtime library."]


vlib.run("P09", main)
