"""argv: problems.json out.json scratch -- assembles the verification query of every problem with the real verify_synth_result."""
import inspect
import json
import os
import sys
import traceback

import mlload
import sexp
import terms
from metalift import ir, synthesis_common

src, out, scratch = sys.argv[1:4]
U = os.path.join(mlload.REPO, "metalift", "utils")
fake = os.path.join(scratch, "cvc5")
with open(fake, "w") as f:
    f.write("#!/bin/sh\necho unsat\n")
os.chmod(fake, 0o755)
sys.stdout = open(os.devnull, "w")

theory = []
for f in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt", "map-axioms.smt"):
    theory += sexp.parse_all(open(os.path.join(U, f)).read())
theory = [json.dumps(t) for t in theory]


def fvs(n, acc):
    if n[0] == "var":
        acc.setdefault(n[1], n[3])
    for x in n[2]:
        fvs(x, acc)
    return acc


def run(p, i):
    lang = [terms.build_fn(f["name"], f) for f in p["lang"]]
    axs = [ir.Axiom(terms.build(a["body"]), *[ir.Var(v, terms.ty(t)) for v, t in zip(a["vars"], a["ts"])]) for a in p["axioms"]]
    cands = [terms.build_fn(f["name"], f) for f in p["cands"]]
    vs = fvs(p["cond"], {})
    vs["unused_v"] = "L"
    fns_type = {f.name(): f.type for f in lang}
    fns_type.update({c.name(): c.type for c in cands})
    vc = terms.ex(terms.build(p["cond"]))
    res = synthesis_common.verify_synth_result(
        "case%d" % i, lang + axs, {ir.Var(n, terms.ty(t)) for n, t in vs.items()}, [], vc,
        [ir.Var(c.name(), c.type) for c in cands], fake, scratch + "/", cands,
        {c.name(): c.body() for c in cands}, fns_type, i)
    path = [f for f in os.listdir(scratch) if f.startswith("case%d_" % i) and f.endswith(".smt")]
    text = open(os.path.join(scratch, path[0])).read()
    forms, kept, left = sexp.parse_all(text), [], list(theory)
    for f in forms:
        j = json.dumps(f)
        if j in left:
            left.remove(j)
            kept.append(f)
    used = [json.dumps(f) for f in kept]
    rest = []
    for f in forms:
        j = json.dumps(f)
        if j in used:
            used.remove(j)
        else:
            rest.append(f)
    return {"id": i, "answer": res[0], "cmds": rest, "text": text[-4000:], "vars": vs, "theory": len(kept),
            "thtext": "\n".join(sexp.show(f) for f in kept)}


res, failed, th = [], [], None
for i, p in enumerate(json.load(open(src))):
    try:
        r = run(p, i)
        t = r.pop("thtext")
        env = sexp.smt_env(t)
        if th is None:
            th = {"sigs": env["sigs"], "defs": env["defs"]}
        res.append(r)
    except Exception as exn:
        tb = traceback.extract_tb(exn.__traceback__)[-1]
        failed.append({"id": i, "what": "%s: %s (%s)" % (type(exn).__name__, exn, tb.name)})
open(out, "w").write(json.dumps({"cases": res, "failed": failed, "th": th}))
