"""argv: terms.json out.json -- simplify / substitute / map / count / compare every term with the real library."""
import json
import sys
import traceback

import mlload  # noqa: F401
import terms
from metalift import ir
from readback import raw, rb, tstr

src, out = sys.argv[1:3]
J = json.load(open(src))
SUBS = [{k: v for k, v in s} for s in J["substs"]]
FV = {}


def forms(i, n, e):
    """declarations and wrappers around a term (identity mapping only)"""
    x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
    k = i % 6
    if k == 0:
        return ir.FnDecl("fd", e.type, e, x, y)
    if k == 1:
        return ir.FnDeclRecursive("fr", e.type, e, y, x)
    if k == 2:
        return ir.Axiom(e, x, y)
    if k == 3:
        return ir.Choose(e, terms.ex(terms.build(n)), e)
    if k == 4:
        f = ir.fn_decl("fv", e.type, ir.Var("q9", e.type), ir.Var("a9", e.type), x)
        return ir.CallValue(ir.Var("fv", f.type), e, x)
    return ir.FnDecl("g", ir.Bool, ir.Eq(e, terms.ex(terms.build(n))), y)


cases, failed = [], []
exprs = []
for i, n in enumerate(J["terms"]):
    step = "build"
    try:
        e = terms.ex(terms.build(n))
        b = rb(e, True)
        exprs.append((i, b, e))
        rec = {"id": i, "term": n, "rb": b, "subs": [], "changed": [], "types": []}
        t0 = tstr(e.type)

        def after(what, r):
            if rb(e, True) != b:
                rec["changed"].append(what)
            if r is not None and tstr(r.type) != t0:
                rec["types"].append("%s: %s became %s" % (what, t0, tstr(r.type)))

        step = "simplify"
        s = e.simplify()
        rec["simp"] = rb(s, True)
        after(step, s)
        step = "map identity"
        m = e.map_args(lambda a: a)
        rec["mapid"] = [raw(e), raw(m)]
        rec["mapeq"] = ir.Expr.__eq__(m, e) is True and ir.Expr.__eq__(e, m) is True
        after(step, m)
        step = "count"
        cnt = {}
        e.count_variable_uses(cnt)
        rec["counts"] = sorted([k, v] for k, v in cnt.items())
        after(step, None)
        for si, S in enumerate(SUBS):
            step = "rewrite"
            mp = {k: terms.ex(terms.build(v)) for k, v in S.items()}
            before = {k: rb(v) for k, v in mp.items()}
            r = e.rewrite(mp)
            rec["subs"].append(rb(r, True))
            after("rewrite", r)
            if {k: rb(v) for k, v in mp.items()} != before:
                rec["changed"].append("rewrite changed the substitution")
        step = "hash"
        rec["hashok"] = hash(e) == hash(m) and hash(e) == hash(terms.ex(terms.build(n)))
        cases.append(rec)
    except Exception as exn:
        tb = traceback.extract_tb(exn.__traceback__)[-1]
        failed.append({"id": i, "what": "%s raises %s: %s (%s)" % (step, type(exn).__name__, exn, tb.name), "term": n})
fcases = []
for i, n in enumerate(J["terms"]):
    if i % J["formstep"]:
        continue
    step = "declare"
    try:
        e = terms.ex(terms.build(n))
        d = forms(i // J["formstep"], n, e)
        b = raw(d)
        step = "map identity over a declaration"
        m = d.map_args(lambda a: a)
        fcases.append({"id": i, "term": n, "rb": b, "mapid": raw(m), "mapeq": ir.Expr.__eq__(m, d) is True and ir.Expr.__eq__(d, m) is True,
                       "same": raw(d) == b and tstr(d.type) == tstr(m.type)})
    except Exception as exn:
        failed.append({"id": i, "what": "%s raises %s: %s" % (step, type(exn).__name__, exn), "term": n})
# equality: windows of neighbouring terms (sorted by kind and size), all pairs
W = J["window"]
order = sorted(exprs, key=lambda r: (r[1][0], len(r[1][2]), r[0]))
wins = []
for a in range(0, len(order), W // 2):
    w = order[a:a + W]
    pairs = [[i + 1, j + 1] for i in range(len(w)) for j in range(len(w)) if ir.Expr.__eq__(w[i][2], w[j][2]) is True]
    ne = [[i + 1, j + 1] for i in range(len(w)) for j in range(len(w)) if ir.Expr.__ne__(w[i][2], w[j][2]) is False]
    wins.append({"id": a, "ids": [x[0] for x in w], "trees": [raw(x[2]) for x in w], "eq": pairs, "ne": ne})
open(out, "w").write(json.dumps({"cases": cases, "failed": failed, "wins": wins, "forms": fcases}))
