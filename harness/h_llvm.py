"""argv: chunks.json cases.json -- runs the LLVM front end on compiled programs.
chunks: [{ll, loops, progs: [program]}]"""
import functools
import inspect
import json
import os
import sys
from collections import defaultdict

import mlload  # noqa: F401
from crender import loops as source_loops
from readback import rb, tstr

from metalift import ir
from metalift.frontend import llvm as fe
from metalift.synthesize_rosette import synthesize as real_synthesis

if hasattr(fe, "get_full_demangled_name"):
    fe.get_full_demangled_name = functools.lru_cache(None)(fe.get_full_demangled_name)
T = {"I": ir.Int, "L": ir.List[ir.Int], "S": ir.Set[ir.Int], "B": ir.Bool}
CODE = {tstr(v): k for k, v in T.items()}


def obj(name, t):
    return ir.Int(name) if t == "I" else ir.List(ir.Int, name) if t == "L" else ir.Set(ir.Int, name)


def back(e, names):
    k, pl, a = e[0], e[1], [back(x, names) for x in e[2]]
    if k == "call" and pl in names:
        nm, order = names[pl]
        return ["call", nm, [a[i] for i in order] if order and len(order) == len(a) else a]
    return [k, pl, a]


def pexpr(e, env):
    k, pl, a = e[0], e[1], e[2]
    if k == "var":
        return env[pl]
    if k == "int":
        return ir.Int(pl)
    xs = [pexpr(x, env) for x in a]
    if k in ("and", "or"):
        return xs[0].And(*xs[1:]) if k == "and" else xs[0].Or(*xs[1:])
    if k == "not":
        return xs[0].Not()
    if k == "neg":
        return 0 - xs[0]
    if k == "llen":
        return xs[0].len()
    if k == "lget":
        return xs[0][xs[1]]
    if k == "call":
        return ir.call(pl, ir.Int, *xs)
    return {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x // y, "mod": lambda x, y: x % y,
            "lt": lambda x, y: x < y, "gt": lambda x, y: x > y, "le": lambda x, y: x <= y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y}[k](*xs)


def run(p, ll, loops):
    c = {"err": "", "asserts": [], "vars": {}, "loops": {}, "prog": p, "lang": "c",
         "ptypes": {f["name"]: {v: t for t in f["types"] for v in f["types"][t]} for f in p["fns"]}}
    seed = p["seed"]
    try:
        d = fe.Driver()
        env = {n: obj(n, t) for n, t in p["vars"]}
        for o in env.values():
            d.add_var_object(o)
        if p["pre"][0] != "none":
            d.add_precondition(pexpr(p["pre"], env))
        names, asked = {}, {}
        for f in p["fns"]:
            ty = {v: t for t in f["types"] for v in f["types"][t]}
            allv = sorted(ty)
            named = [allv, [], allv[:len(allv) // 2]][seed % 3]
            over = [obj(v, ty[v]) for v in reversed(allv)] if seed % 5 == 0 else []
            offers = {}

            def inv_grammar(writes, reads, in_scope, relaxed):
                return ir.Bool(True)
            g = fe.InvGrammar(inv_grammar, list(named), over)
            gs = defaultdict(lambda g=g: g) if seed % 2 else {"%s_inv%d" % (f["name"], i): g for i in range(9)}
            mf = d.analyze(ll, loops, f["name"], lambda: [], gs, lambda w, r, s, relaxed: ir.Bool(True))
            ids = source_loops(f["body"])
            heads = [l.header.name for l in mf.loops]
            layout = [b for b in mf.fn_blocks if b in heads]
            mf(*[env[a] for a in f["ps"]], uninterp_fns=["g"])
            if len(ids) != len(heads):
                raise Exception("%d loops found, %d in the source" % (len(heads), len(ids)))
            for i, h in enumerate(heads):
                asked["%s_inv%d" % (f["name"], i)] = (ids[layout.index(h)], named, [o.var_name() for o in over])
            offers.clear()
        nm = lambda q: [o.var_name() for o in q]  # noqa: E731
        fns = {f["name"]: f for f in p["fns"]}
        for pr in d.pred_tracker.predicates.values():
            s = pr.gen_synth(False)
            decl = [a.args[0] for a in s.args[2:]]
            if decl != nm(pr.args):
                raise Exception("the function to be synthesised has other arguments than the predicate")
            if pr.name in asked:
                i, named, over = asked[pr.name]
                names[pr.name] = ("inv%d" % i, None)
                c["loops"][str(i)] = {"args": nm(pr.args), "writes": nm(pr.writes), "reads": nm(pr.reads), "scope": nm(pr.in_scope), "named": named, "over": over}
            else:
                f = fns[pr.name[:-3]]
                a = nm(pr.args)
                names[pr.name] = ("ps:" + f["name"], [a.index(x) for x in f["ps"]] + [len(a) - 1])
        # what the driver hands to the synthesis entry point
        k = {}
        fe.run_synthesis = lambda *a, **kw: k.update(inspect.signature(real_synthesis).bind(*a, **kw).arguments) or []
        d.synthesize("t")
        if {s.args[0] for s in k["inv_and_ps"]} != set(names):
            raise Exception("other functions to synthesise than the conditions' predicates")
        c["asserts"] = [back(rb(k["vc"]), names)]
        c["vars"] = {v.name(): CODE.get(tstr(v.type), tstr(v.type)) for v in k["vars"]}
    except Exception as e:
        c["err"] = "%s: %s" % (type(e).__name__, str(e)[:80].replace("\n", " "))
        if os.environ.get("TRACE"):
            import traceback
            traceback.print_exc()
    return c


def main():
    with open(sys.argv[1]) as f:
        chunks = json.load(f)
    cases = []
    so = sys.stdout
    with open(os.devnull, "w") as n:
        sys.stdout = n
        for ch in chunks:
            for p in ch["progs"]:
                cases.append(run(p, ch["ll"], ch["loops"]))
        sys.stdout = so
    with open(sys.argv[2], "w") as f:
        f.write(json.dumps({"cases": cases}))


main()
