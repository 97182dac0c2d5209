"""argv: programs.json cases.json scratchdir -- runs the Python front end on every program."""
import inspect
import json
import os
import sys

import mlload  # noqa: F401
import pyrender
from mypy import build as mbuild
from mypy.nodes import FuncDef, WhileStmt
from readback import rb, tstr

from metalift import ir
from metalift.frontend import python as fe
from metalift.frontend.python import Driver
from metalift.synthesize_rosette import synthesize as real_synthesis

real_build, memo = mbuild.build, {}


def build_once(sources, *a, **k):
    key = tuple(s.path for s in sources)
    if key not in memo:
        memo[key] = real_build(sources, *a, **k)
    return memo[key]


mbuild.build = build_once
T = {"I": ir.Int, "L": ir.List[ir.Int], "S": ir.Set[ir.Int]}
CODE = {tstr(v): k for k, v in T.items()}
CODE[tstr(ir.Bool)] = "B"


def obj(name, t):
    return ir.Int(name) if t == "I" else ir.List(ir.Int, name) if t == "L" else ir.Set(ir.Int, name)


def back(e, names):
    k, pl, a = e[0], e[1], [back(x, names) for x in e[2]]
    return [k, names.get(pl, pl) if k == "call" else pl, a]


def nodes(e):
    return [e] + [y for x in e[2] for y in nodes(x)]


def pexpr(e, env):
    k, pl, a = e[0], e[1], e[2]
    if k == "var":
        return env[pl]
    if k == "int":
        return ir.Int(pl)
    xs = [pexpr(x, env) for x in a]
    if k == "chain":
        c = [{"lt": x < y, "gt": x > y, "le": x <= y, "ge": x >= y, "eq": x == y}[o] for o, x, y in zip(pl, xs, xs[1:])]
        return c[0].And(*c[1:])
    if k in ("and", "or"):
        return xs[0].And(*xs[1:]) if k == "and" else xs[0].Or(*xs[1:])
    if k == "neg":
        return 0 - xs[0]
    if k == "llen":
        return xs[0].len()
    if k == "lget":
        return xs[0][xs[1]]
    if k == "tuple":
        return ir.make_tuple(*xs)
    if k == "tget":
        return xs[0][pl]
    if k == "call":
        return ir.call(pl, ir.Int, *xs)
    return {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": lambda x, y: x // y, "lt": lambda x, y: x < y,
            "gt": lambda x, y: x > y, "le": lambda x, y: x <= y, "ge": lambda x, y: x >= y, "eq": lambda x, y: x == y}[k](*xs)


def run(p, path, loops):
    c = {"err": "", "asserts": [], "vars": {}, "loops": {}, "prog": p, "lang": "py",
         "ptypes": {f["name"]: {v: t for t in f["types"] for v in f["types"][t]} for f in p["fns"]}}
    def inv_grammar(writes, reads, in_scope):
        return ir.Bool(True)
    try:
        d = Driver()
        fs = {}
        for f in p["fns"]:
            fs[f["name"]] = d.analyze(path, f["name"], lambda: [], inv_grammar, lambda w, r, s: ir.Bool(True), uninterp_fns=["g"])
        env = {n: obj(n, t) for n, t in p["vars"]}
        for o in env.values():
            d.add_var_object(o)
        if p["pre"][0] != "none":
            d.add_precondition(pexpr(p["pre"], env))
        for cl in p["calls"]:
            env[cl["res"]] = fs[cl["fn"]](*[env[a] for a in cl["args"]])
        names = {}
        for ast, pr in d.inv_tracker.predicates.items():
            if isinstance(ast, FuncDef):
                names[pr.name] = "ps:" + ast.name
            else:
                i = loops[ast.line]
                names[pr.name] = "inv%d" % i
                nm = lambda q: [o.var_name() for o in q]  # noqa: E731
                c["loops"][str(i)] = {"args": nm(pr.args), "writes": nm(pr.writes), "reads": nm(pr.reads), "scope": nm(pr.in_scope)}
        # what the driver hands to the synthesis entry point
        k = {}
        fe.run_synthesis = lambda *a, **kw: k.update(inspect.signature(real_synthesis).bind(*a, **kw).arguments) or []
        d.synthesize()
        if {s.args[0] for s in k["inv_and_ps"]} != set(names):
            raise Exception("other functions to synthesise than the conditions' predicates")
        # the parameters are those of the functions handed to synthesis, in their order
        for s in k["inv_and_ps"]:
            n, ps = names[s.args[0]], [a.args[0] for a in s.args[2:]]
            if n.startswith("inv"):
                c["loops"][n[3:]]["args"] = ps
            else:
                given = next(f["ps"] for f in p["fns"] if "ps:" + f["name"] == n)
                if ps[:-1] != given or len(s.args[2:]) != len(given) + 1:
                    raise Exception("the summary to be synthesised is over %s" % " ".join(ps))
        c["asserts"] = [back(rb(k["vc"]), names)]
        c["vars"] = {v.name(): CODE.get(tstr(v.type), tstr(v.type)) for v in k["vars"]}
    except Exception as e:
        c["err"] = "%s: %s" % (type(e).__name__, str(e)[:80].replace("\n", " "))
    return c


def main():
    with open(sys.argv[1]) as f:
        progs = json.load(f)
    r = pyrender.Render()
    for p in progs:
        for f in p["fns"]:
            r.fn(f, p["seed"])
    path = os.path.join(sys.argv[3], "programs.py")
    with open(path, "w") as f:
        f.write("\n".join(r.lines))
    so = sys.stdout
    with open(os.devnull, "w") as n:
        sys.stdout = n
        cases = [run(p, path, r.loops) for p in progs]
        sys.stdout = so
    with open(sys.argv[2], "w") as f:
        f.write(json.dumps({"cases": cases}))


main()
