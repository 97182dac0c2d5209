"""argv: out.json deep -- builds the search spaces of the shipped tensor library with the real code and exports them as
graphs: a node is [kind, payload, [indices of earlier nodes]]; equal objects are one node."""
import json
import os
import sys
import traceback

import mlload  # noqa: F401
import readback
from metalift import ir
from metalift.utils.tenspiler import tenspiler_common as TC

out, deep = sys.argv[1], sys.argv[2] == "1"
real_out = sys.stdout
sys.stdout = open(os.devnull, "w")
failed = []


class Dag:
    def __init__(self):
        self.nodes, self.memo, self.keep = [], {}, []

    def add(self, e):
        if isinstance(e, ir.Object):
            e = e.src
        if id(e) in self.memo:
            return self.memo[id(e)]
        self.keep.append(e)
        kind, pl, fields, kids = self.shape(e)
        idx = [self.add(k) for k in kids]
        self.nodes.append([kind, pl, idx])
        self.memo[id(e)] = len(self.nodes)
        return len(self.nodes)

    @staticmethod
    def shape(e):
        if not isinstance(e, ir.Expr):
            return "other", type(e).__name__, "", []
        if isinstance(e, ir.Var):
            return ("fnref" if "Fn[" in str(e.type) or "Fn" == getattr(e.type, "__name__", "") else "var"), e.args[0], "", []
        if isinstance(e, ir.Lit):
            k, pl, _, _ = readback.rb(e)
            return k, pl, "", []
        if type(e) in readback.BIN:
            return readback.BIN[type(e)], "", "", list(e.args)
        if isinstance(e, ir.Call):
            n = e.args[0]
            return (readback.CALL[n], "", "", list(e.args[1:])) if n in readback.CALL else ("call", n, "", list(e.args[1:]))
        return "form", type(e).__name__, "", []


def graph(e):
    d = Dag()
    d.add(e)
    return d.nodes


def attempt(what, f):
    try:
        return f()
    except Exception as exn:
        tb = traceback.extract_tb(exn.__traceback__)[-1]
        failed.append("%s cannot be built: %s: %s (%s)" % (what, type(exn).__name__, exn, tb.name))
        return None


tn = lambda t: readback.tstr(t)  # noqa: E731


def decl(f):
    """a declaration or a function to synthesise"""
    body = f.args[1] if isinstance(f, ir.Synth) else f.body()
    ps = f.args[2:] if isinstance(f, ir.Synth) else f.arguments()
    return {"name": f.args[0], "ps": [[p.args[0], tn(p.type)] for p in ps], "ret": tn(body.type) if isinstance(f, ir.Synth) else tn(f.return_type()),
            "open": body is None}


class Driver:
    def __init__(self):
        self.vars = []

    def add_var_objects(self, os_):
        self.vars += [o.var_name() for o in os_]

    def add_var_object(self, o):
        self.vars.append(o.var_name())


def leaves(ls):
    os_ = [ir.Int(v) for v in ls]
    return ir.choose(*os_) if len(os_) > 1 else os_[0]


V, M, A = ir.List(ir.Int, "v"), ir.Matrix(ir.Int, "m"), ir.Matrix(ir.Int, "A")
LEAVES = [["x"], ["x", "y"], ["x", "y", 32]]
exprs = []
for ls in LEAVES:
    for d in range(5 if deep else 4):
        e = attempt("integers over %s to depth %d" % (ls, d), lambda: graph(TC.get_int_expr_eq_or_below_depth(leaves(ls), d)))
        if e:
            exprs.append({"kind": "int", "what": "integers over %s to depth %d" % (ls, d), "ls": [str(x) for x in ls], "d": d, "t": "I", "mv": False, "g": e})
        e = attempt("conditionals over %s to depth %d" % (ls, d), lambda: graph(TC.get_cond_expr_eq_or_below_depth(leaves(ls), d)))
        if e:
            exprs.append({"kind": "cond", "what": "conditionals over %s to depth %d" % (ls, d), "ls": [str(x) for x in ls], "d": d, "t": "I", "mv": False, "g": e})
        for t, leaf in (("L", V), ("M", M)):
            for mv in (False, True):
                w = "%s over %s to depth %d%s" % ("vectors" if t == "L" else "matrices", ls, d, ", with a further matrix" if mv else "")
                kw = dict(matrix_or_vec_var=leaf, int_var=leaves(ls), depth=d)
                if mv:
                    kw["additional_matrix"] = A
                e = attempt(w, lambda: graph(TC.get_matrix_or_vec_expr_eq_or_below_depth(**kw)))
                if e:
                    exprs.append({"kind": "tensor", "what": w, "ls": [str(x) for x in ls], "d": d, "t": t, "mv": mv, "g": e})

# functions to synthesise: what they may be
synths = []


def synth_case(what, want, f):
    s = attempt(what, f)
    if s is not None:
        synths.append({"what": what, "want": want, "d": decl(s), "g": graph(s.args[1])})


synth_case("the elementwise function", "map", lambda: TC.get_map_int_to_int_synth())
for h in ("darken_blend_8", "lighten_blend_8", "color_burn_8", "color_dodge_8", "overlay_blend_8"):
    synth_case("the selection of %s" % h, h, lambda: TC.get_select_synth_from_hole(Driver(), getattr(TC, h + "_hole_body")))

# loop bounds
asc, lo, hi, i3 = ir.Bool("asc"), ir.Int("left"), ir.Int("right"), ir.Int("third")
bounds = {}
b1 = attempt("the lower loop bound", lambda: graph(TC.get_lower_bound_fn_body(asc, lo, hi)))
b2 = attempt("the upper loop bound", lambda: graph(TC.get_upper_bound_fn_body(asc, lo, hi)))
bounds = {"lower": b1 or [], "upper": b2 or []}
trips = []


def trip(what, f, args, want, name):
    r = attempt(what, f)
    if r is None:
        return
    d, s, call = r
    c = attempt(what + " (call)", lambda: call(*args))
    if c is None:
        return
    # the same call on other arguments than the parameters
    trips.append({"what": what, "name": name, "d": decl(d), "s": decl(s), "g": graph(s.args[1]), "want": want,
                  "call": graph(c), "ct": tn(c.type), "given": [a.var_name() for a in args]})


for p in ("OUTER_LOOP", "INNER_LOOP"):
    trip("%s index" % p, lambda: TC.get_loop_index_fn([lo, hi], p), [ir.Int("x"), ir.Int("y")], "index2", p + "_INDEX")
    trip("%s index of three" % p, lambda: TC.get_loop_index_fn([lo, hi, i3], p), [ir.Int("x"), ir.Int("y"), ir.Int("z")], "index3", p + "_INDEX")
    trip("%s bound" % p, lambda: TC.get_loop_bound_fn([lo, hi], ir.choose(lo, hi - 1), p + "_LEFT"), [ir.Int("x"), ir.Int("y")], "bound", p + "_LEFT_BOUND")
trip("a switch", lambda: TC.get_no_arg_bool_fn("IS_FIRST"), [], "switch", "IS_FIRST")

# families: the invariants and the postcondition of the nested-loop kernels
families = []


def family(what, kernel, orders, build, wide, names=("base", "active"), relaxed=False):
    drv = Driver()

    def go():
        inv0, inv1, ps, lang, fns = build(drv)
        mk = lambda n: (ir.Matrix(ir.Int, n) if n in ("base", "active", "agg.result", "out") else  # noqa: E731
                        ir.List(ir.Int, n) if n == "row_vec" else ir.Int(n))
        W0 = [mk(n) for n in ("agg.result", "col", "pixel", "row", "row_vec")]
        W1 = [mk(n) for n in ("col", "pixel", "row_vec")]
        R = [mk(n) for n in sorted(names)]   # the front end hands the variables over sorted by name
        g0 = graph(inv0.func(list(W0), list(R), [], relaxed))
        assert sorted(inv1.in_scope_var_names) == ["agg.result", "row"] and list(inv0.in_scope_var_names) == [], "variables in scope of the invariants"
        S1 = {n: mk(n) for n in ("agg.result", "row")}
        g1 = graph(inv1.func(list(W1), list(R), [S1[n] for n in sorted(inv1.in_scope_var_names)], relaxed))
        gp = graph(ps([mk("out")], list(R), [], relaxed))
        decls = [decl(f) for f in lang() if isinstance(f, (ir.FnDecl, ir.FnDeclRecursive))]
        bodies = {f.args[0]: graph(f.body()) for f in lang() if isinstance(f, (ir.FnDecl, ir.FnDeclRecursive)) and f.body() is not None}
        calls = {n: sorted({x[1] for x in g if x[0] in ("call", "fnref")}) for n, g in bodies.items()}
        sy = [decl(f) for f in fns]
        return {"what": what, "kernel": kernel, "orders": orders, "wide": wide, "g": [g0, g1, gp], "lang": decls,
                "calls": [[n, c] for n, c in sorted(calls.items())], "synths": sy, "sg": [graph(f.args[1]) for f in fns], "vars": sorted(drv.vars)}
    r = attempt(what, go)
    if r:
        families.append(r)


for k in ("multiply_blend_8", "linear_burn_8", "screen_blend_8", "linear_dodge_8"):
    family("computation by holes, %s" % k, k, ["rows", "columns"], lambda d: TC.get_matrix_computation_holing_search_space(getattr(TC, k + "_hole_body")), True)
for k in ("darken_blend_8", "overlay_blend_8"):
    family("selection by holes, %s" % k, "select", ["rows", "columns"], lambda d: TC.get_matrix_select_holing_search_space(d, getattr(TC, k + "_hole_body")), True)
family("dissolve by holes", "dissolve", ["rows", "columns"], lambda d: TC.get_dissolve_holing_search_space(d), True, ("base", "active", "opacity", "rand_cons"))
for rel in (False, True):
    r = ", relaxed" if rel else ""
    for depth, k in ((1, "linear_dodge_8"), (2, "multiply_blend_8"), (3, "screen_blend_8")):
        if depth < 3 or not rel or deep:
            family("computation to depth %d%s" % (depth, r), k, ["rows"], lambda d: TC.get_matrix_computation_general_search_space(depth, [ir.Int(32)], rel), False, relaxed=rel)
    for depth in (0, 1):
        family("selection to depth %d%s" % (depth, r), "select", ["rows"], lambda d: TC.get_matrix_select_general_search_space(d, depth, [ir.Int(32)], rel), False, relaxed=rel)
        family("dissolve to depth %d%s" % (depth, r), "dissolve", ["rows"], lambda d: TC.get_dissolve_general_search_space(d, depth, rel), False,
               ("base", "active", "opacity", "rand_cons"), relaxed=rel)
json.dump({"exprs": exprs, "synths": synths, "bounds": bounds, "trips": trips, "families": families, "failed": failed}, open(out, "w"))
sys.stdout = real_out
print(len(exprs), len(synths), len(trips), len(families), len(failed))
for f in failed:
    print("FAILED", f)
