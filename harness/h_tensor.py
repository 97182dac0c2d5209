"""argv: ops.json out-prefix scratch -- prints the shipped tensor library with the three back ends of the real code."""
import json
import os
import sys

import mlload
import pyast
import sexp
from metalift import ir, smt_util
from metalift.utils.tenspiler import constants as K
from metalift.utils.tenspiler import tenspiler_common as TC

OPS, prefix, scratch = json.load(open(sys.argv[1])), sys.argv[2], sys.argv[3]
U = os.path.join(mlload.REPO, "metalift", "utils")
rd = lambda n: open(os.path.join(U, n)).read()  # noqa: E731
failed = []
Vec, Mat, Ten = ir.List[ir.Int], ir.Matrix[ir.Int], ir.Tensor3D[ir.Int]
RET = {"I": ir.Int, "L": Vec, "M": Mat, "X": Ten}


def param(t, i):
    n = "p%d" % i
    return {"I": lambda: ir.Int(n), "E": lambda: ir.Int(n), "Q": lambda: ir.Int(n), "B": lambda: ir.Bool(n),
            "L": lambda: ir.List(ir.Int, n), "M": lambda: ir.Matrix(ir.Int, n), "X": lambda: ir.Tensor3D(ir.Int, n)}[t]()


lib, tens = {}, set()
for v in list(vars(TC).values()):
    if isinstance(v, (ir.FnDecl, ir.FnDeclRecursive)) and v.body() is not None:
        lib[v.name()] = v
        if any(ir.is_tensor3d_type(a.type) for a in v.arguments()) or ir.is_tensor3d_type(v.return_type()):
            tens.add(v.name())
x, y, o, r = (ir.Int(n) for n in ("x", "y", "o", "r"))
lib["map_int_to_int"] = ir.fn_decl("map_int_to_int", ir.Int, x * x + 1, x)
lib["select_two_args"] = ir.fn_decl("select_two_args", ir.Int, x - 2 * y, x, y)
lib["dissolve_select_two_args"] = ir.fn_decl("dissolve_select_two_args", ir.Int, x - 2 * y + 3 * o - 5 * r, x, y, o, r)
FN = {"map_int_to_int": TC.map_int_to_int_fn_obj, "select_two_args": TC.select_two_args_fn_obj, "dissolve_select_two_args": TC.dissolve_select_two_args_fn_obj}
wraps = {}
for op in OPS:
    if op["via"] == "name":
        continue
    try:
        ps = [param(t, i) for i, t in enumerate(op["as"])]
        e = ir.call(op["n"], RET[op["r"]], *ps, *([FN[op["fn"]]] if op["fn"] else [])) if op["via"] == "wrap" else getattr(TC, op["n"])(*ps)
        wraps[op["w"]] = ir.fn_decl(op["w"], RET[op["r"]], e, *ps)
        if op["r"] == "X":
            tens.add(op["w"])
    except Exception as exn:
        failed.append("%s: %s: %s" % (op["w"], type(exn).__name__, exn))


def attempt(what, f):
    try:
        return f()
    except Exception as exn:
        failed.append("%s: %s: %s" % (what, type(exn).__name__, exn))
        return None


theory = sexp.smt_env("\n".join(rd(n) for n in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt")))
listed = [(n, a) for n, axs in sorted(K.TENSPILER_FN_NAME_TO_AXIOMS.items()) for a in axs]
axioms = list({id(a): a for _, a in listed}.values())


def forall(text):
    f = sexp.parse_one(text)[1][1]
    return f


def smt():
    keep = [f for n, f in lib.items() if n not in tens and n not in theory["defs"]]
    ws = [f for n, f in wraps.items() if n not in tens]
    path = os.path.join(scratch, "lib.smt")
    smt_util.toSMT(keep + axioms, set(), ws, [], ir.BoolLit(True), path, [], [])
    text = open(path).read()
    env = sexp.smt_env(text)
    # the assertions after the theories are the library's; the last one is the (empty) query
    axs = [a for a in env["axioms"][len(theory["axioms"]):-1] if a[0] == "l" and a[1][0] == ["s", "forall"]]
    tdefs = {n: d for n, d in env["defs"].items() if n not in theory["defs"]}
    defs = dict(env["defs"])
    # declarations the theory files also define are judged as the library prints them
    for n, f in lib.items():
        if n in theory["defs"] and n not in tens:
            e = sexp.smt_env(f.toSMT())
            defs[n] = tdefs[n] = e["defs"][n]
            if env["sigs"][n] != e["sigs"][n]:
                failed.append("%s is declared with sorts %s in the theory and %s in the library" % (n, env["sigs"][n], e["sigs"][n]))
    return {"defs": defs, "qdefs": env["defs"], "sigs": env["sigs"], "tdefs": tdefs, "tsigs": env["sigs"], "axioms": axs,
            "listed": [[n, forall(a.toSMT())] for n, a in listed]}


def rkt():
    d = sexp.rkt_defs(rd("utils.rkt"), sexp.rkt_rules(rd("bounded.rkt")))
    for n, f in list(lib.items()) + list(wraps.items()):
        if n.startswith("integer_"):      # the runtime's own
            continue
        t = attempt("to_rosette of " + n, f.to_rosette)
        if t is not None:
            d.update(sexp.rkt_defs(t))
    return {"defs": d}


def py():
    d = {}
    for n, f in list(lib.items()) + list(wraps.items()):
        if n in tens:
            continue
        t = attempt("to_python of " + n, f.to_python)
        if t is not None:
            name, ps, body = pyast.fn(t)
            d[name] = [ps, body]
    return {"defs": d}


for name, f in (("smt", smt), ("rkt", rkt), ("py", py)):
    r = attempt(name, f)
    if r is not None:
        open("%s.%s.json" % (prefix, name), "w").write(json.dumps(r))
open(prefix + ".failed.json", "w").write(json.dumps(failed))
