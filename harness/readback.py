"""Reads a real expression back into the node form of spec/MLSem.tla."""
import mlload  # noqa: F401
from metalift import ir

BIN = {ir.Add: "add", ir.Sub: "sub", ir.Mul: "mul", ir.Div: "div", ir.Mod: "mod", ir.Eq: "eq", ir.Lt: "lt", ir.Le: "le",
       ir.Gt: "gt", ir.Ge: "ge", ir.And: "and", ir.Or: "or", ir.Not: "not", ir.Implies: "implies", ir.Ite: "ite",
       ir.TupleExpr: "tuple", ir.Choose: "choose"}
CALL = {}
for p in ("list", "matrix", "tensor3d"):
    CALL.update({p + "_length": "llen", p + "_get": "lget", p + "_tail": "ltail", p + "_take": "ltake",
                 p + "_append": "lappend", p + "_prepend": "lprepend", p + "_empty": "lempty", p + "_concat": "lconcat",
                 p + "_slice": "lslice", p + "_slice_with_length": "lslicelen"})
CALL.update({"vec_slice": "lslice", "matrix_row_slice": "lslice", "vec_slice_with_length": "lslicelen",
             "matrix_row_slice_with_length": "lslicelen", "matrix_col_slice": "mcolslice",
             "matrix_col_slice_with_length": "mcolslicelen", "matrix_transpose": "mtranspose", "list_eq": "eq",
             "list_contains": "lcontains",
             "set-create": "sempty", "set-singleton": "ssingleton", "set-insert": "sinsert", "set-union": "sunion",
             "set-minus": "sminus", "set-member": "smember", "set-subset": "ssubset", "set-eq": "eq",
             "integer_exp": "iexp", "make-tuple": "tuple", "ite": "ite"})


def tstr(t):
    return str(t).replace("metalift.ir.", "").replace("typing.", "")


def rb(e, typed=False):
    """typed=True records the type of every node in the (otherwise unused) 4th field"""
    if isinstance(e, ir.Object):
        e = e.src
    ty = tstr(e.type) if typed and isinstance(e, ir.Expr) else ""
    if isinstance(e, str):
        return ["str", e, [], ""]
    if isinstance(e, bool) or isinstance(e, int):
        return ["plain", str(e), [], ""]
    if not isinstance(e, ir.Expr):
        return ["other", type(e).__name__, [], ""]
    r = lambda x: rb(x, typed)  # noqa: E731
    c = type(e)
    if isinstance(e, ir.Var):
        return ["var", e.args[0], [], tstr(e.type)]
    if isinstance(e, ir.Lit):
        v = e.args[0]
        if isinstance(v, bool):
            return ["bool", v, [], ty]
        if isinstance(v, int):
            return ["bool", bool(v), [], ty] if e.type == ir.Bool else ["int", v, [], ty]
        return ["lit", str(v), [], ty]
    if c in BIN:
        return [BIN[c], "", [r(a) for a in e.args], ty]
    if isinstance(e, ir.Let) and isinstance(e.args[0], ir.Var):
        return ["let", e.args[0].args[0], [r(a) for a in e.args[1:]], ty]
    if isinstance(e, ir.TupleGet):
        return ["tget", e.args[1].args[0], [r(e.args[0])], ty]
    if isinstance(e, ir.Call):
        n = e.args[0]
        if n == "tupleGet" and isinstance(e.args[2], ir.Lit):
            return ["tget", e.args[2].args[0], [r(e.args[1])], ty]
        if n == "set-minus" and isinstance(e.args[2], ir.Call) and e.args[2].args[0] == "set-singleton":
            return ["sremove", "", [r(e.args[1]), r(e.args[2].args[1])], ty]
        if n in CALL:
            return [CALL[n], "", [r(a) for a in e.args[1:]], ty]
        return ["call", n, [r(a) for a in e.args[1:]], ty]
    if isinstance(e, (ir.FnDecl, ir.FnDeclRecursive)):
        return ["closure", [a.args[0] for a in e.arguments()], [r(e.body())], e.name()]
    if isinstance(e, ir.CallValue):
        return ["form", "CallValue", [r(a) for a in e.args], ty]
    return ["form", c.__name__, [r(a) for a in e.args], ty]


def raw(e):
    """the expression exactly as it is: class, non-expression arguments, children, type"""
    if isinstance(e, ir.Object):
        e = e.src
    if not isinstance(e, ir.Expr):
        return ["arg", type(e).__name__ + " " + str(e), [], ""]
    return [type(e).__name__, "", [raw(a) for a in e.args], tstr(e.type)]
