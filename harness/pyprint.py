"""Syntax trees of spec/PyGen.tla -> Python text (through Python's own printer)."""
import ast

TYPES = {"I": "int", "B": "bool", "L": "List[int]", "M": "List[List[int]]", "F": "Callable[[int], int]", "G": "Callable[[int, int], int]", "P": "Callable[[int], bool]"}


def n(x):
    return ast.Name(id=x, ctx=ast.Load())


def args(names, types=None):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a, annotation=types and ast.parse(TYPES[types[i]], mode="eval").body) for i, a in enumerate(names)],
                         kwonlyargs=[], kw_defaults=[], defaults=[])


def ex(t):
    k, pl, a = t
    if k in ("Name", "Global"):
        return n(pl)
    if k in ("Int", "Bool"):
        return ast.Constant(value=pl)
    if k == "BinOp":
        return ast.BinOp(left=ex(a[0]), op=getattr(ast, pl)(), right=ex(a[1]))
    if k == "UnaryOp":
        return ast.UnaryOp(op=getattr(ast, pl)(), operand=ex(a[0]))
    if k == "BoolOp":
        return ast.BoolOp(op=getattr(ast, pl)(), values=[ex(x) for x in a])
    if k == "Compare":
        return ast.Compare(left=ex(a[0]), ops=[getattr(ast, o)() for o in pl], comparators=[ex(x) for x in a[1:]])
    if k == "IfExp":
        return ast.IfExp(test=ex(a[0]), body=ex(a[1]), orelse=ex(a[2]))
    if k == "Ite":
        return ast.Call(func=n("ite"), args=[ex(x) for x in a], keywords=[])
    if k == "List":
        return ast.List(elts=[ex(x) for x in a], ctx=ast.Load())
    if k == "Starred":
        return ast.Starred(value=ex(a[0]), ctx=ast.Load())
    if k == "Index":
        return ast.Subscript(value=ex(a[0]), slice=ex(a[1]), ctx=ast.Load())
    if k == "SliceStep":
        return ast.Subscript(value=ex(a[0]), slice=ast.Slice(lower=ex(a[1]), upper=ex(a[2]), step=ex(a[3])), ctx=ast.Load())
    if k == "Slice":
        b = [ex(x) for x in a[1:]]
        lo = b[0] if pl in ("lo", "both") else None
        hi = b[-1] if pl in ("hi", "both") else None
        return ast.Subscript(value=ex(a[0]), slice=ast.Slice(lower=lo, upper=hi, step=None), ctx=ast.Load())
    if k == "Lambda":
        return ast.Lambda(args=args(pl), body=ex(a[0]))
    if k == "Call":
        return ast.Call(func=n(pl), args=[ex(x) for x in a], keywords=[])
    if k == "CallKw":
        return ast.Call(func=n(pl[0]), args=[ex(x) for x, m in zip(a, pl[1]) if not m], keywords=[ast.keyword(arg=m, value=ex(x)) for x, m in zip(a, pl[1]) if m])
    if k == "CallLambda":
        return ast.Call(func=ex(a[0]), args=[ex(x) for x in a[1:]], keywords=[])
    raise ValueError(k)


def st(t):
    k, pl, a = t
    if k == "Return":
        return ast.Return(value=ex(a[0]))
    if k == "Assign":
        return ast.Assign(targets=[ast.Name(id=pl, ctx=ast.Store())], value=ex(a[0]), lineno=1)
    if k == "AugAssign":
        return ast.AugAssign(target=ast.Name(id=pl, ctx=ast.Store()), op=ast.Add(), value=ex(a[0]))
    if k == "If":
        return ast.If(test=ex(a[0]), body=[st(x) for x in a[1][2]], orelse=[])
    if k == "Doc":
        return ast.Expr(value=ast.Constant(value="a summary"))
    raise ValueError(k)


def fn(f):
    b = f["body"]
    d = ast.FunctionDef(name=f["name"], args=args([p[0] for p in f["ps"]], [p[1] for p in f["ps"]]), body=[st(x) for x in b[2]] if b[0] == "Block" else [ast.Return(value=ex(b))],
                        decorator_list=[], returns=ast.parse(TYPES[f["ret"]], mode="eval").body, lineno=1)
    return ast.unparse(ast.fix_missing_locations(ast.Module(body=[d], type_ignores=[])))


def uses(t, kind):
    if isinstance(t, (list, tuple)):
        return (len(t) == 3 and t[0] == kind) or any(uses(x, kind) for x in t)
    return False
