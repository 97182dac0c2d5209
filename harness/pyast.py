"""Python source -> the JSON syntax trees of PySem.tla."""
import ast


def conv(n):
    t = type(n).__name__
    if isinstance(n, ast.Expression):
        return conv(n.body)
    if isinstance(n, ast.Name):
        return ["Name", n.id, []]
    if isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            return ["Bool", n.value, []]
        if isinstance(n.value, int):
            return ["Int", n.value, []]
        return ["Const", str(n.value), []]
    if isinstance(n, ast.BinOp):
        return ["BinOp", type(n.op).__name__, [conv(n.left), conv(n.right)]]
    if isinstance(n, ast.UnaryOp):
        return ["UnaryOp", type(n.op).__name__, [conv(n.operand)]]
    if isinstance(n, ast.BoolOp):
        return ["BoolOp", type(n.op).__name__, [conv(v) for v in n.values]]
    if isinstance(n, ast.Compare):
        return ["Compare", [type(o).__name__ for o in n.ops], [conv(n.left)] + [conv(c) for c in n.comparators]]
    if isinstance(n, ast.IfExp):
        return ["IfExp", "", [conv(n.test), conv(n.body), conv(n.orelse)]]
    if isinstance(n, ast.List):
        return ["List", "", [conv(e) for e in n.elts]]
    if isinstance(n, ast.Tuple):
        return ["Tuple", "", [conv(e) for e in n.elts]]
    if isinstance(n, ast.Starred):
        return ["Starred", "", [conv(n.value)]]
    if isinstance(n, ast.Subscript):
        s = n.slice
        if isinstance(s, ast.Slice):
            if s.step is not None:
                return ["SliceStep", "", []]
            k = "both" if s.lower is not None and s.upper is not None else "lo" if s.lower is not None else "hi" if s.upper is not None else "none"
            return ["Slice", k, [conv(n.value)] + [conv(b) for b in (s.lower, s.upper) if b is not None]]
        return ["Index", "", [conv(n.value), conv(s)]]
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not n.keywords:
        return ["Call", n.func.id, [conv(a) for a in n.args]]
    if isinstance(n, ast.Lambda):
        return ["Lambda", [a.arg for a in n.args.args], [conv(n.body)]]
    return ["Unsupported " + t, "", []]


def expr(text):
    return conv(ast.parse(text, mode="eval"))


def fn(text):
    """one function of the form def f(...): return e -> name, params, body"""
    mod = ast.parse(text)
    if len(mod.body) != 1 or not isinstance(mod.body[0], ast.FunctionDef):
        raise ValueError("not one function definition")
    f = mod.body[0]
    if len(f.body) != 1 or not isinstance(f.body[0], ast.Return):
        raise ValueError("body is not one return")
    return f.name, [a.arg for a in f.args.args], conv(f.body[0].value)
