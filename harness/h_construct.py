"""argv: cases.json hists.json out.json -- runs every construction and every in-place history on the real library."""
import json
import operator
import sys
from typing import get_args, get_origin

import mlload  # noqa: F401
import terms
from metalift import ir
from readback import raw, rb

T = dict(terms.TYPES)
T["K"] = ir.List[ir.Bool]
T["W"] = ir.Set[T["T"]]
T["Z"] = ir.Set[ir.List[ir.Int]]


def tcode(t):
    if isinstance(t, type) and issubclass(t, ir.Object) and not get_args(t):
        return t.__name__
    o, a = get_origin(t), get_args(t)
    if o is None:
        return str(t)
    if o in (ir.Tuple, ir.Fn):
        a = get_args(a[0])
    return "%s(%s)" % (o.__name__, ",".join(tcode(x) for x in a))


def strip(n):
    return [n[0], n[1], [strip(x) for x in n[2]]]


def obj(t, name):
    if t == "#" or t == "@":
        raise ValueError
    if t == "K":
        return ir.List(ir.Bool, name)
    if t == "W":
        return ir.Set(T["T"], name)
    if t == "Z":
        return ir.Set(ir.List[ir.Int], name)
    if t == "I":
        return ir.Int(name)
    if t == "B":
        return ir.Bool(name)
    return terms.as_obj(ir.Var(name, T[t]), t)


def operand(t, i, o):
    if t == "#":
        return 2 + i
    if t[0] == "#":
        return int(t[1:])
    if t[0] == "@":
        return t == "@"
    if t[0] == "%":
        return ir.Int(int(t[1:])) if o else ir.IntLit(int(t[1:]))
    return obj(t, "a%d" % i) if o else ir.Var("a%d" % i, T[t])


def operands(ts, first, o):
    vs = []
    for i, t in enumerate(ts):
        vs.append(vs[0] if t == "=" else operand(t, i + first, o))
    return vs


OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "div": operator.floordiv, "mod": operator.mod,
       "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge, "eq": operator.eq, "ne": operator.ne}
ELEM = {"vadd": ir.List.add, "vsub": ir.List.sub, "vmul": ir.List.mul, "vdiv": ir.List.div,
        "madd": ir.Matrix.add, "msub": ir.Matrix.sub, "mmul": ir.Matrix.mul, "mdiv": ir.Matrix.div}
MIRROR = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}


def setitem(l, i, v):
    l[i] = v
    return l


def fn_type(ts):
    return ir.make_fn_type(*[T[t] for t in ts])


METH = {
    "Not": lambda a: a.Not(), "And": lambda a, *r: a.And(*r), "Or": lambda a, *r: a.Or(*r),
    "implies": ir.implies, "ite": ir.ite, "choose": ir.choose, "make_tuple": ir.make_tuple, "tget": lambda t, i: t[i],
    "append": lambda l, e: l.append(e), "prepend": lambda l, e: l.prepend(e), "set": setitem, "concat": lambda a, b: a + b,
    "leq": lambda a, b: a == b, "len": lambda l: l.len(), "get": lambda l, i: l[i], "tail": lambda l, i: l[i:],
    "take": lambda l, i: l[:i], "slice": lambda l, i, j: l[i:j], "slicelen": lambda l, i, j: l.slice_with_length(i, j),
    "col_slice": lambda m, i, j: m.col_slice(i, j), "col_slicelen": lambda m, i, j: m.col_slice_with_length(i, j),
    "col_vec": lambda m, i: m.col_vec(i), "transpose": lambda m: m.transpose(),
    "S.add": lambda s, e: s.add(e), "S.remove": lambda s, e: s.remove(e), "S.contains": lambda s, e: s.__contains__(e),
    "S.singleton": ir.Set.singleton, "S.union": lambda a, b: a.union(b), "S.difference": lambda a, b: a.difference(b),
    "S.eq": lambda a, b: a == b,
}
EMPTY = {"L": lambda: ir.List.empty(ir.Int), "M": lambda: ir.Matrix.empty(ir.Int), "N": lambda: ir.List.empty(ir.List[ir.Int]),
         "X": lambda: ir.Tensor3D.empty(ir.Int), "S": lambda: ir.Set.empty(ir.Int)}
MUT = ("append", "prepend", "set")


def perform(op, ts):
    """(result, operands)"""
    if not op.startswith("o."):
        vs = operands(ts, 1, False)
        return lambda: getattr(ir, op)(*vs), vs
    op = op[2:]
    if op == "fn_type":
        t = fn_type(ts)
        return lambda: ir.Fn(get_args(get_args(t)[0]), "f").type, []
    if op.startswith("empty"):
        return EMPTY[op[5:]], []
    if op in ("call", "call_value"):
        r, vs = T[ts[0]], [operand(t, i + 2, True) for i, t in enumerate(ts[1:])]
        if op == "call":
            return lambda: ir.call("g", r, *vs), vs
        f = ir.Fn(get_args(get_args(fn_type(ts))[0]), "fv")
        return lambda: ir.call_value(f, *vs), vs
    vs = operands(ts, 1, True)
    if op in ("as_int", "as_bool"):
        v = vs[0].src
        return lambda: (ir.Int if op == "as_int" else ir.Bool)(v), vs
    f = OPS.get(op) or ELEM.get(op) or METH[op]
    return lambda: f(*vs), vs


def swap(op, ts, n):
    """reversed comparisons with a plain left operand come out mirrored: n op x is x mirrored-op n"""
    return n


res = []
for i, cs in enumerate(json.load(open(sys.argv[1]))):
    op, ts = cs["op"], cs["args"]
    f, vs = perform(op, ts)
    before = [raw(v) for v in vs if not isinstance(v, int)]
    r = {"id": i, "op": op, "args": ts, "out": "no", "term": ["none", "", []], "type": "", "objtype": "", "err": "", "operands": True}
    try:
        x = f()
        if x is NotImplemented or x is None:
            raise TypeError("no result")
        r["out"] = "yes"
        if op == "o.fn_type":
            a = get_args(x)
            r["term"] = ["fn", tcode(ir.get_fn_return_type(x)), [["ty", tcode(t), []] for t in ir.Fn.argument_types(a)]]
            if tcode(ir.Fn.return_type(a)) != r["term"][1]:
                r["term"][0] = "fn: two return types"
        else:
            e = x.src if isinstance(x, ir.Object) else x
            if not isinstance(e, ir.Expr):
                raise TypeError("result is a plain %s" % type(x).__name__)
            n = strip(rb(e))
            if op == "o.call_value" or op == "o.call":
                pass
            base = op[2:]
            if base in MIRROR and ts[0][0] == "#" and n[0] == MIRROR[base]:
                n = [base, "", [n[2][1], n[2][0]]]
            if op in ("o.eq", "o.ne") and ts[0][0] == "#":
                m = n if op == "o.eq" else n[2][0]
                if m[0] == "eq":
                    m[2].reverse()
            r["term"], r["type"] = n, tcode(e.type)
            r["objtype"] = tcode(x.type) if isinstance(x, ir.Object) else ""
        if op[2:] in MUT:
            r["operands"] = x is vs[0] and [raw(v) for v in vs[1:] if not isinstance(v, int)] == before[1:]
        else:
            r["operands"] = [raw(v) for v in vs if not isinstance(v, int)] == before
    except Exception as exn:
        r.update({"out": "no", "err": "%s: %s" % (type(exn).__name__, str(exn)[:120])})
    res.append(r)

hres = []
for h in json.load(open(sys.argv[2])):
    k = h["kind"]
    mk = lambda n: obj(k, n)  # noqa: E731
    el = {j: obj({"L": "I", "M": "L", "N": "L"}[k], "e%d" % j) for j in (1, 2)}
    s = {1: mk("b1"), 2: mk("b2"), 3: EMPTY[k]()}
    taken, err = [], ""
    try:
        for name, a, b, d in h["hist"]:
            e0 = s[1].src
            taken.append((e0, strip(rb(e0))))
            if name == "append":
                s[a].append(el[b])
            elif name == "prepend":
                s[a].prepend(el[b])
            elif name == "append_to":
                s[b] = s[a].append(el[d])
            elif name == "set":
                s[a][0] = el[d]
            elif name == "tail":
                s[b] = s[a][1:]
            elif name == "take":
                s[b] = s[a][:2]
            elif name == "concat":
                s[d] = s[a] + s[b]
            elif name == "alias":
                s[b] = s[a]
    except Exception as exn:
        err = "%s: %s" % (type(exn).__name__, exn)
    hres.append({"now": [strip(rb(s[i])) for i in (1, 2, 3)], "taken": [strip(rb(e)) for e, _ in taken],
                 "err": err, "kept": all(strip(rb(e)) == t for e, t in taken)})
open(sys.argv[3], "w").write(json.dumps({"cases": res, "hists": hres}))
