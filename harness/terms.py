"""Replays construction calls of spec/Ops.tla into the real library."""
import mlload  # noqa: F401
from metalift import ir

TYPES = {
    "I": ir.Int, "B": ir.Bool, "L": ir.List[ir.Int], "M": ir.Matrix[ir.Int],
    "N": ir.List[ir.List[ir.Int]], "X": ir.Tensor3D[ir.Int], "S": ir.Set[ir.Int],
    "T": ir.Tuple[ir.make_tuple_type(ir.Int, ir.Int).__args__[0]] if False else ir.make_tuple_type(ir.Int, ir.Int),
    "U": ir.make_tuple_type(ir.Int, ir.Bool, ir.Int),
}


def as_obj(x, t):
    """a wrapper object of type code t around expression or object x"""
    if isinstance(x, ir.Object):
        return x
    if isinstance(x, int) and not isinstance(x, bool):
        return x
    if t == "L":
        return ir.List(ir.Int, x)
    if t == "M":
        return ir.Matrix(ir.Int, x)
    if t == "N":
        return ir.List(ir.List[ir.Int], x)
    if t == "X":
        return ir.Tensor3D(ir.Int, x)
    if t == "S":
        return ir.Set(ir.Int, x)
    if t == "T":
        return ir.Tuple((ir.Int, ir.Int), x)
    if t == "U":
        return ir.Tuple((ir.Int, ir.Bool, ir.Int), x)
    return {"I": ir.Int, "B": ir.Bool}[t](x)


def ex(x):
    if isinstance(x, ir.Object):
        return x.src
    return x


RAW = {
    "Add1": ir.Add, "Add2": ir.Add, "Add3": ir.Add, "Sub": ir.Sub, "Mul1": ir.Mul, "Mul2": ir.Mul, "Mul3": ir.Mul,
    "Div": ir.Div, "Mod": ir.Mod, "EqI": ir.Eq, "EqB": ir.Eq, "EqS": ir.Eq, "EqL": ir.Eq, "EqT": ir.Eq, "EqM": ir.Eq,
    "Lt": ir.Lt, "Le": ir.Le, "Gt": ir.Gt, "Ge": ir.Ge, "And1": ir.And, "And2": ir.And, "And3": ir.And,
    "Or1": ir.Or, "Or2": ir.Or, "Or3": ir.Or, "Not": ir.Not, "Implies": ir.Implies,
    "IteI": ir.Ite, "IteB": ir.Ite, "IteL": ir.Ite, "IteM": ir.Ite, "IteS": ir.Ite, "IteT": ir.Ite,
    "Tuple2": ir.TupleExpr, "Tuple3": ir.TupleExpr,
}
CALLS = {"CallF": "I", "CallP": "B", "CallC": "I", "CallR": "I", "CallLT": "L", "CallTup": "T",
         "CallVP": "B", "CallVQ": "B", "CallVf": "I"}
# types of arguments of the object operators that need to be wrapped
ARGT = {
    "o.And2": "BB", "o.And3": "BBB", "o.Or2": "BB", "o.Or3": "BBB", "o.Not": "B", "o.Beq": "BB", "o.Bne": "BB",
    "o.implies": "BB", "o.iteI": "BII", "o.iteL": "BLL", "o.make_tuple": "II", "o.make_tuple3": "IBI",
    "o.tget0": "T", "o.tget1": "T", "o.tget3B": "U",
    "o.S.singleton": "I", "o.S.add": "IS", "o.S.remove": "SI", "o.S.union": "SS", "o.S.difference": "SS",
    "o.S.contains": "IS", "o.S.eq": "SS", "o.concat": "LL",
}
ELEM = {"L": "I", "M": "L", "N": "L", "X": "M"}


def ty(t):
    """type of a code; "F:rab.." is a function from a, b, .. to r"""
    if t.startswith("F:"):
        return ir.Fn((*[TYPES[x] for x in t[2:]],)).type
    return TYPES[t]


def plain(n):
    return n[0] == "int" and n[3] == "#"


def type_of(n, optypes):
    """type code of a node (optypes: op -> result type is ambiguous for list ops)"""
    k, pl, a, how = n
    if k == "var":
        return how
    if k == "int":
        return "I"
    if k == "bool":
        return "B"
    if how in CALLS:
        return CALLS[how]
    if k in ("call", "callv"):
        return how.split(":")[1]
    if k in ("llen", "add", "sub", "mul", "div", "mod", "iexp"):
        return "I"
    if k in ("eq", "ne", "lt", "le", "gt", "ge", "and", "or", "not", "implies", "smember", "ssubset"):
        return "B"
    if k == "ite":
        return type_of(a[1], optypes)
    if k == "let":
        return type_of(a[1], optypes)
    if k == "tuple":
        return "T" if len(a) == 2 else "U"
    if k == "tget":
        return "B" if how.endswith("3B") else "I"
    if k == "lget":
        return ELEM[type_of(a[0], optypes)]
    if k in ("ltail", "ltake", "lslice", "lslicelen", "lappend", "mcolslice", "mcolslicelen", "mtranspose"):
        return type_of(a[0], optypes)
    if k == "lprepend":
        return type_of(a[1], optypes)
    if k == "lconcat":
        return type_of(a[0], optypes)
    if k == "lempty":
        return how[2]
    if k == "mcolvec":
        return "L"
    if k.startswith("s"):
        return "S"
    raise ValueError(n)


def build(n, objs=False):
    """The real term for node n; objs=True keeps the wrapper object."""
    k, pl, a, how = n
    if k == "var":
        t = how
        if objs:
            return as_obj(ir.Var(pl, TYPES[t]), t)
        return ir.Var(pl, ty(t))
    if k == "fnref":
        return ir.Var(pl, ty(how))
    if k == "int":
        if how == "#":
            return pl
        return ir.Int(pl) if objs else ir.IntLit(pl)
    if k == "bool":
        return ir.Bool(pl) if objs else ir.BoolLit(pl)
    if k == "call" and how.startswith("C:"):
        return ir.Call(pl, TYPES[how[2:]], *[ex(build(x)) for x in a])
    if k == "callv":
        return ir.CallValue(*[ex(build(x)) for x in a])
    ts = [type_of(x, None) for x in a]
    if how in RAW:
        r = RAW[how](*[ex(build(x)) for x in a])
    elif how.startswith("Let"):
        r = ir.Let(ir.Var(pl, TYPES[ts[0]]), ex(build(a[0])), ex(build(a[1])))
    elif how in CALLS:
        r = ir.Call(pl, TYPES[CALLS[how]], *[ex(build(x)) for x in a])
    elif how == "IntExp":
        r = ir.Call("integer_exp", ir.Int, ex(build(a[0])))
    elif how == "CallMember":
        r = ir.Call("set-member", ir.Bool, *[ex(build(x)) for x in a])
    elif how == "CallSubset":
        r = ir.Call("set-subset", ir.Bool, *[ex(build(x)) for x in a])
    elif how.startswith("CallTupleGet"):
        r = ir.Call("tupleGet", ir.Bool if how.endswith("B") else ir.Int, ex(build(a[0])), ir.IntLit(pl))
    elif how.startswith("TupleGet"):
        r = ir.TupleGet(ex(build(a[0])), ir.IntLit(pl))
    else:
        r = build_obj(k, pl, a, how, ts)
    if objs:
        return as_obj(r, type_of(n, None))
    return ex(r)


def build_obj(k, pl, a, how, ts):
    v = [as_obj(build(x, True), ts[i]) for i, x in enumerate(a)]
    base = how.rstrip("#").replace(".r", ".").replace(".l", ".l") if False else how
    if how.startswith("o.") and how.split(".")[1] in ("add", "sub", "mul", "div", "mod", "eq", "ne", "lt", "le", "gt", "ge"):
        import operator as o
        f = {"add": o.add, "sub": o.sub, "mul": o.mul, "div": o.floordiv, "mod": o.mod, "eq": o.eq, "ne": o.ne,
             "lt": o.lt, "le": o.le, "gt": o.gt, "ge": o.ge}[how.split(".")[1]]
        return f(v[0], v[1])
    if how in ("o.And2", "o.And3"):
        return v[0].And(*v[1:])
    if how in ("o.Or2", "o.Or3"):
        return v[0].Or(*v[1:])
    if how == "o.Not":
        return v[0].Not()
    if how == "o.Beq":
        return v[0] == v[1]
    if how == "o.Bne":
        return v[0] != v[1]
    if how == "o.implies":
        return ir.implies(v[0], v[1])
    if how in ("o.iteI", "o.iteL"):
        return ir.ite(*v)
    if how in ("o.make_tuple", "o.make_tuple3"):
        return ir.make_tuple(*v)
    if how.startswith("o.tget"):
        return v[0][pl]
    b = how.rstrip("#")
    if b == "o.len":
        return v[0].len()
    if b == "o.get":
        return v[0][v[1]]
    if b == "o.tail":
        return v[0][v[1]:]
    if b == "o.take":
        return v[0][:v[1]]
    if b == "o.slice":
        return v[0][v[1]:v[2]]
    if b == "o.slicelen":
        return v[0].slice_with_length(v[1], v[2])
    if b == "o.append":
        return v[0].append(v[1])
    if b == "o.prepend":
        return v[1].prepend(v[0])
    if b == "o.concat":
        return v[0] + v[1]
    if b in ("o.leq", "o.S.eq"):
        return v[0] == v[1]
    if b == "o.col_slice":
        return v[0].col_slice(v[1], v[2])
    if b == "o.col_slicelen":
        return v[0].col_slice_with_length(v[1], v[2])
    if b == "o.col_vec":
        return v[0].col_vec(v[1])
    if b == "o.transpose":
        return v[0].transpose()
    if b == "o.L.empty":
        return ir.List.empty(ir.Int)
    if b == "o.N.empty":
        return ir.List.empty(ir.List[ir.Int])
    if b == "o.M.empty":
        return ir.Matrix.empty(ir.Int)
    if b == "o.X.empty":
        return ir.Tensor3D.empty(ir.Int)
    if b == "o.S.empty":
        return ir.Set.empty(ir.Int)
    if b == "o.S.singleton":
        return ir.Set.singleton(v[0])
    if b == "o.S.add":
        return v[1].add(v[0])
    if b == "o.S.remove":
        return v[0].remove(v[1])
    if b == "o.S.union":
        return v[0].union(v[1])
    if b == "o.S.difference":
        return v[0].difference(v[1])
    if b == "o.S.contains":
        return v[1].__contains__(v[0])
    raise ValueError("no such construction: " + how)


def build_fn(name, d):
    cls = ir.FnDeclRecursive if d["rec"] else ir.FnDecl
    params = [ir.Var(p, ty(t)) for p, t in zip(d["ps"], d["ts"])]
    return cls(name, TYPES[d["res"]], None if d["body"][0] == "none" else build(d["body"]), *params)


def label(n):
    k, pl, a, how = n
    if k in ("var", "int", "bool"):
        return str(pl)
    return "%s(%s)" % (how, ", ".join(label(x) for x in a))
