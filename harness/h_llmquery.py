"""argv: sessions.json out.json scratch -- runs every session of spec/PropGen.tla through the real search with the real
reader of proposals; the verifier's stand-in keeps the queries it is given."""
import json
import os
import re
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ML_REPO", "/repo")
src, outp, scratch = sys.argv[1], os.path.abspath(sys.argv[2]), os.path.abspath(sys.argv[3])
os.environ["ML_REPO"] = scratch     # the reader writes into its own folder, so it runs in a copy
os.environ["BITWUZLA_PATH"] = "/nonexistent/bitwuzla"
import mlload  # noqa: E402,F401
import pyprint  # noqa: E402
import readback  # noqa: E402
import sexp  # noqa: E402
import terms  # noqa: E402
from fakeproc import Hang, World  # noqa: E402
from h_rosloop_tables import OUT, OUTR  # noqa: E402
from llmstubs import NS, ask  # noqa: E402

from llmlift_scripts import parser, synthesis  # noqa: E402
from llmlift_scripts.utils import DoubleLoopInfo, SingleLoopInfo  # noqa: E402

from metalift import ir  # noqa: E402

with open(src) as f:
    D = json.load(f)
os.chdir(scratch)
B = "bench"
FN = (ir.FnDecl, ir.FnDeclRecursive)
FT = {"F": "F:II", "G": "F:III", "P": "F:BI"}
HOWB = {"Add": ("add", "Add2"), "Sub": ("sub", "Sub"), "Mult": ("mul", "Mul2")}
HOWC = {"Lt": ("lt", "Lt"), "LtE": ("le", "Le"), "Gt": ("gt", "Gt"), "GtE": ("ge", "Ge"), "Eq": ("eq", "EqI"), "NotEq": ("ne", "o.Bne")}


def mk(t, sc):
    """a body of the library (Python) as a term of the intermediate language"""
    k, pl, a = t
    if k == "Name":
        return ["var", pl, [], sc[pl]]
    if k == "Int":
        return ["int", pl, [], ""]
    if k == "BinOp":
        if a[1][0] == "List":
            return ["lappend", "", [mk(a[0], sc), mk(a[1][2][0], sc)], "o.append"]
        return [HOWB[pl][0], "", [mk(x, sc) for x in a], HOWB[pl][1]]
    if k == "Compare":
        cs = [[HOWC[o][0], "", [mk(a[i], sc), mk(a[i + 1], sc)], HOWC[o][1]] for i, o in enumerate(pl)]
        return cs[0] if len(cs) == 1 else ["and", "", cs, "And2"]
    if k == "IfExp":
        xs = [mk(x, sc) for x in a]
        return ["ite", "", xs, "IteI" if terms.type_of(xs[1], None) == "I" else "IteL"]
    if k == "List":
        x = mk(a[0], sc)
        return ["lprepend", "", [x, ["lempty", "", [], "o.L.empty" if terms.type_of(x, None) == "I" else "o.M.empty"]], "o.prepend"]
    if k == "Index":
        return ["lget", "", [mk(x, sc) for x in a], "o.get"]
    if k == "Slice":
        return ["ltake", "", [mk(x, sc) for x in a], "o.take"]
    if k == "Call" and pl == "len":
        return ["llen", "", [mk(a[0], sc)], "o.len"]
    if k == "Call":
        return ["callv", "", [["var", pl, [], sc[pl]]] + [mk(x, sc) for x in a], "CV:" + sc[pl][2]]
    raise ValueError(t)


def lib_fn(f):
    sc = {n: FT.get(t, t) for n, t in f["ps"]}
    return terms.build_fn(f["name"], {"rec": True, "ps": [p[0] for p in f["ps"]], "ts": [sc[p[0]] for p in f["ps"]], "res": f["ret"], "body": mk(f["body"], sc)})


def axioms():
    x, y, z, xs = (ir.Var(v, ir.Int) for v in ("x", "y", "z")) and (ir.Var("x", ir.Int), ir.Var("y", ir.Int), ir.Var("z", ir.Int), ir.Var("xs", ir.List[ir.Int]))
    return {"scale_sub": [ir.Axiom(ir.Eq(ir.Call("scale_sub", ir.Int, x, y), ir.Sub(x, ir.Mul(ir.IntLit(2), y))), x, y)],
            "total": [ir.Axiom(ir.Eq(ir.Call("total", ir.Int, xs, z), ir.Sub(z, ir.Call("list_length", ir.Int, xs))), xs, z)]}


theory = []
for f in ("tuples.smt", "integer-fn-axioms.smt", "list-axioms.smt", "map-axioms.smt"):
    with open(os.path.join(scratch, "metalift/utils", f)) as h:
        theory += sexp.parse_all(h.read())
theory = [json.dumps(t) for t in theory]
with open(os.path.join(scratch, "metalift/utils/utils.rkt")) as h:
    RKT = sexp.rkt_defs(h.read())
TH = [None]


def split(forms):
    """the commands of a query that are not the shipped theory"""
    left, kept, rest = list(theory), [], []
    for f in forms:
        j = json.dumps(f)
        if j in left:
            left.remove(j)
            kept.append(f)
        else:
            rest.append(f)
    return rest, kept


def text_of(fns):
    return "\n\n".join(pyprint.fn(f) for f in fns)


seen = {}
real = parser.check_solution


def reader(*a, **k):
    r = real(*a, **k)
    for d in r[1]:
        if isinstance(d, FN):
            seen[d.name()] = {"name": d.name(), "ps": [[p.args[0], ""] for p in d.arguments()], "body": readback.rb(d.body())}
    return r


parser.check_solution = synthesis.check_solution = reader


def run(s):
    asks, queries, cur = [0, 0], [], {}
    sums, invs = s["sums"], s["invs"]
    last = len(sums) if len(sums) > 1 else 2

    def answer(messages):
        users = [m if isinstance(m, str) else m.get("content") or m.get("parts") for m in messages if isinstance(m, str) or m["role"] == "user"]
        seen.clear() if not any("invariant" in u for u in users) else None
        if any("invariant" in u for u in users):
            asks[1] += 1
            cur["inv"] = min(asks[1], 2) - 1
            return "Here:\n```python\n%s\n```\n" % text_of(invs[cur["inv"]])
        asks[0] += 1
        cur["sum"] = min(asks[0], len(sums)) - 1
        return "Here:\n```python\n%s\n```\n" % text_of([sums[cur["sum"]]])
    ask[0] = answer

    def handler(argv):
        path = str(argv[-1])
        with open(path) as f:
            text = f.read()
        rkt = path.endswith(".rkt")
        forms = sexp.parse_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), signed=rkt)
        q = {"rkt": rkt, "sum": cur["sum"], "inv": cur["inv"], "text": text, "forms": forms, "back": json.loads(json.dumps(list(seen.values())))}
        queries.append(q)
        n = cur["sum"] + 1 if len(sums) > 1 else cur["inv"] + 1
        return (OUTR if rkt else OUT)["proved" if n >= last else "sat"]
    world = World(handler)
    code = {"I": ir.Int, "B": ir.Bool, "L": ir.List[ir.Int], "M": ir.Matrix[ir.Int]}
    V = lambda p: ir.Var(p[0], code[p[1]])  # noqa: E731
    by_name = lambda ps: sorted(ps, key=lambda p: p[0])  # noqa: E731
    rv = ir.Var("rv", code[s["ret"]])
    x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
    ps = ir.Call(B + "_ps", ir.Bool, *[V(p) for p in by_name(sums[0]["ps"])], rv)
    up = lambda v: ir.Add(v, ir.IntLit(1)) if v.args[0] == "x" else v  # noqa: E731

    def inv(k, f=lambda v: v):
        return ir.Call("%s_inv%d" % (B, k), ir.Bool, *[f(V(p)) for p in by_name(invs[0][k]["ps"])])
    I = range(s["loops"])
    lt = ir.Lt(x, y)
    step = [ir.Implies(inv(k), inv(k, up)) for k in I]
    conds = [ir.Implies(inv(1), inv(0))] if s["loops"] == 2 else []
    conds += [[ir.Implies(inv(0), ps)], step + [ir.Implies(ir.And(inv(0), ir.Not(lt)), ps)], step + [ir.Implies(lt, inv(0)), ir.Implies(inv(0), ps)]][s["form"]]
    vs = {p[0]: p[1] for f in [sums[0]] + invs[0] for p in f["ps"]}
    vs.update({"rv": s["ret"], "x": "I", "y": "I"})
    driver = NS(var_tracker=NS(all=lambda: [V(p) for p in vs.items()]), asserts=[ir.Bool(c) for c in conds])
    ob = lambda n: ir.create_object(code[vs[n]], n)  # noqa: E731
    names = [[p[0] for p in f["ps"] if p[0] not in ("x", "rv")] for f in invs[0]]
    li = SingleLoopInfo(loop_var=ob("x"), read_vars=[ob(n) for n in names[0]], modified_vars=[ob("rv")]) if s["loops"] == 1 else DoubleLoopInfo(
        outer_loop_var=ob("x"), inner_loop_var=ob("x"), outer_loop_read_vars=[ob(n) for n in names[0]], inner_loop_read_vars=[ob(n) for n in names[1]],
        outer_loop_modified_vars=[ob("rv")], inner_loop_modified_vars=[ob("rv"), ir.create_object(ir.Int, "w")])
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    err = ""
    world.install()
    try:
        synthesis.run_llm_synthesis_algorithm(
            driver=driver, loop_info=li, output_var=ob("rv"), source_code="int bench(int x) { return x; }", benchmark_name=B, llm_model=synthesis.LLMModel.GPT,
            dsl_fns=[lib_fn(f) for f in D["lib"]], dsl_fn_name_to_axioms=axioms(), max_num_ps_sols=len(sums), max_num_inv_sols=2 if len(sums) == 1 else 1,
            verification_method=synthesis.VerificationMethod.ROSETTE if s["how"] == "rosette" else synthesis.VerificationMethod.SMT)
    except Hang:
        err = "hangs"
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        err = "" if "No correct solution" in str(e) else "%s: %s (%s)" % (type(e).__name__, str(e)[:150], tb.name)
        if os.environ.get("TRACE"):
            traceback.print_exc(file=sys.stderr)
    finally:
        world.uninstall()
        sys.stdout = so
    out = []
    for q in queries:
        r = {"sid": s["id"], "rkt": q["rkt"], "sum": sums[q["sum"]], "invs": invs[q["inv"]], "form": s["form"], "ret": s["ret"], "vars": vs, "text": q["text"][-6000:],
             "back": [b for b in q["back"] if b["name"] == B or b["name"].startswith("invariant")], "cmds": [], "G": {"": [[], "", ["i", 0]]}, "goal": ["i", 0], "known": []}
        if q["rkt"]:
            G = sexp.rkt_defs(q["text"])
            r["G"] = G or r["G"]
            for f in q["forms"]:
                if f[0] == "l" and f[1] and f[1][0] == ["s", "define"] and f[1][1][0] == "s":
                    r["known"].append(f[1][1][1])
                    if f[1][1][1] == "vc":
                        r["goal"] = f[1][2][1][1][1][1]
                if f[0] == "l" and f[1] and f[1][0] in (["s", "define-symbolic"], ["s", "define-symbolic*"]):
                    r["known"] += [y[1] for y in f[1][1:-1]]
        else:
            r["cmds"], kept = split(q["forms"])
            if TH[0] is None:
                env = sexp.smt_env("\n".join(sexp.show(f) for f in kept))
                TH[0] = {"sigs": env["sigs"], "defs": env["defs"]}
        out.append(r)
    return out, {"id": s["id"], "err": err, "asks": asks, "queries": len(queries), "text": text_of(sums) + "\n\n" + "\n\n".join(text_of(i) for i in invs)}


cases, runs = [], []
for s in D["sessions"]:
    a, b = run(s)
    cases += a
    runs.append(b)
with open(outp, "w") as f:
    f.write(json.dumps({"cases": cases, "runs": runs, "th": TH[0], "rkt": RKT, "axioms": {"scale_sub": ["x", "y"], "total": ["xs", "z"]}}))
