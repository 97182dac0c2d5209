"""argv: runs.json out.json scratch -- replays behaviours of spec/LlmLoop.tla into the real loop around language models."""
import inspect
import io
import json
import os
import re
import shutil
import sys
import traceback

import mlload
import sexp
from fakeproc import Hang, World
from h_rosloop_tables import OUT, OUTR

from llmstubs import NS, ask  # noqa: E402

from llmlift_scripts import parser, synthesis  # noqa: E402
from llmlift_scripts.utils import DoubleLoopInfo, SingleLoopInfo  # noqa: E402

from metalift import ir  # noqa: E402
from metalift.vc_util import and_objects  # noqa: E402,F401

B = "bench"
MODEL = {"gpt": synthesis.LLMModel.GPT, "claude": synthesis.LLMModel.CLAUDE, "gemini": synthesis.LLMModel.GEMINI}
HOW = {"smt": synthesis.VerificationMethod.SMT, "rosette": synthesis.VerificationMethod.ROSETTE}
x, i, j, o, w = (ir.Int(v) for v in ("x", "i", "j", "o", "w"))


def fake_check(*a, **k):
    """what the reader gives for the texts made here: functions with the request's number as a constant"""
    sol = a[0] if a else k["solution"]
    n = re.findall(r"def (\w+)\((.*?)\) -> (\w+): return (\d+)", sol)
    want = k.get("expected_num_funcs", 1)
    if len(n) != want:
        raise Exception("Only rewrite the given functions")
    fs = []
    for name, args, ret, c in n:
        t = ir.Int if ret == "int" else ir.Bool
        v = ir.IntLit(int(c)) if ret == "int" else ir.Ge(i.src, ir.IntLit(int(c)))
        fs.append(ir.FnDeclRecursive(name, t, v, *[ir.Var(p.split(":")[0].strip(), ir.Int) for p in args.split(",")]))
    return [f.name() for f in fs], fs, []


parser.check_solution = fake_check
synthesis.check_solution = fake_check


class Tracker:
    def all(self):
        return [v.src for v in (x, i, j, o, w)]


HEADS = ("define-fun", "define-fun-rec", "define", "define-bounded")


def consts(forms, name):
    """the request a definition of a query comes from: its constant; None when it is not there or not of that shape"""
    ds = []
    for f in forms:
        if f[0] == "l" and len(f[1]) > 2 and f[1][0][1] in HEADS:
            head = f[1][1][1][0] if f[1][1][0] == "l" else f[1][1]
            if head[1] == name:
                ds.append(sexp.show(f))
    if len(ds) != 1:
        return None
    m = re.findall(r"\b(\d{4,})\b", ds[0])
    return int(m[0]) if len(m) == 1 else None


def run(r, k):
    cfg = r["cfg"]
    asks, queries, bad = [], [], []
    inv = ["invariant"] if cfg["loops"] == 1 else ["invariant1", "invariant2"]
    invn = [B + "_inv0", B + "_inv1"][:cfg["loops"]]

    def answer(messages):
        n = len(asks) + 1
        # a request for a summary or for invariants, told apart by the text of the first message
        users = [m if isinstance(m, str) else m.get("content") or m.get("parts") for m in messages if isinstance(m, str) or m["role"] == "user"]
        kind = "inv" if any("invariant" in u for u in users) else "ps"
        asks.append(kind)
        if n > len(r["asks"]):
            # past the end of the behaviour: nothing readable, then nothing at all
            if n > len(r["asks"]) + 20:
                raise Hang()
            return "```python\nmore\n```"
        p, t = r["asks"][n - 1][1:]
        if p == "nocode":
            return "Sorry, I cannot do that. invariant"
        if p == "unreadable":
            return "```python\ndef %s(x: int) -> int: while True: pass\n```" % B
        if kind == "ps":
            return "Here:\n```python\ndef %s(x: int) -> int: return %d\n```" % (B if p == "good" else "summary", 1000 + t)
        names = inv if p == "good" else ["helper"] + inv[1:]
        return "```python\n%s\n```" % "\n\n".join("def %s(i: int, o: int, x: int%s) -> bool: return %d" % (m, ", j: int" if m == "invariant2" else "", 2000 + 1000 * q + t) for q, m in enumerate(names))
    ask[0] = answer

    def ident(forms):
        a = consts(forms, B + "_ps")
        vs = [consts(forms, m) for m in invn]
        if a is None or None in vs:
            return None
        nums = {v - 2000 - 1000 * q for q, v in enumerate(vs)}
        return [a - 1000, nums.pop()] if len(nums) == 1 else [-1, -1]

    def handler(argv):
        path = str(argv[-1])
        with open(path) as f:
            text = f.read()
        rkt = path.endswith(".rkt")
        tbl = OUTR if rkt else OUT
        forms = sexp.parse_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), signed=rkt)
        q = ident(forms)
        goals = [sexp.show(f) for f in forms if sexp.show(f).startswith("(define vc (verify (assert " if rkt else "(assert (not ")]
        if len(goals) != 1 or not all(m in goals[0] for m in [B + "_ps"] + invn) or (not rkt and "(check-sat)" not in text):
            bad.append("the query does not ask for the conditions")
        if q is None:
            # a query whose condition mentions a function that is not defined
            return tbl["error"]
        queries.append(q)
        if not (q[0] in (1, 2) and q[1] in (1, 2)):
            return tbl["sat"]
        return tbl[r["tab"][q[0] - 1][q[1] - 1]]
    world = World(handler)
    call = lambda n, *a: ir.Call(n, ir.Bool, *[v.src for v in a])  # noqa: E731
    conds = [ir.Implies(call(invn[0], i, o, x), call(B + "_ps", x, o))]
    if cfg["loops"] == 2:
        conds.append(ir.Implies(call(invn[1], i, o, x, j), call(invn[0], i, o, x)))
    driver = NS(var_tracker=Tracker(), asserts=[ir.Bool(c) for c in conds])
    li = SingleLoopInfo(loop_var=i, read_vars=[x], modified_vars=[o]) if cfg["loops"] == 1 else DoubleLoopInfo(
        outer_loop_var=i, inner_loop_var=j, outer_loop_read_vars=[x], inner_loop_read_vars=[x], outer_loop_modified_vars=[o], inner_loop_modified_vars=[o, w])
    res = {"out": "fail", "shown": -1, "asks": asks, "queries": queries, "crashed": False, "bad": "", "err": ""}
    buf = io.StringIO()
    so, sys.stdout = sys.stdout, buf
    world.install()
    try:
        synthesis.run_llm_synthesis_algorithm(
            driver=driver, loop_info=li, output_var=o, source_code="int bench(int x)", benchmark_name=B, llm_model=MODEL[cfg["llm"]], dsl_fns=[],
            dsl_fn_name_to_axioms={}, max_num_ps_sols=cfg["mps"], max_num_inv_sols=cfg["minv"], verification_method=HOW[cfg["how"]])
        res["out"] = "ret"
        m = re.findall(r"return (1\d\d\d)\b", buf.getvalue())
        if m:
            res["shown"] = int(m[-1]) - 1000
    except Hang:
        res["bad"] = "asks the model for ever"
    except Exception as e:
        res["err"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        res["crashed"] = True
        if os.environ.get("TRACE"):
            traceback.print_exc(file=sys.stderr)
    finally:
        world.uninstall()
        sys.stdout = so
    res["bad"] = res["bad"] or "; ".join(sorted(set(bad)))
    r["res"] = res
    return r


os.makedirs(sys.argv[3], exist_ok=True)
with open(sys.argv[1]) as f:
    runs = json.load(f)
outp = os.path.abspath(sys.argv[2])
os.chdir(sys.argv[3])
os.makedirs("metalift/utils", exist_ok=True)
for n in ("utils.rkt", "bounded.rkt"):
    shutil.copy(os.path.join(mlload.REPO, "metalift/utils", n), "metalift/utils/" + n)
os.environ["BITWUZLA_PATH"] = "/nonexistent/bitwuzla"
cases = [run(r, n) for n, r in enumerate(runs)]
with open(outp, "w") as f:
    f.write(json.dumps({"cases": cases}))
