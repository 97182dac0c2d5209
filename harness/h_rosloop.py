"""argv: runs.json out.json scratch -- replays behaviours of spec/RosLoop.tla into the real Rosette synthesis loop."""
import inspect
import itertools
import json
import os
import re
import sys
import traceback

import mlload  # noqa: F401
import sexp
from fakeproc import Hang, Script, World
from h_rosloop_tables import OUT, OUTR

from metalift import ir, synthesize_rosette
from metalift.exceptions import CVC5UnsupportedException

FNS = {"f_ps": 100, "f_inv0": 200}
SIG = inspect.signature(synthesize_rosette.synthesize)



class Odd(ir.FnDecl):
    """a function of the target language no SMT text exists for"""

    def toSMT(self):
        raise CVC5UnsupportedException("Odd")

    def map_args(self, f):
        return self


def ident(defs):
    """the candidate a query's definitions belong to; -1 when they are not those of one candidate"""
    got = set()
    for n, base in FNS.items():
        b = defs[n][-1] if n in defs else None
        if b is None or b[0] != "i" or b[1] < base:
            return -1
        got.add(b[1] - base)
    return got.pop() if len(got) == 1 else -1


def ask(argv):
    """reads a verification query: (candidate, what is wrong with the query)"""
    path = argv[-1]
    with open(path) as f:
        text = f.read()
    try:
        if path.endswith(".smt"):
            forms = sexp.parse_all(text)
            heads = [f[1][0][1] for f in forms if f[0] == "l" and f[1]]
            defs = sexp.smt_env("\n".join(sexp.show(f) for f in forms if f[1][0][1] in ("define-fun", "define-fun-rec") and f[1][1][1] in FNS))["defs"]
            goal = [sexp.show(f) for f in forms if f[0] == "l" and f[1][0][1] == "assert"]
            ok = "check-sat" in heads and any(all(n in g for n in FNS) and "(not" in g for g in goal)
        else:
            body = "\n".join(l for l in text.splitlines() if not l.startswith("#lang"))
            defs = sexp.rkt_defs(text)
            goal = defs.get("assertions", [0, 0, ["s", ""]])[2]
            ok = all(n in sexp.show(goal) for n in FNS) and any(sexp.show(f) == "(verify (assertions))" for f in sexp.parse_all(body, signed=True))
            odd = [sexp.show(f) for f in sexp.parse_all(body, signed=True) if "odd" in sexp.show(f) and f[1][0][1] in ("define", "define-symbolic")]
            ok = ok and odd == ["(define-symbolic odd (~> integer? integer?))"]
    except Exception as e:
        return -1, "unreadable query: %s" % e
    return ident(defs), "" if ok else "the query does not ask for the condition"


def holds(x, same):
    """a constraint on a round's answer; same: (function, solution) -> the answer's function is that solution's"""
    h = x[1][0][1] if x[0] == "l" else ""
    a = x[1][1:] if x[0] == "l" else []
    if h in ("assume", "assert", "begin"):
        return holds(a[-1], same)
    if h in ("!", "not"):
        return not holds(a[0], same)
    if h in ("||", "or"):
        return any(holds(y, same) for y in a)
    if h in ("&&", "and"):
        return all(holds(y, same) for y in a)
    if h in ("eq?", "equal?") and len(a) == 2:
        call, ev = a if sexp.show(a[1]).startswith("(evaluate") else a[::-1]
        if ev[1][0][1] == "evaluate" and ev[1][1] == call:
            return same[call[1][0][1], ev[1][2][1]]
    raise ValueError("constraint not understood: " + sexp.show(x))


def rounds_wrong(forms, rounds):
    """each round must rule out the answers of the earlier rounds and nothing else"""
    ses = [(f[1][1][1], f[1][2][1]) for f in forms if f[0] == "l" and f[1] and f[1][0] == ["s", "define"] and f[1][2][0] == "l" and f[1][2][1][:1] == [["s", "synthesize"]]]
    if len(ses) != rounds + 1:
        return "%d rounds for %d" % (len(ses), rounds + 1)
    for k, (name, s) in enumerate(ses):
        g = s[s.index(["s", "#:guarantee"]) + 1]
        cs = [y for y in (g[1][1:] if g[1][0] == ["s", "begin"] else []) if y != ["l", [["s", "assertions"]]]]
        prev = [n for n, _ in ses[:k]]
        for p in itertools.product(range(1 << len(FNS)), repeat=len(prev)):
            same = {(f, n): bool(b >> i & 1) for n, b in zip(prev, p) for i, f in enumerate(FNS)}
            new = all(b != (1 << len(FNS)) - 1 for b in p)
            if all(holds(c, same) for c in cs) != new:
                return "round %d %s" % (k, "rules out a new answer" if new else "may give an earlier round's answer again")
    return ""


def run(r, i):
    cfg = r["cfg"]
    base = "case"
    logs = "synthesisLogs"
    os.makedirs(logs, exist_ok=True)
    for f in os.listdir(logs):
        os.remove(os.path.join(logs, f))
    queries, bad = [], []

    def solution(k):
        # the second function is left out when no choice had to be made for it, in other behaviours printed
        return "#t\n/x/synthesisLogs/case.rkt:10:0\n(define (f_ps x) %d)\n/x/synthesisLogs/case.rkt:11:0\n(define (f_inv0 x y) %d)\n" % (100 + k, 200 + k)
    for k in range(cfg["stale"]):
        with open("%s/%s_sol%d" % (logs, base, k), "w") as f:
            f.write(solution(50 + k))

    targets = []

    def start(path):
        """the answer files of the rounds, as the program names them"""
        with open(path) as f:
            text = f.read()
        targets[:] = re.findall(r'with-output-to-file\s+"([^"]+)"', text)
        try:
            why = rounds_wrong(sexp.parse_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), signed=True), cfg["rounds"])
        except Exception as e:
            why = "unreadable program: %s" % e
        if why:
            bad.append(why)

    state = {"n": 0}

    def fire(sc, what, code):
        if what == "exit":
            sc.code = code
        else:
            k = state["n"]
            state["n"] += 1
            if k < len(targets):
                with open(targets[k], "w") as f:
                    f.write(solution(k) if what == "sat" else "#f\n(unsat)\n")

    def end(sc):
        while state["n"] <= cfg["rounds"]:
            fire(sc, "unsat", 0)
        sc.code = 0

    def handler(argv):
        prog = os.path.basename(argv[0])
        if prog == "racket":
            with open(argv[-1]) as f:
                verify = "(synthesize" not in f.read()
            if not verify:
                start(argv[-1])
                return Script(world, r["trace"], fire, end)
        k, why = ask(argv)
        queries.append(k)
        if why and why not in bad:
            bad.append(why)
        tbl = OUTR if prog == "racket" else OUT
        a = cfg["ans"][k] if 0 <= k < len(cfg["ans"]) else "proved" if k >= 50 else "sat"
        return tbl[a]
    world = World(handler)
    x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
    ch = lambda b: ir.Choose(*[ir.IntLit(b + k) for k in (0, 1, 2, 50, 51)])  # noqa: E731
    synths = [ir.Synth("f_ps", ch(100), x), ir.Synth("f_inv0", ch(200), x, y)]
    vc = ir.Implies(ir.Ge(x, ir.Call("f_inv0", ir.Int, x, y)), ir.Gt(ir.Call("f_ps", ir.Int, x), ir.IntLit(0)))
    lang = [ir.FnDeclRecursive("inc", ir.Int, ir.Add(x, ir.IntLit(1)), x)]
    unint = []
    if cfg["unsupported"]:
        lang.append(Odd("odd", ir.Int, None, x))
        unint = ["odd"]
    kw = dict(basename=base, target_lang=lang, vars={x, y}, inv_and_ps=synths, preds=[], vc=vc, loop_and_ps_info=synths, cvc_path="cvc5",
              no_verify=cfg["noverify"], rounds_to_guess=cfg["rounds"], fns_to_guess=synths if cfg["rounds"] else [], log=bool(i % 2), list_bound=2,
              uninterp_fns=unint)
    res = {"out": "fail", "got": [], "hung": False, "bad": "", "queries": queries, "err": ""}
    world.install()
    try:
        fs = synthesize_rosette.synthesize(**{k: v for k, v in kw.items() if k in SIG.parameters})
        if fs is None:
            res["out"] = "ret"
        else:
            res["out"] = "ret"
            d = {f.name(): [None, ["i", f.body().args[0]]] for f in fs}
            res["got"] = [ident(d)]
            if len(fs) != len(FNS):
                res["got"] = [-1]
    except Hang:
        res["hung"] = True
    except Exception as e:
        res["err"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        if os.environ.get("TRACE"):
            traceback.print_exc(file=sys.stderr)
        # only the loop's own ways of ending count as an orderly failure
        if type(e).__name__ in ("NameError", "UnboundLocalError", "TypeError", "AttributeError", "KeyError", "IndexError", "FileNotFoundError"):
            bad.append("ends with %s" % res["err"])
    finally:
        world.uninstall()
    res["bad"] = "; ".join(bad)
    r["res"] = res
    return r


os.makedirs(sys.argv[3], exist_ok=True)
with open(sys.argv[1]) as f:
    runs = json.load(f)
outp = os.path.abspath(sys.argv[2])
os.chdir(sys.argv[3])
so = sys.stdout
with open(os.devnull, "w") as n:
    sys.stdout = n
    cases = [run(r, i) for i, r in enumerate(runs)]
    sys.stdout = so
with open(outp, "w") as f:
    f.write(json.dumps({"cases": cases}))
