"""argv: runs.json out.json scratch -- replays behaviours of spec/CvcLoop.tla into the real CVC5 synthesis loop."""
import inspect
import json
import os
import sys
import traceback

import mlload  # noqa: F401
import sexp
from fakeproc import Hang, Script, World
from h_rosloop_tables import OUT

from metalift import ir, synthesize_cvc5

SIG = inspect.signature(synthesize_cvc5.synthesize)
# names of the two functions: one the beginning of the other, and names that look like the solver's own words
NAMES = [("f_ps", "f_inv0"), ("f", "f_ps"), ("sygus", "candidate"), ("failsafe", "infeasible_inv"), ("x_ps", "x"), ("define", "s")]


def ident(bodies, base):
    """the candidate these bodies belong to; -1 when they are not those of one candidate"""
    got = set()
    for n, b in base.items():
        v = bodies.get(n)
        if v is None or v < b:
            return -1
        got.add(v - b)
    return got.pop() if len(got) == 1 else -1


def run(r, i):
    cfg = r["cfg"]
    f, g = NAMES[i % len(NAMES)]
    base = {f: 100, g: 200}
    order = [f, g] if i // len(NAMES) % 2 else [g, f]
    queries, bad = [], []
    pr = {f: "((x Int))", g: "((x Int) (y Int))"}
    txt = {"enum": lambda k: "(sygus-enum (+ x %d))" % k, "note": lambda k: "; fail: sygus-candidate (%d" % k, "blank": lambda k: "",
           "cand": lambda k: "(sygus-candidate %s)" % "".join("(%s %d)" % (n, base[n] + k) for n in order),
           "solution": lambda k: "(\n%s\n)" % "\n".join("(define-fun %s %s Int %d)" % (n, pr[n], base[n] + k) for n in order),
           "infeasible": lambda k: "infeasible", "fail": lambda k: "fail", "error": lambda k: '(error "unexpected ( sygus-candidate")'}

    def handler(argv):
        with open(argv[-1]) as h:
            text = h.read()
        forms = sexp.parse_all(text)
        heads = [x[1][0][1] for x in forms if x[0] == "l" and x[1]]
        if "check-synth" in heads:
            have = [x[1][1][1] for x in forms if x[1][0][1] == "synth-fun"]
            if sorted(have) != sorted(base):
                bad.append("the synthesiser is asked for %s" % have)
            if not any(all(n in sexp.show(x) for n in base) for x in forms if x[1][0][1] == "constraint"):
                bad.append("the synthesiser is not given the condition")
            sc = Script(world, [["poll", cfg["late"], "exit", r["code"]]], fire, lambda s: None)
            sc.out = "".join(txt[k](n) + "\n" for k, n in r["lines"]).encode()
            return sc
        goal = [sexp.show(x) for x in forms if x[1][0][1] == "assert"]
        if "check-sat" not in heads or not any(all(n in x for n in base) and "(not" in x for x in goal):
            bad.append("the query does not ask for the condition")
        defs = sexp.smt_env("\n".join(sexp.show(x) for x in forms if x[1][0][1] in ("define-fun", "define-fun-rec") and x[1][1][1] in base))["defs"]
        queries.append(ident({n: d[-1][1] for n, d in defs.items() if d[-1][0] == "i"}, base))
        return OUT[cfg["ans"]]

    def fire(sc, what, code):
        sc.code = code
    world = World(handler)
    x, y = ir.Var("x", ir.Int), ir.Var("y", ir.Int)
    ch = lambda b: ir.Choose(*[ir.IntLit(b + k) for k in range(6)])  # noqa: E731
    synths = [ir.Synth(f, ch(100), x), ir.Synth(g, ch(200), x, y)]
    vc = ir.Implies(ir.Ge(x, ir.Call(g, ir.Int, x, y)), ir.Gt(ir.Call(f, ir.Int, x), ir.IntLit(0)))
    lang = [ir.FnDeclRecursive("inc", ir.Int, ir.Add(x, ir.IntLit(1)), x)]
    # as the drivers of the front ends call it
    kw = dict(basename="case", target_lang=lang, vars={x, y}, inv_and_ps=synths, preds=[], vc=vc, loop_and_ps_info=synths, cvc_path="cvc5")
    if i % 3 == 1:
        kw["uninterp_fns"] = []
    if i % 3 == 2:
        kw.update({k: v for k, v in dict(no_verify=False, list_bound=2, unbounded_ints=True, log=False, uid=3, rounds_to_guess=0, fns_to_guess=[]).items()})
    res = {"out": "fail", "got": -1, "hung": False, "bad": "", "queries": queries, "err": ""}
    world.install()
    try:
        fs = synthesize_cvc5.synthesize(**kw)
        res["out"] = "ret"
        res["got"] = ident({h.name(): h.body().args[0] for h in fs}, base) if len(fs) == len(base) else -1
    except Hang:
        res["hung"] = True
    except Exception as e:
        res["err"] = "%s: %s" % (type(e).__name__, str(e)[:100])
        if os.environ.get("TRACE"):
            traceback.print_exc(file=sys.stderr)
        # only the loop's own ways of ending count as an orderly failure
        if type(e).__name__ in ("NameError", "UnboundLocalError", "TypeError", "AttributeError", "KeyError", "IndexError", "FileNotFoundError", "ParseException"):
            bad.append("ends with %s" % res["err"])
    finally:
        world.uninstall()
    res["bad"] = "; ".join(bad)
    r["res"] = res
    return r


os.makedirs(sys.argv[3], exist_ok=True)
with open(sys.argv[1]) as h:
    runs = json.load(h)
outp = os.path.abspath(sys.argv[2])
os.chdir(sys.argv[3])
so = sys.stdout
with open(os.devnull, "w") as n:
    sys.stdout = n
    cases = [run(r, i) for i, r in enumerate(runs)]
    sys.stdout = so
with open(outp, "w") as h:
    h.write(json.dumps({"cases": cases}))
