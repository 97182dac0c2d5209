"""argv: terms.json out.json scratch -- has the real CVC5 loop read candidates printed in CVC5's way."""
import inspect
import json
import os
import sys

import mlload
import readback
import sexp
import terms
from fakeproc import Script, World
from metalift import ir, synthesize_cvc5

with open(sys.argv[1]) as h:
    J = json.load(h)
out, scratch = os.path.abspath(sys.argv[2]), sys.argv[3]
os.makedirs(scratch, exist_ok=True)
U = os.path.join(mlload.REPO, "metalift", "utils")
VT = {"x": "I", "y": "I", "z": "I", "p": "B", "q": "B", "s": "S", "r": "S", "t": "T", "v": "U"}
LEAF = {"I": "y", "B": "q", "S": "r", "T": "t", "U": "v"}

readback.CALL.update({"tuple%d" % k: "tuple" for k in (2, 3, 4)})
lang = [terms.build_fn(n, d) for n, d in J["fns"].items()]
smt, sigs = {}, {}
with open(os.path.join(U, "tuples.smt")) as h:
    texts = [h.read()] + [fd.toSMT() for fd in lang]
for t in texts:
    env = sexp.smt_env(t)
    smt.update(env["defs"])
    sigs.update(env["sigs"])


def fvs(n, acc):
    if n[0] == "var" and n[1] in VT:
        acc.add(n[1])
    for x in n[2]:
        fvs(x, acc)
    return acc


def subs(s, acc):
    if s[0] == "l" and s[1][0] != ["s", "as"] and not (s[1][0] == ["s", "-"] and s[1][1][0] == "i" and len(s[1]) == 2):
        k = sexp.show(s)
        acc[k] = acc.get(k, 0) + 1
        if acc[k] == 1:
            for x in s[1]:
                subs(x, acc)
    return acc


def neg(s):
    """negative numbers as applications of minus"""
    if s[0] == "i" and s[1] < 0:
        return ["l", [["s", "-"], ["i", -s[1]]]]
    return ["l", [neg(x) for x in s[1]]] if s[0] == "l" else s


def shared(s, least):
    """the text with a let around it for every application that occurs that often, innermost first, as CVC5 prints terms"""
    n = 0
    lets = []
    if "(let " in sexp.show(s):
        return sexp.show(s)
    while True:
        rep = [k for k, v in subs(s, {}).items() if v >= least and k != sexp.show(s)]
        if not rep:
            break
        k = min(rep, key=len)
        n += 1
        name = "_let_%d" % n

        def go(x):
            if x[0] != "l":
                return x
            if sexp.show(x) == k:
                return ["s", name]
            return ["l", [go(y) for y in x[1]]]
        lets.append((name, k))
        s = go(s)
    text = sexp.show(s)
    for name, k in reversed(lets):
        text = "(let ((%s %s)) %s)" % (name, k, text)
    return text


def sig(name, ps, ret):
    return "%s(%s): %s" % (name, ", ".join("%s:%s" % (p.args[0], readback.tstr(p.type)) for p in ps), readback.tstr(ret))


now = [""]


def run(tid, n):
    t = terms.type_of(n, None)
    e = terms.build(n)
    orig = sexp.parse_one(e.toSMT())
    text = shared(neg(orig), 2 - tid % 2)
    now[0] = text
    vs = [ir.Var(v, terms.TYPES[VT[v]]) for v in sorted(fvs(n, {LEAF[t]}))]
    alt = ir.Var(LEAF[t], terms.TYPES[t])
    names = [("f_ps", "f_ps2"), ("f_inv0", "f"), ("x", "y_ps"), ("cand", "sygus-x")][tid % 4]
    fs = [ir.Synth(names[0], ir.Choose(e, alt), *vs), ir.Synth(names[1], ir.Choose(ir.BoolLit(True), ir.BoolLit(False)), ir.Var("x", ir.Int))]
    cand = ["(%s %s)" % (names[0], text), "(%s %s)" % (names[1], "true" if tid % 2 else "false")]
    if tid % 3:
        cand.reverse()

    def handler(argv):
        with open(argv[-1]) as h:
            q = h.read()
        if "(check-synth)" in q:
            sc = Script(world, [["poll", 0, "exit", 0]], lambda s, w, c: setattr(s, "code", c), lambda s: None)
            sc.out = ("(sygus-candidate %s)\n(\n(define-fun f () Int 0)\n)\n" % "".join(cand)).encode()
            return sc
        return 0, b"unsat\n", b""
    world = World(handler)
    world.install()
    try:
        res = synthesize_cvc5.synthesize(basename="case", target_lang=lang, vars=set(vs), inv_and_ps=fs, preds=[], vc=ir.BoolLit(True), loop_and_ps_info=fs, cvc_path="cvc5")
    finally:
        world.uninstall()
    got = [f for f in res if f.name() == names[0]]
    oth = [f for f in res if f.name() == names[1]]
    if len(got) != 1 or len(oth) != 1 or len(res) != 2:
        return {"id": tid, "bad": "returned functions: %s" % [f.name() for f in res], "printed": text}
    if readback.rb(oth[0].body())[:2] != ["bool", bool(tid % 2)]:
        return {"id": tid, "bad": "%s is read back as %s" % (cand, oth[0].body()), "printed": text}
    b = got[0].body()
    return {"id": tid, "term": n, "type": t, "text": sexp.parse_one(text), "back": readback.rb(b), "sig": sig(got[0].name(), got[0].arguments(), got[0].return_type()),
            "want": sig(names[0], vs, terms.TYPES[t]), "smt": sexp.parse_one(b.toSMT()), "smt0": orig, "printed": text, "shown": str(b)}


os.chdir(scratch)
good, bad = [], []
so = sys.stdout
with open(os.devnull, "w") as nul:
    sys.stdout = nul
    for i, n in enumerate(J["terms"]):
        try:
            r = run(i, n)
        except Exception as exn:
            import traceback; tb = traceback.extract_tb(exn.__traceback__)[-1]
            r = {"id": i, "bad": "%s: %s (%s:%d) " % (type(exn).__name__, str(exn)[:160], tb.name, tb.lineno), "printed": now[0]}
        (bad if "bad" in r else good).append(r)
    sys.stdout = so
with open(out, "w") as h:
    h.write(json.dumps({"cases": good, "bad": bad, "smt": smt, "sigs": sigs}))
