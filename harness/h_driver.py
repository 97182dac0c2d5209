"""argv: histories.json out.json scratch ll loops -- plays histories of API calls on the real drivers."""
import inspect
import json
import os
import re
import sys
from collections import defaultdict

import mlload  # noqa: F401
from mypy import build as mbuild
from readback import rb, tstr

from metalift import ir
from metalift.frontend import llvm as cfe
from metalift.frontend import python as pfe
from metalift.synthesize_rosette import synthesize as real_synthesis

src, out, scratch, LL, LOOPS = sys.argv[1:6]
PY = """
from typing import List, Set

def f(p: int, q: int) -> int:
    return p + q

def x(n: int) -> int:
    return n + 1

def x_ps(n: int) -> int:
    i = 0
    while i < n:
        i = i + 1
    return i

def mk(xs: List[int]) -> List[int]:
    i = 0
    out: List[int] = []
    while i < len(xs):
        out.append(xs[i])
        i = i + 1
    return out

def x_inv0(q: int) -> int:
    i = 0
    while i < q:
        i = i + 2
    return i

def st(n: int, s: Set[int]) -> Set[int]:
    return s

def mk_inv0(p: int, n: int) -> int:
    return p - n
"""
PARAMS = {"f": "pq", "x": "n", "x_ps": "n", "mk": ["xs"], "x_inv0": "q", "st": "ns", "bp": "n", "mk_psl": ["xs"], "mk_inv0": "pn"}
FNS = {"py": ["f", "x", "x_ps", "mk", "x_inv0", "st", "mk_inv0"], "c": ["f", "x", "x_ps", "mk", "bp", "mk_psl", "mk_inv0"]}
path = os.path.join(scratch, "source.py")
with open(path, "w") as f:
    f.write(PY)
real_build, memo = mbuild.build, {}


def build_once(sources, *a, **k):
    key = tuple(s.path for s in sources)
    if key not in memo:
        memo[key] = real_build(sources, *a, **k)
    return memo[key]


mbuild.build = build_once
if hasattr(cfe, "get_full_demangled_name"):
    import functools
    cfe.get_full_demangled_name = functools.lru_cache(None)(cfe.get_full_demangled_name)


def obj(n):
    return ir.List(ir.Int, n) if n == "xs" else ir.Set(ir.Int, n) if n == "s" else ir.Int(n)


def tree(e):
    k, pl, a, _ = rb(e)
    return [k, pl, [t4(x) for x in a]]


def t4(x):
    return [x[0], x[1], [t4(y) for y in x[2]]]


def names(q):
    return [o.var_name() for o in q]


DSL = {n: ir.fn_decl(n, ir.Int, ir.Int("a") + i, ir.Int("a")) for i, n in enumerate(("d1", "d2", "d3"))}


def helper(n):
    h = ir.Bool("h1")
    return ir.synth(n, ir.call("helps", ir.Bool, h), h)


def preds(e, acc):
    if isinstance(e, ir.Object):
        e = e.src
    if isinstance(e, ir.Expr):
        if isinstance(e, ir.Call):
            acc.add(e.args[0])
        for x in e.args:
            preds(x, acc)
    return acc


class History:
    def __init__(self, lang):
        self.lang, self.given, self.fs = lang, {}, {}
        self.fe = pfe if lang == "py" else cfe
        self.d = self.fe.Driver()
        self.env = {}

    def grammar(self, key, k):
        def go(writes, reads, in_scope, relaxed=False):
            self.given[k] = {"w": names(writes), "r": names(reads), "s": names(in_scope)}
            return ir.call("mark", ir.Bool, ir.Int(k), ir.Int(int(relaxed)), *writes, ir.Int(-1), *reads, ir.Int(-2), *in_scope)
        return go

    def step(self, s):
        d, lang = self.d, self.lang
        o = self.o = {"err": ""}
        if s[0] == "analyze":
            n = FNS[lang][s[1] - 1]
            gi, gp = self.grammar(n, 2 * s[2]), self.grammar(n, 2 * s[2] + 1)
            dsl = lambda: [DSL[x] for x in s[3]]  # noqa: E731
            if lang == "py":
                self.fs[s[1]] = d.analyze(path, n, dsl, gi, gp)
            else:
                self.fs[s[1]] = d.analyze(LL, LOOPS, n, dsl, defaultdict(lambda: cfe.InvGrammar(gi, ["n", "xs", "i", "out"] if s[2] // 8 % 2 else [])), gp)
        elif s[0] == "call":
            n = FNS[lang][s[1] - 1]
            args = []
            for a in PARAMS[n]:
                if a not in self.env:
                    self.env[a] = obj(a)
                    d.add_var_object(self.env[a])
                args.append(self.env[a])
            self.fs[s[1]](*args)
        elif s[0] == "helper":
            d.fns_synths = d.fns_synths + [helper(s[1])]
        elif s[0] == "unint":
            d.uninterp_fns = list(s[1])
        elif s[0] == "solve":
            self.solve(s, o)
        elif s[0] == "code":
            seen = []
            token = [object(), "", 0, None, [], False][len(self.d.fns) % 6]
            r = self.fs[s[1]].codegen(lambda e: seen.append(e) or token)
            o.update(e=tree(seen[-1]) if seen else ["none", "", []], passed=r is token and len(seen) == 1)
        elif s[0] == "decl":
            f = d.get_actual_ps_fn_decl()
            t = f.return_type()
            code = {tstr(ir.Int): "I", tstr(ir.List[ir.Int]): "L", tstr(ir.Bool): "B"}
            o.update(e=tree(f.body()), ps=[a.args[0] for a in f.arguments()], ret=code.get(tstr(t), tstr(t)))
        return o

    def solve(self, s, o):
        d, lang = self.d, self.lang
        o["asked"] = False
        self.given.clear()

        def asked(*a, **kw):
            k = inspect.signature(real_synthesis).bind(*a, **kw).arguments
            o["asked"] = True
            o["target"] = [f.args[0] for f in k["target_lang"]]
            o["info"] = [x.args[0] for x in k["loop_and_ps_info"]]
            o["guess"] = [x.args[0] for x in k.get("fns_to_guess") or []]
            o["unint"] = list(k.get("uninterp_fns") or [])
            o["vcpreds"] = sorted(preds(k["vc"], set()))
            o["synths"] = []
            for y in k["inv_and_ps"]:
                b = tree(y.args[1])
                mark = b[2][0][1] if b[1] == "mark" and b[2] else None
                o["synths"].append({"n": y.args[0], "ps": [p.args[0] for p in y.args[2:]], "body": b,
                                    "given": self.given.get(mark, {"w": [], "r": [], "s": []})})
            if s[2] == "fail":
                raise Exception("synthesis failed")
            return [self.answer(y, s[3]) for y in sorted(k["inv_and_ps"], key=lambda y: (len(y.args[0]) * s[3]) % 7)]
        real = self.fe.run_synthesis
        self.fe.run_synthesis = asked
        try:
            d.synthesize(**({} if lang == "py" else {"filename": "t", "relaxed": s[1]}))
        finally:
            self.fe.run_synthesis = real

    def answer(self, y, m):
        n, ps = y.args[0], list(y.args[2:])
        if n in [f + "_ps" for f in FNS[self.lang]]:
            i = FNS[self.lang].index(n[:-3]) + 1
            rv, k, p = ps[-1], ir.Lit(m * 10 + i, ir.Int), ps
            t = rv.type
            if ir.is_list_type(t):
                e = ir.Call("list_append", t, p[0], k)
                if self.lang == "c" and m % 2:
                    return ir.FnDeclRecursive(n, ir.Bool, ir.Call("list_eq", ir.Bool, rv, e), *ps)
            elif ir.is_set_type(t):
                e = ir.Call("set-insert", t, k, p[1])
            elif t == ir.Bool:
                e = ir.Lt(p[0], k)
            else:
                e = ir.Add(p[0], k)
            return ir.FnDeclRecursive(n, ir.Bool, ir.Eq(rv, e), *ps)
        # invariants and helpers: equalities, too, now and then
        lit = ir.Lit(m, ir.Int)
        return ir.FnDeclRecursive(n, ir.Bool, ir.Eq(lit, lit) if m % 3 else ir.And(ir.Eq(lit, lit), ir.Lit(True, ir.Bool)), *ps)


real_out = sys.stdout
sys.stdout = open(os.devnull, "w")
res = []
for c in json.load(open(src)):
    h, obs = History(c["lang"]), []
    for s in c["h"]:
        try:
            o = h.step(s)
        except Exception as e:
            o = h.o
            o["err"] = "%s: %s" % (type(e).__name__, re.sub(r"0x[0-9a-f]+", "", str(e))[:100].replace("\n", " "))
            if os.environ.get("TRACE"):
                import traceback
                traceback.print_exc()
            if str(e) == "synthesis failed":
                o["err"] = str(e)
        if s[0] == "solve":
            o = {**{"asked": False, "target": [], "info": [], "guess": [], "unint": [], "vcpreds": [], "synths": []}, **o}
        obs.append(o)
    res.append({"id": c["id"], "lang": c["lang"], "h": c["h"], "obs": obs})
with open(out, "w") as f:
    json.dump(res, f)
