"""argv: grams.json out.json scratch -- declares every grammar with the real library and emits it with the real writers."""
import json
import os
import sys
import traceback

import mlload
import readback
import sexp
import terms
from metalift import ir, rosette_translator, smt_util
from metalift.vc_util import *  # noqa: F401,F403
try:
    from metalift.analysis import CodeInfo
except ImportError:
    CodeInfo = None

src, out, scratch = sys.argv[1:4]
U = os.path.join(mlload.REPO, "metalift", "utils")
J = json.load(open(src))
real_out = sys.stdout
sys.stdout = open(os.devnull, "w")


def rename(n, m):
    k, pl, a, how = n
    return [k, m.get(pl, pl) if k == "var" else pl, [rename(x, m) for x in a], how]


def fvs(n, acc):
    if n[0] == "var":
        acc.setdefault(n[1], n[3])
    for x in n[2]:
        fvs(x, acc)
    return acc


def bound_z(n):
    return n[0] == "let" or any(bound_z(x) for x in n[2])


class Builder:
    """terms.build with choices; share: equal choices are one object"""
    def __init__(self, share):
        self.share, self.memo = share, {}

    def build(self, n, objs=False):
        if n[0] != "choose":
            return PLAIN(n, objs)
        key = json.dumps(n)
        if not self.share or key not in self.memo:
            t = terms.type_of(n, None)
            if n[3] == "o.choose":
                r = terms.ex(ir.choose(*[terms.as_obj(terms.build(x), t) for x in n[2]]))
            else:
                r = ir.Choose(*[terms.ex(terms.build(x)) for x in n[2]])
            self.memo[key] = r
        r = self.memo[key]
        return terms.as_obj(r, terms.type_of(n, None)) if objs else r


PLAIN = terms.build
PLAIN_T = terms.type_of
terms.type_of = lambda n, o=None: terms.type_of(n[2][0], o) if n[0] == "choose" else PLAIN_T(n, o)


def declare(g, name):
    m = dict(g["ren"])
    term = rename(g["e"], m)
    back = {v: k for k, v in m.items()}
    vs = fvs(term, {})
    if bound_z(term):
        vs.pop("z", None)
    if len(vs) < 2:
        vs[m.get("y", "y")] = "I"
        vs[m.get("xs", "xs")] = "L"
    vs = sorted(vs.items())
    k = g["rot"] % len(vs)
    vs = vs[k:] + vs[:k]
    b = Builder(g["copy"] == 0)
    terms.build = b.build
    try:
        body = terms.ex(b.build(term))
    finally:
        terms.build = PLAIN
    args = [ir.Var(v, terms.ty(t)) for v, t in vs]
    case = {"id": g["id"], "term": term, "type": g["t"], "name": name, "vars": [[v, back.get(v, v), t] for v, t in vs]}
    case["arb"] = readback.rb(body.chooseArbitrarily())
    return case, ir.Synth(name, body, *args)


def synth_fun(f):
    x = f[1]
    return {"name": x[1][1], "ps": [[p[1][0][1], sexp.show(p[1][1])] for p in x[2][1]], "ret": sexp.show(x[3]),
            "decls": [[p[1][0][1], sexp.show(p[1][1])] for p in x[4][1]],
            "rules": [[p[1][0][1], sexp.show(p[1][1]), p[1][2][1]] for p in x[5][1]]}


def rkt_gram(forms, name):
    gram = [f for f in forms if f[0] == "l" and f[1][0] == ["s", "define-grammar"] and f[1][1][1][0][1] == name + "_gram"]
    defs = [f for f in forms if f[0] == "l" and f[1][0] == ["s", "define"] and f[1][1][0] == "l" and f[1][1][1][0] == ["s", name]]
    if len(gram) != 1 or len(defs) != 1:
        raise ValueError("%d grammars and %d definitions of %s" % (len(gram), len(defs), name))
    g, d = gram[0][1], defs[0][1]
    call = d[2][1]
    depth = 10
    actual = [a[1] for a in call[1:]]
    if "#:depth" in actual:
        i = actual.index("#:depth")
        depth = actual[i + 1]
        actual = actual[:i] + actual[i + 2:]
    return {"gname": g[1][1][0][1], "gps": [p[1] for p in g[1][1][1:]],
            "prods": [[p[1][0][1], p[1][1:]] for p in g[2:]], "ps": [p[1] for p in d[1][1][1:]],
            "start": call[0][1], "actual": actual, "depth": depth}


lang = [terms.build_fn(n, d) for n, d in J["fns"].items()]
smt = {"defs": {}, "sigs": {}}
for f in ("tuples.smt", "list-axioms.smt", "integer-fn-axioms.smt"):
    env = sexp.smt_env(open(os.path.join(U, f)).read())
    smt["defs"].update(env["defs"]); smt["sigs"].update(env["sigs"])
rkt = sexp.rkt_defs(open(os.path.join(U, "utils.rkt")).read())
cases, failed, first = [], [], True
grams = J["grams"]
# neighbouring grammars are much alike: two different ones go into each file
half = (len(grams) + 1) // 2
for k in range(half):
    pair = [g for g in (grams[k], grams[k + half] if k + half < len(grams) else None) if g]
    made = []
    for j, g in enumerate(pair):
        try:
            made.append(declare(g, g["name"] if j == 0 or g["name"] != pair[0]["name"] else g["name"] + "_2"))
        except Exception as exn:
            tb = traceback.extract_tb(exn.__traceback__)[-1]
            failed.append({"id": g["id"], "what": "cannot be declared: %s: %s (%s)" % (type(exn).__name__, exn, tb.name)})
    if not made:
        continue
    synths = [s for _, s in made]

    def emit_smt(ss, path):
        smt_util.toSMT(lang, set(), ss, [], ir.BoolLit(True), path, [], [], is_synthesis=True)
        return open(path).read()

    def emit_rkt(ss, path):
        rosette_translator.to_rosette("case", path, lang, set(), ss, [], ir.BoolLit(True), ss, 0, [], [], False, 2)
        return open(path).read()
    try:
        texts = emit_smt(synths, os.path.join(scratch, "g.sl")), emit_rkt(synths, os.path.join(scratch, "g.rkt"))
        forms = sexp.parse_all(texts[0]), sexp.parse_all(texts[1].replace("#lang rosette", ""), signed=True)
    except Exception:
        forms = None
    for c, s in made:
        try:
            if forms is None:  # which of the two cannot be written?
                t = emit_smt([s], os.path.join(scratch, "g.sl")), emit_rkt([s], os.path.join(scratch, "g.rkt"))
                fs = sexp.parse_all(t[0]), sexp.parse_all(t[1].replace("#lang rosette", ""), signed=True)
            else:
                fs = forms
            sf = [f for f in fs[0] if f[0] == "l" and f[1][0] == ["s", "synth-fun"] and f[1][1] == ["s", c["name"]]]
            if len(sf) != 1:
                raise ValueError("%d synth-fun forms for %s" % (len(sf), c["name"]))
            c["smt"] = synth_fun(sf[0])
            c["rkt"] = rkt_gram(fs[1], c["name"])
            c["shown"] = " ".join(sexp.show(sf[0]).split())
            cases.append(c)
        except Exception as exn:
            tb = traceback.extract_tb(exn.__traceback__)[-1]
            failed.append({"id": c["id"], "what": "%s: %s (%s)" % (type(exn).__name__, exn, tb.name)})
    if forms is not None and first:
        first = False
        e = sexp.smt_env(texts[0])
        smt["defs"].update(e["defs"]); smt["sigs"].update(e["sigs"])
        rd = sexp.rkt_defs(texts[1].replace("#lang rosette", ""))
        rkt.update({n: rd[n] for n in J["fns"]})
        if not set(J["fns"]) <= set(smt["defs"]):
            raise SystemExit("the library is not in the file")
json.dump({"cases": cases, "failed": failed, "smt": smt, "rkt": rkt}, open(out, "w"))
