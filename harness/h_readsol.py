"""argv: terms.json layouts.json out.json scratch part nparts -- has the real synthesis loop read solution files back."""
import inspect
import json
import os
import sys
import time
import traceback

import mlload
import readback
import sexp
import terms
from metalift import ir, synthesize_rosette

src, lay, out, scratch, part, nparts = sys.argv[1:7]
part, nparts = int(part), int(nparts)
J, LAY = json.load(open(src)), json.load(open(lay))
U = os.path.join(mlload.REPO, "metalift", "utils")
os.makedirs(scratch, exist_ok=True)
bindir = os.path.join(scratch, "bin")
os.makedirs(bindir)
with open(os.path.join(bindir, "racket"), "w") as f:
    f.write('#!/bin/sh\ncp "$SOL_SRC" "$SOL_DST.tmp" && mv "$SOL_DST.tmp" "$SOL_DST"\n')
os.chmod(os.path.join(bindir, "racket"), 0o755)
os.environ["PATH"] = bindir + ":" + os.environ["PATH"]
os.chdir(scratch)
real_sleep = time.sleep
time.sleep = lambda s: real_sleep(0.004)

SWAP = {"x": "xs", "p": "m", "s": "t", "u": "y"}
SWAP.update({v: k for k, v in SWAP.items()})
VT = {"x": "I", "y": "I", "z": "I", "p": "B", "q": "B", "xs": "L", "ys": "L", "zs": "L", "m": "M", "n": "M", "w": "N",
      "u": "X", "s": "S", "r": "S", "t": "T", "v": "U"}


def ren(n, on):
    """the term with the involution SWAP applied to its variables"""
    if not on:
        return n
    k, pl, a, how = n
    if k in ("var", "let"):
        pl = SWAP.get(pl, pl)
    return [k, pl, [ren(x, on) for x in a], how]


def ren_sexp(s, on):
    if not on:
        return s
    if s[0] == "s":
        return ["s", SWAP.get(s[1], s[1])]
    if s[0] == "l":
        return ["l", [ren_sexp(x, on) for x in s[1]]]
    return s


def fvs(n, acc):
    if n[0] == "var" and n[1] in VT:
        acc.add(n[1])
    for x in n[2]:
        fvs(x, acc)
    return acc


def calls(n, acc):
    if n[0] == "call":
        acc.add(n[1])
    for x in n[2]:
        calls(x, acc)
    return acc


def layout(text, name, mode, quoted):
    """the pretty printer's line breaks (never inside a token; continuation lines are indented)"""
    text = text.replace("[", "(").replace("]", ")")
    text = " ".join(text.split())
    toks = text.split(" ")
    if mode == "no":
        res = text
    elif mode == "all":
        res = toks[0] + " " + toks[1] + "".join("\n  " + t for t in toks[2:])
    else:
        res, depth, i = "", 0, 0
        for t in toks:
            depth += t.count("(") - t.count(")")
            res += t
            i += 1
            at_header_end = depth == 1 and i >= 2
            if at_header_end or (mode == "some" and i % 5 == 0 and i > 2):
                res += "\n   "
            else:
                res += " "
        res = res.rstrip()
    return ("'" if quoted else "") + res


def sig(name, ps, ret):
    return "%s(%s): %s" % (name, ", ".join("%s:%s" % (p.args[0], readback.tstr(p.type)) for p in ps), readback.tstr(ret))


lang = [terms.build_fn(n, d) for n, d in J["fns"].items()]
rkt = dict(sexp.rkt_defs(open(os.path.join(U, "utils.rkt")).read()))
smt, sigs = {}, {}
for f in ("tuples.smt", "list-axioms.smt", "integer-fn-axioms.smt"):
    env = sexp.smt_env(open(os.path.join(U, f)).read())
    smt.update(env["defs"])
    sigs.update(env["sigs"])
KV = {"flag_t": ir.Var("k", ir.Int), "flag_f": ir.Var("k", ir.Int), "flag_v": ir.Var("k", ir.Bool)}
FLAG = {"flag_t": ir.BoolLit(True), "flag_f": ir.BoolLit(False), "flag_v": KV["flag_v"]}
for fd in lang + [ir.FnDecl(n, ir.Bool, b, KV[n]) for n, b in FLAG.items()]:
    rkt.update(sexp.rkt_defs(fd.to_rosette()))
    env = sexp.smt_env(fd.toSMT())
    smt.update(env["defs"])
    sigs.update(env["sigs"])

LEAF = {"I": "y", "B": "q", "L": "ys", "M": "n", "N": "w", "X": "u", "S": "r", "T": "t", "U": "v"}
params = inspect.signature(synthesize_rosette.synthesize).parameters


def run(batch, L, bi):
    fs, forms, want = [], {}, {}
    for i, (tid, n) in enumerate(batch):
        on = L["renamed"][i]
        t = terms.type_of(n, None)
        rn = ren(n, on)
        e = terms.build(rn)
        vs = [ir.Var(SWAP.get(v, v) if on else v, terms.TYPES[VT[v]]) for v in sorted(fvs(n, {LEAF[t]}))]
        name = L["names"][i]
        if i + 1 in L["printed"]:
            alt = terms.build(ren(["var", LEAF[t], [], t], on))
            body = ir.Choose(e, alt) if tid % 2 else ir.Choose(alt, e)
            body_text = e.to_rosette()
            head = " ".join([name] + [v.args[0] for v in vs])
            forms[i] = ("(define (%s) %s)" % (head, body_text), body_text)
        else:
            body = [e, ir.Choose(e), ir.Choose(ir.Choose(e))][tid % 3]
        s = ir.Synth(name, body, *vs)
        fs.append(s)
        smt0 = []
        try:
            smt0 = ren_sexp(sexp.parse_one(e.toSMT()), on)
        except Exception:
            pass
        want[name] = (tid, n, t, on, sig(name, vs, terms.TYPES[t]), smt0, forms[i][1] if i in forms else "")
    text = "#t\n"
    flags = sorted({x for _, n in batch for x in calls(n, set()) if x in FLAG})
    for k, n in enumerate(flags):
        fs.append(ir.Synth(n, ir.Choose(ir.BoolLit(True), ir.BoolLit(False), *([KV[n]] if n == "flag_v" else [])), KV[n]))
        text += "/tmp/x/case.rkt:%d:0\n(define (%s k) %s)\n" % (10 + k, n, FLAG[n].to_rosette())
    for k, i in enumerate(x for x in L["printed"] if x <= len(batch)):
        i -= 1
        text += "/tmp/x y/synthesisLogs/case.rkt:%d:0\n" % (20 + k) + layout(forms[i][0], L["names"][i], L["wrap"], L["quoted"]) + "\n"
    base = "case%d" % bi
    sol = os.path.join(scratch, "sol%d.txt" % bi)
    with open(sol, "w") as f:
        f.write(text)
    os.environ["SOL_SRC"] = sol
    os.environ["SOL_DST"] = os.path.join(scratch, "synthesisLogs", base + "_sol0")
    kw = dict(basename=base, target_lang=lang, vars=set(), inv_and_ps=fs, preds=[], vc=ir.BoolLit(True), loop_and_ps_info=fs,
              cvc_path="cvc5", no_verify=True, log=False, list_bound=2)
    res = synthesize_rosette.synthesize(**{k: v for k, v in kw.items() if k in params})
    cases = []
    got = {}
    for f in res:
        got.setdefault(f.name(), []).append(f)
    for name, (tid, n, t, on, wsig, smt0, btext) in want.items():
        if len(got.get(name, [])) != 1:
            cases.append({"id": tid, "bad": "%d functions named %s returned" % (len(got.get(name, [])), name), "solution": text})
            continue
        f = got[name][0]
        try:
            b = f.body()
            smt1 = ren_sexp(sexp.parse_one(b.toSMT()), on) if smt0 else []
            cases.append({"id": tid, "term": n, "type": t, "text": ren_sexp(sexp.parse_one(btext, signed=True), on) if btext else [],
                          "back": ren(readback.rb(b), on), "sig": sig(f.name(), f.arguments(), f.return_type()), "want": wsig,
                          "smt": smt1, "smt0": smt0, "solution": text if btext else "", "shown": b.to_rosette(), "printed": btext})
        except Exception as exn:
            tb = traceback.extract_tb(exn.__traceback__)[-1]
            cases.append({"id": tid, "bad": "function read back is unusable: %s: %s (%s)" % (type(exn).__name__, exn, tb.name), "solution": text})
    for name in got:
        if name not in want and name not in flags:
            cases.append({"id": batch[0][0], "bad": "a function named %s that was not to be synthesised" % name, "solution": text})
    return cases


def attempt(batch, L, bi):
    try:
        return run(batch, L, bi)
    except Exception as exn:
        tb = traceback.extract_tb(exn.__traceback__)
        if len(batch) > 1:
            r = []
            for j, b in enumerate(batch):
                i = j
                one = {"names": [L["names"][i]], "printed": [1] if i + 1 in L["printed"] else [], "wrap": L["wrap"],
                       "quoted": L["quoted"], "renamed": [L["renamed"][i]]}
                r += attempt([b], one, bi)
            return r
        return [{"id": batch[0][0], "bad": "%s: %s (%s)" % (type(exn).__name__, exn, tb[-1].name), "solution": ""}]


res = []
todo = list(enumerate(J["terms"]))
batches = [todo[i:i + 4] for i in range(0, len(todo), 4)]
sys.stdout = open(os.devnull, "w")
for bi, b in enumerate(batches):
    if bi % nparts == part:
        res += attempt(b, LAY[bi % len(LAY)], bi)
good = [r for r in res if "bad" not in r]
with open(out, "w") as f:
    f.write(json.dumps({"cases": good, "bad": [r for r in res if "bad" in r], "rkt": rkt, "smt": smt, "sigs": sigs}))
