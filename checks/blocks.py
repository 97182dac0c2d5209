"""P15: the LLVM block-splitting pass on generated functions, against the semantics of spec/Cfg.tla."""
import concurrent.futures
import json
import os
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import cbuild
import llir
import vlib


def opt(so, src):
    """(text, error): the pass alone, without the verifier (the specification judges the result)"""
    r = subprocess.run(["opt-14", "-enable-new-pm=0", "-disable-verify", "-load", so, "-addEmptyBlock", "-instnamer", "-S", src],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, timeout=600)
    return r.stdout, r.returncode


def run(so, d, k, funcs):
    """cases of one module; where the pass fails on a module, function by function"""
    src = os.path.join(d, "m%s.ll" % k)
    with open(src, "w") as f:
        f.write("declare void @obs(i32)\n" + "\n".join(llir.render(x, "f%d" % x["seed"]) for x in funcs) + "\n")
    chk = subprocess.run(["opt-14", "-enable-new-pm=0", "-S", src, "-o", "/dev/null"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True)
    if chk.returncode != 0:
        raise vlib.Machinery("a generated module is not valid: " + chk.stderr[:400])
    text, rc = opt(so, src)
    if rc != 0 and len(funcs) > 1:
        return [c for x in funcs for c in run(so, d, "%s_%d" % (k, x["seed"]), [x])]
    after = llir.parse(text) if rc == 0 else {}
    res = []
    for x in funcs:
        g = after.get("f%d" % x["seed"])
        b = {"ps": x["ps"], "blocks": x["blocks"]}
        res.append({"before": b, "after": g or b, "err": "" if g else "the pass fails"})
    return res


def main(c):
    n = 20000 if vlib.THOROUGH else 2500
    base = ((vlib.SEED - 1) * 20000) % 40000
    d = c.path("scratch")
    os.makedirs(d)
    try:
        so = cbuild.build_pass(d)
    except RuntimeError as e:
        raise vlib.Machinery(str(e))
    out = c.tlc_ok("CfgGen", env={"P_FROM": base + 1, "P_TO": base + n})
    funcs = sorted(vlib.printed(out, "FUNC"), key=lambda p: p["seed"])
    k = 50
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = [x for cs in ex.map(lambda i: run(so, d, str(i), funcs[i:i + k]), range(0, len(funcs), k)) for x in cs]
    with open(c.path("cases.json"), "w") as f:
        json.dump({"cases": cases}, f)
    out = c.tlc_ok("CfgCheck", env={"CASES": c.path("cases.json")}, timeout=800)
    vs = sorted(vlib.printed(out, "VERDICT"))
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d functions" % (len(vs), len(cases)))
    for i, v in vs:
        if v.startswith("SPECERROR"):
            raise vlib.Machinery(v)
        if v != "ok":
            c.violation("P15: %s: function %d" % (v, funcs[i]["seed"]), {"function": llir.render(funcs[i], "f").split("\n"), "after": cases[i]["after"]})
    c.traces = len(vs)
    for f in funcs[:: max(1, len(funcs) // 4)]:
        c.sample({"function": llir.render(f, "f")})
    has = lambda p: sum(1 for f in funcs if any(p(b) for b in f["blocks"]))  # noqa: E731
    c.extra.update({"functions": len(funcs), "with_merges": has(lambda b: b["phis"]), "with_conditional_branches": has(lambda b: b["term"][0] == "cbr"),
                    "with_both_branches_to_one_block": has(lambda b: b["term"][0] == "cbr" and b["term"][2] == b["term"][3]), "with_switch": has(lambda b: b["term"][0] == "switch")})
    c.assume = ["Functions of up to six blocks; arguments -1..2; runs followed for 24 blocks.", "Values merged, sums, comparisons, one memory cell, calls and switches; no exception edges."]


vlib.run("P15", main)
