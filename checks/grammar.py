"""P08: emitted grammars derive the resolutions of the declared ones."""
import concurrent.futures
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import gen
import vlib

COUNT = 20000 if vlib.THOROUGH else 1500


def uses_bound(n, names=()):
    """is there a choice over a variable some let around it binds?"""
    k, pl, a, how = n
    if k == "choose" and any(v in names for x in a for v in free(x)):
        return True
    if k == "let":
        return uses_bound(a[0], names) or uses_bound(a[1], names + (pl,))
    return any(uses_bound(x, names) for x in a)


def free(n):
    if n[0] == "var":
        return {n[1]}
    if n[0] == "let":
        return free(n[2][0]) | (free(n[2][1]) - {n[1]})
    return set().union(*[free(x) for x in n[2]]) if n[2] else set()


def main(c):
    off = 1 + 200000 * vlib.SEED if vlib.SEED != 1 else 1
    outs = [c.tlc_ok("GramGen", env={"P_FROM": "1", "P_TO": str(COUNT)}, workers=1)]
    if off != 1:
        outs.append(c.tlc_ok("GramGen", env={"P_FROM": str(off), "P_TO": str(off + COUNT)}, workers=1))
    fns = vlib.printed(outs[0], "FNS")[0]
    grams, seen = [], set()
    for o in outs:
        for g in vlib.printed(o, "GRAM"):
            s = json.dumps([g["e"], g["ren"]])
            if s not in seen:
                seen.add(s)
                grams.append(g)
    byid = {g["id"]: g for g in grams}

    def part(j):
        d = c.path("scratch%d" % j)
        os.makedirs(d, exist_ok=True)
        json.dump({"fns": fns, "grams": grams[j::8]}, open(c.path("grams%d.json" % j), "w"))
        c.pypy("h_grammar.py", c.path("grams%d.json" % j), c.path("cases%d.json" % j), d, timeout=800)
        return json.load(open(c.path("cases%d.json" % j)))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        parts = list(ex.map(part, range(8)))
    cases = [x for p in parts for x in p["cases"]]
    label = lambda g: ("choice over a bound variable: " if uses_bound(g["e"]) else "") + gen.label(g["e"]) + (" with %s" % ", ".join("%s called %s" % tuple(r) for r in g["ren"]) if g["ren"] else "")
    for f in [x for p in parts for x in p["failed"]]:
        c.violation("P08: %s: %s" % (label(byid[f["id"]]), f["what"]), {"grammar": byid[f["id"]], **f})
    json.dump({"cases": cases, "smt": parts[0]["smt"], "rkt": parts[0]["rkt"]}, open(c.path("cases.json"), "w"))
    out = c.tlc_ok("GramCheck", env={"CASES": c.path("cases.json")}, timeout=800)
    verdicts = vlib.printed(out, "VERDICT")
    if len({v[0] for v in verdicts}) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d cases" % (len(verdicts), len(cases)))
    cid, res = {x["id"]: x for x in cases}, 0
    for i, n, v in verdicts:
        res += n
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("reference semantics rejects %s: %s" % (gen.label(byid[i]["e"]), v))
        if v != "ok":
            c.violation("P08: %s ; %s" % (label(byid[i]), v), cid[i])
    c.traces = len(cases)
    for x in cases[:2] + cases[-3:]:
        c.sample({"grammar": gen.label(byid[x["id"]]["e"]), "emitted": x["shown"]})
    c.extra.update({"grammars": len(cases), "resolutions_compared": res, "most_resolutions": max(v[1] for v in verdicts),
                    "grammars_with_shared_or_nested_choices": sum(1 for x in cases if len(x["smt"]["decls"]) > 2)})
    c.assume = ["Rosette's #:depth k lets k nested nonterminals follow the start symbol; choices nested deeper than eight are not generated.",
                "The candidates cvc5 enumerates from a SyGuS grammar, and how they are turned into functions, are decided under P11."]


vlib.run("P08", main)
