"""P02: the verification conditions of the LLVM front end against the cut-point machine of spec/Prog.tla."""
import concurrent.futures
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import cbuild
import crender
import vlib


def source(p):
    r = crender.Render(p["lang"])
    n = len(r.lines)
    for f in p["fns"]:
        r.fn(f, p["seed"])
    return [x.strip() for x in r.lines[n:]] + ["precondition " + ("none" if p["pre"][0] == "none" else crender.Render("c").expr(p["pre"]))]


def compile_chunk(so, d, i, lang, progs):
    r = crender.Render(lang)
    for p in progs:
        for f in p["fns"]:
            r.fn(f, p["seed"])
    src = os.path.join(d, "%s%d.cc" % (lang, i))
    with open(src, "w") as f:
        f.write("\n".join(r.lines) + "\n")
    ll, loops = cbuild.compile_cc(so, src, [os.path.join(d, "inc"), os.path.join(cbuild.REPO, "headers")])
    return {"ll": ll, "loops": loops, "progs": progs}


def main(c):
    n, mv = (30000, 6) if vlib.THOROUGH else (3400, 5)
    base = ((vlib.SEED - 1) * 16000) % 40000
    d = c.path("scratch")
    os.makedirs(os.path.join(d, "inc"))
    with open(os.path.join(d, "inc", "vector"), "w") as f:
        f.write(crender.VECTOR)
    try:
        so = cbuild.build_pass(d)
    except RuntimeError as e:
        raise vlib.Machinery(str(e))
    gen = lambda lang: c.tlc_ok("ProgGen", env={"P_LANG": lang, "P_FROM": base + 1, "P_TO": base + n, "P_MAXVARS": mv}, timeout=800)  # noqa: E731
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        outs = list(ex.map(gen, ("c", "cv")))
    progs = []
    for lang, out in zip(("c", "cv"), outs):
        progs.append([dict(p, lang=lang) for p in sorted(vlib.printed(out, "PROG"), key=lambda p: p["seed"])])
    k = 20
    jobs = [(lang, i, ps[i:i + k]) for lang, ps in zip(("c", "cv"), progs) for i in range(0, len(ps), k)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        try:
            chunks = list(ex.map(lambda j: compile_chunk(so, d, j[1], j[0], j[2]), jobs))
        except RuntimeError as e:
            raise vlib.Machinery(str(e))
    progs = progs[0] + progs[1]
    def part(j):
        with open(c.path("chunks%d.json" % j), "w") as f:
            json.dump(chunks[len(chunks) * j // 8:len(chunks) * (j + 1) // 8], f)
        c.pypy("h_llvm.py", c.path("chunks%d.json" % j), c.path("cases%d.json" % j), timeout=800)
        with open(c.path("cases%d.json" % j)) as f:
            return json.load(f)["cases"]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = [x for cs in ex.map(part, range(8)) for x in cs]
    with open(c.path("cases.json"), "w") as f:
        json.dump({"cases": cases}, f)
    out = c.tlc_ok("FrontCheck", env={"CASES": c.path("cases.json")}, timeout=800)
    vs = sorted(vlib.printed(out, "VERDICT"))
    if len(vs) != len(cases):
        raise vlib.Machinery("verdicts for %d of %d programs" % (len(vs), len(cases)))
    for i, v in vs:
        if v.startswith("SPECERROR"):
            raise vlib.Machinery("%s: %s" % (v, source(progs[i])))
        if v != "ok":
            c.violation("P02: %s: %s %d: %s" % (v, progs[i]["lang"], progs[i]["seed"], " ".join(source(progs[i]))), {"source": source(progs[i]), "conditions": cases[i]["asserts"]})
    c.traces = len(vs)
    for p in progs[:: max(1, len(progs) // 5)]:
        c.sample({"program": source(p)})
    cnt = lambda f: sum(1 for p in progs if f(json.dumps(p)))  # noqa: E731
    c.extra.update({"programs": len(progs), "with_loops": cnt(lambda t: '"while"' in t or '"for"' in t or '"do"' in t), "with_break_or_continue": cnt(lambda t: '"break"' in t or '"cont"' in t),
                    "with_vectors": sum(1 for p in progs if p["lang"] == "cv"), "with_two_functions": cnt(lambda t: t.count('"ndecl"') > 1)})
    c.assume = ["Integer variables range over {0,1,2}, lists and sets over three values each, when conditions and obligations are compared.",
                "Integers are mathematical; division, reads outside a list and by zero get the same fixed value on both sides.",
                "Programs are compiled with clang 14 at -O0 as tests/llvm/compile-add-blocks.sh does, with declarations of std::vector under its libc++ names.",
                "Vectors are passed by value and never aliased."]


vlib.run("P02", main)
