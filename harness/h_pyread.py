"""argv: progs.json out.json scratch -- what the real reader of language-model proposals makes of generated Python."""
import json
import os
import re
import sys

REPO = os.environ.get("ML_REPO", "/repo")
progs, outp, scratch = sys.argv[1], os.path.abspath(sys.argv[2]), os.path.abspath(sys.argv[3])
os.environ["ML_REPO"] = scratch     # the reader writes into its own folder, so it runs in a copy
import mlload  # noqa: E402,F401
import llmstubs  # noqa: E402
import pyprint  # noqa: E402
import readback  # noqa: E402
from llmlift_scripts import parser, synthesis  # noqa: E402

from metalift import ir  # noqa: E402

with open(progs) as f:
    D = json.load(f)
os.chdir(scratch)
DSL = "\n\n".join(pyprint.fn(f) for f in D["lib"])
TY = {"int": "I", "bool": "B", "Int": "I", "Bool": "B", "List[Int]": "L", "List[List[Int]]": "M", "Matrix[Int]": "M"}
FN = (ir.FnDecl, ir.FnDeclRecursive)


def tyname(t):
    s = readback.tstr(t)
    s = re.sub(r"<class '(\w+)'>", r"\1", s)
    return TY.get(s, s)


def inner(e, acc):
    """functions given in place: (name, function that gets it, itself)"""
    if isinstance(e, ir.Expr):
        for a in e.args:
            if isinstance(a, FN) and isinstance(e, ir.Call):
                acc.append((a.name(), e.name(), json.dumps(readback.rb(a, True))))
            inner(a, acc)


def read(p, answer, shared):
    text = p["text"]
    llmstubs.ask[0] = lambda m: "Sure.\n```python\n%s\n```\n" % text
    try:
        sol = synthesis.get_solution_from_llm(synthesis.LLMModel.GPT, [{"role": "user", "content": "?"}])
        names, decls, calls = parser.check_solution(solution=sol, expected_num_funcs=len(p["fns"]), dsl_code=DSL, lambda_exprs=shared[0], arg_name_to_count=shared[1])
    except Exception as e:
        return {"err": "%s: %s" % (type(e).__name__, str(e)[:100]), "fns": [], "bad": ""}
    bad = ""
    own = [f["name"] for f in p["fns"]]
    fns = [d for d in decls if isinstance(d, FN)]
    got = [d for d in fns if d.name() in own]
    if sorted(names) != sorted(own) or sorted(d.name() for d in got) != sorted(own):
        bad = "the functions read are not those proposed"
    lams = shared[2]
    for d in fns:
        if d.name() not in own:
            lams.setdefault(d.name(), set()).add(json.dumps(readback.rb(d, True)))
    used = []
    for d in got:
        inner(d.body(), used)
    for n, f, b in used:
        if lams.get(n) != {b}:
            bad = bad or "a function given in place and the function of its name differ"
        if (f, n) not in [tuple(c) for c in calls]:
            bad = bad or "a function given in place is not listed with the function it is given to"
    return {"err": "", "bad": bad, "fns": [{"name": d.name(), "ps": [[a.args[0], tyname(a.type)] for a in d.arguments()], "ret": tyname(d.return_type()), "body": readback.rb(d.body())} for d in got]}


shared = ({}, {}, {})
for i, p in enumerate(D["progs"]):
    if i % 6 == 0:      # proposals of one session share the names of the functions given in place
        shared = ({}, {}, {})
    p["text"] = ("G0 = 3\n\n" if pyprint.uses([f["body"] for f in p["fns"]], "Global") else "") + "\n\n".join(pyprint.fn(f) for f in p["fns"])
    p["back"] = read(p, p["text"], shared)
with open(outp, "w") as f:
    f.write(json.dumps(D["progs"]))
