"""TLC-generated terms for the checks."""
import json

import vlib

last_substs = []


def terms(c, types, skip, walks, pairs=True, depth=15, modes=("pairs",)):
    open(c.path("skip.json"), "w").write(json.dumps(skip))
    env = {"GEN_TYPES": types, "GEN_SKIP": c.path("skip.json")}
    res, seen, fns, n = [], set(), None, 0
    for m in list(modes) + ["walk"]:
        env["GEN_MODE"] = m
        if m == "walk":
            if not walks:
                break
            n = len(res)
            out = c.tlc_ok("TermGen", env=env, simulate=walks, depth=depth, workers=1)
        else:
            out = c.tlc_ok("TermGen", env=env, workers=1)
        fns = fns or vlib.printed(out, "FNS")[0]
        last_substs[:] = vlib.printed(out, "SUBSTS")[0]
        for t in vlib.printed(out, "TERM"):
            s = json.dumps(t)
            if s not in seen:
                seen.add(s)
                res.append(t)
    return fns, res, n or len(res)


def label(n):
    k, pl, a, how = n
    if k in ("var", "int", "bool"):
        return str(pl)
    return "%s(%s)" % (how, ", ".join(label(x) for x in a))
