"""argv: hists.json out.json -- replays tracker and object-set histories on the real classes."""
import json
import sys

import mlload  # noqa: F401
from metalift import ir
from metalift.analysis import VariableTracker
from metalift.frontend.utils import ObjectSet

TY = {"Int": ir.Int, "Bool": ir.Bool}
tname = lambda t: getattr(t, "__name__", str(t))  # noqa: E731


def pool():
    x = lambda: ir.Int("x")  # noqa: E731
    return [x(), x(), x() + 1, x() + 1, ir.Int(1), ir.Bool(True), ir.Int("y"), ir.List(ir.Int, "xs"), ir.List(ir.Int, "xs"),
            ir.make_tuple(x(), x()), ir.Int(0), ir.Bool(False)]


def track(h):
    t, groups, ans = VariableTracker(), [], []
    for o in h:
        a = {"name": "", "type": "", "err": ""}
        try:
            if o[0] == "group":
                groups.append(t.group(o[1]))
            else:
                v = (t if o[0] == "plain" else groups[o[3] - 1]).variable(o[1], TY[o[2]])
                a["name"], a["type"] = v.name(), tname(v.type)
        except Exception as e:
            a["err"] = type(e).__name__
            if o[0] == "group":
                groups.append(None)
        ans.append(a)
    return {"what": "track", "hist": h, "ans": ans, "all": [[v.name(), tname(v.type)] for v in t.all()]}


def sets(h):
    P = pool()
    idx = {id(p): i + 1 for i, p in enumerate(P)}
    R, ans = [ObjectSet() for _ in range(3)], []
    for o in h:
        a = {"regs": [[], [], []], "objects": [[], [], []], "member": False, "err": ""}
        try:
            if o[0] == "new":
                R[o[1] - 1] = ObjectSet([P[i - 1] for i in o[2]])
            elif o[0] == "empty":
                R[o[1] - 1] = ObjectSet()
            elif o[0] == "add":
                R[o[1] - 1].add(P[o[2] - 1])
            elif o[0] == "sub":
                R[o[1] - 1] = R[o[2] - 1] - R[o[3] - 1]
            elif o[0] == "union":
                R[o[1] - 1] = R[o[2] - 1] + R[o[3] - 1]
            elif o[0] == "copy":
                R[o[1] - 1] = ObjectSet(R[o[2] - 1])
            elif o[0] == "in":
                a["member"] = bool(P[o[2] - 1] in R[o[1] - 1])
            a["regs"] = [[idx[id(p)] for p in r] for r in R]
            a["objects"] = [[idx[id(p)] for p in r.objects()] for r in R]
        except Exception as e:
            a["err"] = type(e).__name__
        ans.append(a)
    return {"what": "sets", "hist": h, "ans": ans}


def coll(objs):
    P = pool()
    c = {"what": "coll", "objs": objs, "err": "", "wrapped": 0, "exprs": 0, "member": [False] * len(P)}
    try:
        s = {ir.ObjectWrapper(P[i - 1]) for i in objs}
        c["wrapped"], c["exprs"] = len(s), len({P[i - 1].src for i in objs})
        c["member"] = [ir.ObjectWrapper(q) in s for q in pool()]
    except Exception as e:
        c["err"] = type(e).__name__
    return c


with open(sys.argv[1]) as f:
    J = json.load(f)
out = {"cases": [track(h) for h in J["track"]] + [sets(h) for h in J["sets"]] + [coll(o) for o in J["coll"]]}
with open(sys.argv[2], "w") as f:
    f.write(json.dumps(out))
