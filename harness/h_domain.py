"""argv: configs.json out.json scratch -- the real code writes the program of every configuration."""
import json
import os
import sys

import mlload  # noqa: F401
import sexp

from metalift import ir
from metalift.rosette_translator import to_rosette
from metalift.synthesis_common import generate_types  # noqa: F401


def ty(t):
    k, a = t[0], [ty(x) for x in t[1]]
    return ir.Int if k == "I" else ir.Bool if k == "B" else ir.List[a[0]] if k == "L" else ir.Set[a[0]] if k == "S" else \
        ir.Matrix[a[0]] if k == "M" else ir.Tensor3D[a[0]] if k == "X" else ir.make_tuple_type(*a)


def run(c, path):
    c.update(err="", forms=[], pairs=[])
    try:
        vs = [ir.Var(n, ty(t)) for n, t in c["vars"]]
        c["pairs"] = [[a[0], b[0]] for a, b in zip(c["vars"], c["vars"][1:] + c["vars"][:1]) if a[1] == b[1]] or [[a[0], a[0]] for a in c["vars"]]
        d = {v.args[0]: v for v in vs}
        eqs = [ir.Eq(d[a], d[b]) for a, b in c["pairs"]]
        vc = ir.BoolLit(True) if not eqs else eqs[0] if len(eqs) == 1 else ir.And(*eqs)
        ps = ir.FnDeclRecursive("f", ir.Int, ir.Var("i", ir.Int), ir.Var("i", ir.Int))
        guess = [ps] if c["rounds"] else []
        to_rosette("t", path, [], set(vs), [], [], vc, [], c["rounds"], guess, [], c["unbounded"], c["bound"], verify_mode=c["verify"])
        with open(path) as f:
            text = "\n".join(l for l in f.read().splitlines() if not l.startswith("#lang"))
        c["forms"] = sexp.parse_all(text, signed=True)
    except Exception as e:
        c["err"] = type(e).__name__ + ": " + str(e)[:200]
    return c


with open(os.path.join(os.environ["ML_REPO"], "metalift/utils/utils.rkt")) as f:
    RKT = sexp.rkt_defs(f.read())
with open(sys.argv[1]) as f:
    cfgs = json.load(f)
os.makedirs(sys.argv[3], exist_ok=True)
out = [run(c, os.path.join(sys.argv[3], "p.rkt")) for c in cfgs]
with open(sys.argv[2], "w") as f:
    f.write(json.dumps({"cases": out, "rkt": RKT}))
