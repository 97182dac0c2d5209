"""argv: backend terms.json out.json -- print every term with the real library."""
import json
import os
import sys
import traceback

import mlload
import pyast
import sexp
import terms
from metalift import ir  # noqa: F401

be, src, out = sys.argv[1:4]
J = json.load(open(src))
U = os.path.join(mlload.REPO, "metalift", "utils")


def emit(e):
    return {"smt": lambda: e.toSMT(), "rkt": lambda: e.to_rosette(), "py": lambda: e.to_python()}[be]()


def parse(txt):
    if be == "smt":
        return sexp.parse_one(txt)
    if be == "rkt":
        return sexp.parse_one(txt, signed=True)
    return pyast.expr(txt)


defs, sigs, failed = {}, {}, []
if be == "smt":
    for f in ("tuples.smt", "list-axioms.smt", "integer-fn-axioms.smt"):
        env = sexp.smt_env(open(os.path.join(U, f)).read())
        defs.update(env["defs"]); sigs.update(env["sigs"])
elif be == "rkt":
    defs.update(sexp.rkt_defs(open(os.path.join(U, "utils.rkt")).read()))
for name, d in J["fns"].items():
    txt = ""
    try:
        fd = terms.build_fn(name, d)
        txt = emit(fd)
        if be == "smt":
            env = sexp.smt_env(txt)
            if name not in env["defs"]:
                raise ValueError("declaration does not define " + name)
            defs.update(env["defs"]); sigs.update(env["sigs"])
        elif be == "rkt":
            e = sexp.rkt_defs(txt)
            if name not in e:
                raise ValueError("declaration does not define " + name)
            defs.update(e)
        else:
            nm, ps, body = pyast.fn(txt)
            if nm != name:
                raise ValueError("declaration does not define " + name)
            defs[nm] = [ps, body]
    except Exception as exn:
        if be == "py" and isinstance(exn, NotImplementedError):
            continue
        failed.append({"id": "fn " + name, "what": "declaration not usable: %r" % exn, "text": txt, "term": d["body"]})
cases = []
for i, n in enumerate(J["terms"]):
    txt = ""
    try:
        t = terms.type_of(n, None)
        e = terms.build(n)
        txt = emit(e)
        cases.append({"id": i, "term": n, "type": t, "text": parse(txt), "shown": txt})
    except Exception as exn:
        tb = traceback.extract_tb(exn.__traceback__)[-1]
        failed.append({"id": i, "what": "%s: %s (%s)" % (type(exn).__name__, exn, tb.name), "text": txt, "term": n})
open(out, "w").write(json.dumps({"cases": cases, "failed": failed, "defs": defs, "sigs": sigs}))
