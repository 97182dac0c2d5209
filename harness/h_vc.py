"""argv: vcs.json out.json -- runs each condition through the equality optimisation of the synthesis entry points."""
import inspect
import json
import os
import signal
import sys

import mlload  # noqa: F401
import terms
from metalift import ir, synthesize_cvc5, synthesize_rosette
from readback import rb

src, out = sys.argv[1:3]
os.chdir(os.path.dirname(out))


class Caught(Exception):
    pass


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang()


signal.signal(signal.SIGALRM, on_alarm)


def capture(real):
    sig = inspect.signature(real)

    def stand_in(*a, **k):
        b = sig.bind(*a, **k).arguments
        raise Caught(b["vars"], b["vc"])
    return stand_in


synthesize_rosette.to_rosette = capture(synthesize_rosette.to_rosette)
synthesize_cvc5.toSMT = capture(synthesize_cvc5.toSMT)
synthesize_rosette.resources = type("R", (), {"read_text": staticmethod(lambda *_: "")})


def run(which, vc, vs):
    if which == "rosette":
        synthesize_rosette.synthesize(basename="t", target_lang=[], vars=vs, inv_and_ps=[], preds=[], vc=vc, loop_and_ps_info=[],
                                      cvc_path="/nonexistent", optimize_vc_equality=True)
    else:
        synthesize_cvc5.synthesize("t", [], vs, [], [], vc, [], "/nonexistent", optimize_vc_equality=True)


def variables(e, into):
    if isinstance(e, ir.Var):
        into.add(e)
    else:
        for a in e.args:
            if isinstance(a, ir.Expr):
                variables(a, into)
    return into


def norm(n):
    k, pl, a, how = n
    if k == "var":
        how = "B" if "Bool" in how else "I" if "Int" in how else how
    return [k, pl, [norm(x) for x in a], how]


cases, failed = [], []
hangs = 0
for i, t in enumerate(json.load(open(src))):
    if hangs >= 5:
        break
    which = "cvc5" if i % 5 == 4 else "rosette"
    try:
        e = terms.ex(terms.build(t))
        signal.setitimer(signal.ITIMER_REAL, 10.0)
        try:
            run(which, e, set(variables(e, set())))
            raise RuntimeError("the search was not started")
        except Caught as k:
            signal.setitimer(signal.ITIMER_REAL, 0)
            vs, vc = k.args
        cases.append({"id": i, "which": which, "term": t, "opt": norm(rb(vc)), "declared": [v.args[0] for v in vs]})
    except Hang:
        hangs += 1
        failed.append({"id": i, "what": "%s: the optimisation does not end" % which, "term": t})
    except Exception as exn:
        failed.append({"id": i, "what": "%s: raises %s: %s" % (which, type(exn).__name__, exn), "term": t})
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
open(out, "w").write(json.dumps({"cases": cases, "failed": failed}))
