"""S-expressions as the JSON the specification reads:
["i", n] numeral, ["s", name] symbol, ["l", [...]] list, ["str", text]."""
import re

TOK = re.compile(r'\s+|;[^\n]*|("(?:[^"\\]|\\.)*")|([()\[\]])|([^\s()\[\];"]+)')


def tokens(text):
    pos, out = 0, []
    while pos < len(text):
        m = TOK.match(text, pos)
        if not m:
            raise ValueError("cannot tokenise %r" % text[pos:pos + 20])
        pos = m.end()
        t = m.group(1) or m.group(2) or m.group(3)
        if t is not None:
            out.append(t)
    return out


def atom(t, signed):
    if re.fullmatch(r"-?\d+" if signed else r"\d+", t):
        n = int(t)
        if abs(n) > 1000000000:
            return ["s", t]
        return ["i", n]
    return ["s", t]


CLOSE = {"(": ")", "[": "]"}


def parse_all(text, signed=False):
    """All top-level forms; ValueError when parentheses do not match."""
    stack, top = [], []
    cur = top
    want = []
    for t in tokens(text):
        if t in CLOSE:
            new = []
            cur.append(["l", new])
            stack.append(cur)
            want.append(CLOSE[t])
            cur = new
        elif t in (")", "]"):
            if not stack or want.pop() != t:
                raise ValueError("unbalanced %r" % t)
            cur = stack.pop()
        elif t.startswith('"'):
            cur.append(["str", t[1:-1]])
        elif t.startswith("'") and False:
            pass
        else:
            cur.append(atom(t, signed))
    if stack:
        raise ValueError("missing closing parenthesis")
    return top


def parse_one(text, signed=False):
    forms = parse_all(text, signed)
    if len(forms) != 1:
        raise ValueError("expected one expression, found %d" % len(forms))
    return forms[0]


def show(x):
    if x[0] == "l":
        return "(" + " ".join(show(y) for y in x[1]) + ")"
    return str(x[1])


def sort_str(x):
    return show(x)


def smt_env(text, alias=None):
    """sigs and defs of an SMT-LIB script: declare-fun, define-fun, define-fun-rec."""
    alias = dict(alias or {})
    sigs, defs, axioms = {}, {}, []

    def srt(x):
        if x[0] == "s" and x[1] in alias:
            return srt(alias[x[1]])
        if x[0] == "l":
            return "(" + " ".join(srt(y) for y in x[1]) + ")"
        return str(x[1])

    def resolve(x):
        if x[0] == "s" and x[1] in alias:
            return resolve(alias[x[1]])
        if x[0] == "l":
            return ["l", [resolve(y) for y in x[1]]]
        return x
    for f in parse_all(text):
        if f[0] != "l" or not f[1]:
            raise ValueError("bad top-level form")
        h = f[1][0][1]
        if h == "define-sort" and not f[1][2][1]:
            alias[f[1][1][1]] = f[1][3]
        elif h == "declare-fun":
            sigs[f[1][1][1]] = [[srt(a) for a in f[1][2][1]], srt(f[1][3])]
        elif h == "declare-const":
            sigs[f[1][1][1]] = [[], srt(f[1][2])]
        elif h in ("define-fun", "define-fun-rec"):
            if len(f[1]) != 5:
                raise ValueError("malformed %s" % h)
            name, ps, r, body = f[1][1][1], f[1][2][1], f[1][3], f[1][4]
            sigs[name] = [[srt(p[1][1]) for p in ps], srt(r)]
            # sort names used as parameter names are left alone
            defs[name] = [[p[1][0][1] for p in ps], body if any(p[1][0][1] in alias for p in ps) else resolve(body)]
        elif h == "assert":
            axioms.append(resolve(f[1][1]))
    return {"sigs": sigs, "defs": defs, "axioms": axioms, "alias": alias}


def rkt_rules(text):
    """define-syntax-rule forms of one shape: (name (id param ...) body ...) -> (define (id param ...) forms ...); name -> forms"""
    out = {}
    for f in parse_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), signed=True):
        if f[0] == "l" and f[1] and f[1][0] == ["s", "define-syntax-rule"]:
            out[f[1][1][1][0][1]] = f[1][2][1][2:]
        elif f[0] == "l" and len(f[1]) == 3 and f[1][0] == ["s", "define"] and f[1][2][0] == "l" and f[1][2][1][0] == ["s", "make-parameter"]:
            out[f[1][1][1]] = f[1][2][1][1]
    return out


def expand_body(form, body):
    if form[0] != "l":
        return form
    kids, out, i = form[1], [], 0
    while i < len(kids):
        if kids[i] == ["s", "body"] and i + 1 < len(kids) and kids[i + 1] == ["s", "..."]:
            out += body
            i += 2
        else:
            out.append(expand_body(kids[i], body))
            i += 1
    return ["l", out]


def rkt_defs(text, rules=None):
    """name -> [params, rest, body] of a Racket module's define / define-bounded forms; with the rules of
    bounded.rkt the latter are expanded, else they are plain definitions"""
    out = {}
    rules = rules or {}
    for n, r in rules.items():
        if r and r[0] == "i":
            out[n] = [[], "", r]
    for f in parse_all("\n".join(l for l in text.splitlines() if not l.startswith("#lang")), signed=True):
        if f[0] != "l" or not f[1]:
            continue
        h = f[1][0]
        if h in (["s", "define"], ["s", "define-bounded"]) and f[1][1][0] == "l":
            sig = f[1][1][1]
            ps = [p[1] for p in sig[1:]]
            rest = ""
            if "." in ps:
                rest = ps[-1]
                ps = ps[:ps.index(".")]
            body = f[1][-1]
            if h[1] in rules:
                body = ["l", [["s", "begin"]] + [expand_body(x, f[1][2:]) for x in rules[h[1]]]]
            out[sig[0][1]] = [ps, rest, body]
    return out


def datatypes(text):
    """[{ctor, sels, sorts, params}] of the declare-datatypes commands."""
    out = []
    for f in parse_all(text):
        if f[0] == "l" and f[1] and f[1][0] == ["s", "declare-datatypes"]:
            for d in f[1][2][1]:
                ps = [] if d[1][0] != ["s", "par"] else [show(p) for p in d[1][1][1]]
                for k in (d[1][2][1] if ps else d[1]):
                    k = k[1] if k[0] == "l" else [k]
                    out.append({"ctor": show(k[0]), "sels": [show(x[1][0]) for x in k[1:]], "sorts": [show(x[1][1]) for x in k[1:]], "params": ps})
    return out

