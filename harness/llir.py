"""LLVM assembly for the functions of spec/CfgGen.tla, and back."""
import re

CMP = {"eq", "ne", "slt", "sle", "sgt", "sge"}


def render(f, name):
    i1 = {"c"}
    for b in f["blocks"]:
        for x, op, _ in b["ins"]:
            if op in CMP:
                i1.add(x)
        for x, _ in b["phis"]:
            if x.startswith("q"):
                i1.add(x)
    val = lambda v, bit=False: (("true" if v[1] else "false") if bit else str(v[1])) if v[0] == "c" else "%" + v[1]  # noqa: E731
    out = ["define i32 @%s(%s) {" % (name, ", ".join("%s %%%s" % ("i1" if p in i1 else "i32", p) for p in f["ps"]))]
    for b in f["blocks"]:
        out.append("%s:" % b["name"])
        for x, es in b["phis"]:
            bit = x in i1
            out.append("  %%%s = phi %s %s" % (x, "i1" if bit else "i32", ", ".join("[ %s, %%%s ]" % (val(v, bit), p) for v, p in es)))
        for x, op, a in b["ins"]:
            if op == "alloca":
                t = "%%%s = alloca i32" % x
            elif op == "store":
                t = "store i32 %s, i32* %s" % (val(a[0]), val(a[1]))
            elif op == "load":
                t = "%%%s = load i32, i32* %s" % (x, val(a[0]))
            elif op == "obs":
                t = "call void @obs(i32 %s)" % val(a[0])
            elif op in CMP:
                t = "%%%s = icmp %s i32 %s, %s" % (x, op, val(a[0]), val(a[1]))
            else:
                t = "%%%s = %s i32 %s, %s" % (x, op, val(a[0]), val(a[1]))
            out.append("  " + t)
        t = b["term"]
        if t[0] == "br":
            s = "br label %%%s" % t[1]
        elif t[0] == "cbr":
            s = "br i1 %s, label %%%s, label %%%s" % (val(t[1], True), t[2], t[3])
        elif t[0] == "switch":
            s = "switch i32 %s, label %%%s [ %s ]" % (val(t[1]), t[2], " ".join("i32 %d, label %%%s" % (n, m) for n, m in t[3]))
        else:
            s = "ret i32 %s" % val(t[1])
        out.append("  " + s)
    out.append("}")
    return "\n".join(out)


def value(t):
    t = t.strip()
    if t.startswith("%"):
        return ["v", t[1:]]
    if t in ("true", "false"):
        return ["c", int(t == "true")]
    if re.match(r"-?\d+$", t):
        return ["c", int(t)]
    return ["v", "?" + t]


def term(t):
    m = re.match(r"br label %(\S+)$", t)
    if m:
        return ["br", m.group(1)]
    m = re.match(r"br i1 (\S+), label %(\S+), label %(\S+)$", t)
    if m:
        return ["cbr", value(m.group(1)), m.group(2), m.group(3)]
    m = re.match(r"switch i32 (\S+), label %(\S+) \[(.*)\]$", t)
    if m:
        return ["switch", value(m.group(1)), m.group(2), [[int(n), l] for n, l in re.findall(r"i32 (-?\d+), label %(\S+)", m.group(3))]]
    m = re.match(r"ret i32 (\S+)$", t)
    if m:
        return ["ret", value(m.group(1))]
    if t == "unreachable":
        return ["unreachable"]
    return None


def ins(t):
    m = re.match(r"store i32 ([^,]+), i32\* ([^,]+)", t)
    if m:
        return ["", "store", [value(m.group(1)), value(m.group(2))]]
    m = re.match(r"call void @obs\(i32 ([^)]+)\)", t)
    if m:
        return ["", "obs", [value(m.group(1))]]
    m = re.match(r"%(\S+) = (.*)$", t)
    if m:
        x, r = m.groups()
        if r.startswith("alloca i32"):
            return [x, "alloca", []]
        m = re.match(r"load i32, i32\* ([^,]+)", r)
        if m:
            return [x, "load", [value(m.group(1))]]
        m = re.match(r"icmp (\w+) i\d+ (\S+), (\S+)$", r) or re.match(r"(add|sub|srem) (?:nsw |nuw )*i32 (\S+), (\S+)$", r)
        if m:
            return [x, m.group(1), [value(m.group(2)), value(m.group(3))]]
        m = re.match(r"select i1 (\S+), i\d+ (\S+), i\d+ (\S+)$", r)
        if m:
            return [x, "select", [value(m.group(k)) for k in (1, 2, 3)]]
        return [x, "?" + r, []]
    return ["", "?" + t, []]


def parse(text):
    """{name: function}"""
    fns = {}
    for m in re.finditer(r"^define [^@]*@(\w+)\((.*?)\)[^\n]*\{\n(.*?)^\}", text, re.S | re.M):
        name, ps, body = m.groups()
        body = re.sub(r"\[\s*\n(.*?)\]", lambda k: "[ " + " ".join(k.group(1).split()) + " ]", body, flags=re.S)
        f = {"ps": re.findall(r"%(\S+?)(?:,|$)", ps), "blocks": []}
        b = None
        for line in body.split("\n"):
            line = re.sub(r"\s*;.*$", "", line).strip()
            if not line:
                continue
            line = re.sub(r", !.*$", "", line)
            h = re.match(r"(\S+):$", line)
            if h:
                b = {"name": h.group(1), "phis": [], "ins": [], "term": ["none"]}
                f["blocks"].append(b)
                continue
            t = term(line)
            if t is not None:
                b["term"] = t if b["term"] == ["none"] else ["two"]
                continue
            if b["term"] != ["none"]:
                b["term"] = ["early"]
            p = re.match(r"%(\S+) = phi i\d+ (.*)$", line)
            if p:
                b["phis"].append([p.group(1), [[value(v), q] for v, q in re.findall(r"\[ (\S+), %(\S+) \]", p.group(2))]])
            else:
                b["ins"].append(ins(line))
        fns[name] = f
    return fns
