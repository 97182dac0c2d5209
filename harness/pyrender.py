"""Renders programs of spec/Prog.tla as Python source."""
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "//", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "=="}
PREC = {"or": 1, "and": 2, "lt": 3, "gt": 3, "le": 3, "ge": 3, "eq": 3, "chain": 3, "add": 4, "sub": 4, "mul": 5, "div": 5, "neg": 6}
TY = {"I": "int", "L": "List[int]", "S": "Set[int]"}


def expr(e, prec=0):
    k, pl, a = e[0], e[1], e[2]
    if k == "var":
        return pl
    if k == "int":
        return str(pl)
    if k == "lempty":
        return "[]"
    if k == "llen":
        return "len(%s)" % expr(a[0])
    if k == "lget":
        return "%s[%s]" % (expr(a[0], 9), expr(a[1]))
    if k == "tuple":
        return "(%s)" % ", ".join(expr(x) for x in a)
    if k == "tget":
        return "%s[%d]" % (expr(a[0]), pl)
    if k == "call":
        return "%s(%s)" % (pl, ", ".join(expr(x) for x in a))
    p = PREC[k]
    if k == "neg":
        t = "-" + expr(a[0], p)
    elif k in ("and", "or"):
        t = (" %s " % k).join(expr(x, p + (i > 0)) for i, x in enumerate(a))
    elif k == "chain":
        t = expr(a[0], p + 1)
        for o, x in zip(pl, a[1:]):
            t += " %s %s" % (OPS[o], expr(x, p + 1))
    elif p == 3:
        t = "%s %s %s" % (expr(a[0], p + 1), OPS[k], expr(a[1], p + 1))
    else:
        t = "%s %s %s" % (expr(a[0], p), OPS[k], expr(a[1], p + 1))
    return "(%s)" % t if p < prec else t


class Render:
    def __init__(self):
        self.lines = ["from typing import List, Set", "", "def g(x: int) -> int:", "    return x", ""]
        self.loops = {}          # line -> loop id

    def out(self, ind, t):
        self.lines.append("    " * ind + t)

    def block(self, b, ind, types, seen, style):
        tail = None
        for s in b:
            if tail and style % 4 == 1 and s[0] != "return":
                # without break, the else part of a loop is what follows it
                self.out(ind, "else:")
                self.block([s], ind + 1, types, seen, style)
                tail = None
                continue
            tail = s[0] == "while"
            k = s[0]
            if k == "assign":
                ann = ""
                if s[1] not in seen and (style % 2 == 0 or types[s[1]] != "I"):
                    ann = ": " + TY[types[s[1]]]
                seen.add(s[1])
                self.out(ind, "%s%s = %s" % (s[1], ann, expr(s[2])))
            elif k in ("append", "sadd", "sremove"):
                self.out(ind, "%s.%s(%s)" % (s[1], {"append": "append", "sadd": "add", "sremove": "remove"}[k], expr(s[2])))
            elif k == "return":
                self.out(ind, "return " + expr(s[1]))
            elif k == "while":
                self.out(ind, "while %s:" % expr(s[2]))
                self.loops[len(self.lines)] = s[1]
                self.block(s[3], ind + 1, types, seen, style)
            elif k == "if":
                self.out(ind, "if %s:" % expr(s[1]))
                self.branches(s, ind, types, seen, style)

    def branches(self, s, ind, types, seen, style):
        self.block(s[2], ind + 1, types, seen, style)
        e = s[3]
        if len(e) == 1 and e[0][0] == "if" and style % 3 != 0:
            self.out(ind, "elif %s:" % expr(e[0][1]))
            self.branches(e[0], ind, types, seen, style)
        elif e:
            self.out(ind, "else:")
            self.block(e, ind + 1, types, seen, style)

    def fn(self, f, style):
        types = {v: t for t in f["types"] for v in f["types"][t]}
        self.out(0, "def %s(%s) -> %s:" % (f["name"], ", ".join("%s: %s" % (n, TY[t]) for n, t in zip(f["ps"], f["ts"])), TY[f["res"]]))
        self.block(f["body"], 1, types, set(f["ps"]), style)
        self.out(0, "")
