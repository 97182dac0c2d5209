"""Renders programs of spec/Prog.tla as C++ source (undoing what the compiler makes of variables)."""
OPS = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "lt": "<", "gt": ">", "le": "<=", "ge": ">=", "eq": "=="}
PREC = {"or": 1, "and": 2, "lt": 4, "gt": 4, "le": 4, "ge": 4, "eq": 3, "add": 5, "sub": 5, "mul": 6, "div": 6, "mod": 6, "neg": 7, "not": 7}
HEAD = {"c": ['#include "list.h"', '#include "set.h"'], "cv": ["#include <vector>", 'extern "C" {', '#include "set.h"', "}"]}
# what the headers of the C++ library declare, under the names libc++ gives them
VECTOR = """#pragma once
namespace std { inline namespace __1 {
typedef unsigned long size_t;
template <class T> class allocator;
template <class T, class A = allocator<T> > class vector {
  T *p;
public:
  vector(); vector(const vector &); ~vector();
  size_t size() const; void push_back(const T &); T &operator[](size_t i);
};
} }
"""


def name(v):
    return "ys" if v == "agg.result" else v[:-5] if v.endswith(".addr") else v


class Render:
    def __init__(self, lang):
        self.lang = lang
        self.lines = []
        if lang == "c":
            self.lines += HEAD["c"]
        else:
            self.lines += HEAD["cv"]
        self.lines += ['extern "C" int g(int x);', ""]
        self.ty = {"I": "int", "L": "List<int>" if lang == "c" else "std::vector<int>", "S": "set *"}

    def out(self, ind, t):
        self.lines.append("  " * ind + t)

    def expr(self, e, prec=0):
        k, pl, a = e[0], e[1], e[2]
        if k == "var":
            return name(pl)
        if k == "int":
            return str(pl)
        if k == "lempty":
            return "newList<int>()"
        if k == "lappend":
            return "listAppend(%s, %s)" % (self.expr(a[0]), self.expr(a[1]))
        if k == "llen":
            return "listLength(%s)" % self.expr(a[0]) if self.lang == "c" else "(int)%s.size()" % self.expr(a[0])
        if k == "lget":
            return ("listGet(%s, %s)" if self.lang == "c" else "%s[%s]") % (self.expr(a[0]), self.expr(a[1]))
        if k == "call":
            return "%s(%s)" % (pl, ", ".join(self.expr(x) for x in a))
        p = PREC[k]
        if k == "neg":
            t = "-" + self.expr(a[0], p + 1)
        elif k == "not" and a[0][0] == "eq":
            p = PREC["eq"]
            t = "%s != %s" % (self.expr(a[0][2][0], p), self.expr(a[0][2][1], p + 1))
        elif k == "not":
            t = "!" + self.expr(a[0], p + 1)
        elif k in ("and", "or"):
            t = (" && " if k == "and" else " || ").join(self.expr(x, p + (i > 0)) for i, x in enumerate(a))
        else:
            t = "%s %s %s" % (self.expr(a[0], p), OPS[k], self.expr(a[1], p + 1))
        return "(%s)" % t if p < prec else t

    def simple(self, s, style):
        k, v = s[0], name(s[1])
        if k == "assign":
            e = s[2]
            if style % 3 == 1 and e[0] in ("add", "sub", "mul") and e[2][0] == ["var", s[1], []]:
                if e[2][1] == ["int", 1, []] and e[0] != "mul":
                    return "%s%s" % (v, "++" if e[0] == "add" else "--")
                return "%s %s= %s" % (v, OPS[e[0]], self.expr(e[2][1]))
            return "%s = %s" % (v, self.expr(e))
        if k == "append":
            return ("%s = listAppend(%s, %s)" % (v, v, self.expr(s[2]))) if self.lang == "c" else "%s.push_back(%s)" % (v, self.expr(s[2]))
        return "%s = %s(%s, %s)" % (v, {"sadd": "set_add", "sremove": "set_remove"}[k], v, self.expr(s[2]))

    def block(self, b, ind, style):
        for s in b:
            k = s[0]
            if k == "return":
                self.out(ind, "return %s;" % self.expr(s[1]))
            elif k in ("break", "cont"):
                self.out(ind, {"break": "break;", "cont": "continue;"}[k])
            elif k == "if":
                self.out(ind, "if (%s) {" % self.expr(s[1]))
                self.block(s[2], ind + 1, style)
                if s[3] or style % 4 == 0:
                    self.out(ind, "} else {")
                    self.block(s[3], ind + 1, style)
                self.out(ind, "}")
            elif k == "while":
                self.out(ind, "while (%s) {" % ("1" if s[2][0] == "bool" else self.expr(s[2])))
                self.block(s[3], ind + 1, style)
                self.out(ind, "}")
            elif k == "for":
                self.out(ind, "for (; %s; %s) {" % ("" if s[2][0] == "bool" else self.expr(s[2]), ", ".join(self.simple(x, style) for x in s[4])))
                self.block(s[3], ind + 1, style)
                self.out(ind, "}")
            elif k == "do":
                self.out(ind, "do {")
                self.block(s[3], ind + 1, style)
                self.out(ind, "} while (%s);" % self.expr(s[2]))
            else:
                self.out(ind, self.simple(s, style) + ";")

    def fn(self, f, style):
        ext = 'extern "C" ' if style % 2 == 0 and not (self.lang == "cv" and f["res"] == "L") else ""
        self.out(0, "%s%s %s(%s) {" % (ext, self.ty[f["res"]], f["name"], ", ".join("%s %s" % (self.ty[t], n) for n, t in zip(f["ps"], f["ts"]))))
        for t in ("I", "L"):
            for v in f["locals"][t]:
                self.out(1, "%s %s;" % (self.ty[t], v))
        self.block(f["body"][f["ndecl"]:], 1, style)
        self.out(0, "}")
        self.out(0, "")


def loops(b):
    """ids of the loops in source order"""
    r = []
    for s in b:
        if s[0] == "if":
            r += loops(s[2]) + loops(s[3])
        elif s[0] in ("while", "for", "do"):
            r += [s[1]] + loops(s[3])
    return r
