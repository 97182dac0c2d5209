"""P22: the drivers hand over the stated problem and keep the right answers."""
import concurrent.futures
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import cbuild
import crender
import vlib

N = 1600 if vlib.THOROUGH else 160
SOURCE = """#include <vector>
int f(int p, int q) { return p + q; }
int x(int n) { return n + 1; }
int x_ps(int n) {
  int i = 0;
  while (i < n) { i = i + 1; }
  return i;
}
std::vector<int> mk(std::vector<int> xs) {
  std::vector<int> out;
  int i = 0;
  while (i < xs.size()) { out.push_back(xs[i]); i = i + 1; }
  return out;
}
bool bp(int n) { return n < 3; }
std::vector<int> mk_psl(std::vector<int> xs) {
  std::vector<int> out;
  out.push_back(xs[0]);
  return out;
}
int mk_inv0(int p, int n) { return p - n; }
"""


def show(h):
    return "; ".join("%s(%s)" % (s[0], ", ".join(str(x) for x in s[1:])) for s in h)


def main(c):
    d = c.path("scratch")
    os.makedirs(os.path.join(d, "inc"))
    for n, t in (("inc/vector", crender.VECTOR), ("s.cc", SOURCE)):
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    try:
        ll, loops = cbuild.compile_cc(cbuild.build_pass(d), os.path.join(d, "s.cc"), [os.path.join(d, "inc")])
    except RuntimeError as e:
        raise vlib.Machinery(str(e))
    c.tlc_ok("Driver", workers=4)
    base = 100000 * (vlib.SEED - 1)
    out = c.tlc_ok("DriverGen", env={"P_FROM": base + 1, "P_TO": base + N}, workers=1)
    hs = [h for h in vlib.printed(out, "HIST") if any(s[0] == "solve" for s in h["h"])]

    def part(j):
        with open(c.path("h%d.json" % j), "w") as f:
            json.dump(hs[j::8], f)
        sd = os.path.join(d, str(j))
        os.makedirs(sd)
        c.pypy("h_driver.py", c.path("h%d.json" % j), c.path("o%d.json" % j), sd, ll, loops, timeout=800)
        with open(c.path("o%d.json" % j)) as f:
            return json.load(f)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        cases = [x for p in ex.map(part, range(8)) for x in p]
    with open(c.path("cases.json"), "w") as f:
        json.dump(cases, f)
    out = c.tlc_ok("DriverCheck", env={"CASES": c.path("cases.json")}, timeout=800)
    vs = dict(vlib.printed(out, "VERDICT"))
    if set(vs) != {x["id"] for x in cases} or len(cases) != len(hs):
        raise vlib.Machinery("verdicts for %d of %d histories" % (len(vs), len(hs)))
    for x in cases:
        if vs[x["id"]] != "ok":
            k = int(vs[x["id"]].split()[1])
            c.violation("P22: %s driver: %s: after %s" % ({"py": "Python", "c": "LLVM"}[x["lang"]], vs[x["id"]], show(x["h"][:k - 1])), {"history": x["h"], "observed": x["obs"]})
    c.traces = len(cases)
    for x in cases[:2] + cases[-2:]:
        c.sample({"driver": x["lang"], "history": show(x["h"])})
    cnt = lambda k: sum(1 for x in cases for s in x["h"] if s[0] == k)  # noqa: E731
    c.extra.update({"syntheses": cnt("solve"), "code_requests": cnt("code"), "declarations": cnt("decl")})
    c.assume = ["The synthesiser answers with one function for every function asked for, each summary as 'result = expression' (P09, P10, P11).",
                "Arguments of a call are variables named like the parameters (other arguments: P01, P02)."]


vlib.run("P22", main)
