"""Driver library of the checks (run with the system python3)."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ML_REPO", "/repo")
PYPY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


class Machinery(Exception):
    """the check itself failed (exit 2); never used for a verdict"""


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="vchk_%s_" % prop)
        self.states = self.transitions = self.traces = 0
        self.samples, self.assume, self.extra = [], [], {}
        self.violations = []          # (what, detail)
        self.known_hit = {}
        self.known = [k for k in load_known() if k["property"] == prop]
        self.ntlc = 0

    # -- running things -------------------------------------------------
    def path(self, name):
        return os.path.join(self.dir, name)

    def tlc(self, module, cfg=None, env=None, simulate=None, depth=None, workers=8, timeout=600, extra=(), stack="512m", seed=None):
        """Runs TLC; returns its output.  Raises Machinery unless it ended normally
        (caller may pass ok_errors=True through extra handling)."""
        self.ntlc += 1
        md = self.path("md%d" % self.ntlc)
        tmp = self.path("tmp%d" % self.ntlc)
        os.makedirs(tmp)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss" + stack, "-Xmx12g", "-Djava.io.tmpdir=" + tmp, "-cp", JAR, "tlc2.TLC",
               "-config", os.path.join(VERIF, "spec", cfg or module + ".cfg"), "-metadir", md, "-noGenerateSpecTE",
               "-workers", str(workers)]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(SEED if seed is None else seed)]
        cmd += list(extra) + [os.path.join(VERIF, "spec", module + ".tla")]
        e = dict(os.environ)
        e.update({k: str(v) for k, v in (env or {}).items()})
        try:
            p = subprocess.run(cmd, env=e, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC timed out on " + module)
        out = p.stdout.decode("utf-8", "replace")
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            self.transitions += int(m[-1][0].replace(",", ""))
            self.states += int(m[-1][1].replace(",", ""))
        m = re.search(r"The number of states generated: (\d+)", out)
        if m and simulate:
            self.transitions += int(m.group(1))
            self.states += int(m.group(1))
        shutil.rmtree(md, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        return p.returncode, out

    def tlc_ok(self, *a, **k):
        rc, out = self.tlc(*a, **k)
        if rc != 0:
            raise Machinery("TLC failed (%d):\n%s" % (rc, out[max(out.find("Error:"), 0):][:2500]))
        return out

    def pypy(self, script, *args, timeout=600, env=None, ok=(0,)):
        e = dict(os.environ)
        e["PYTHONDONTWRITEBYTECODE"] = "1"
        e["PYTHONHASHSEED"] = "0"
        e["ML_REPO"] = REPO
        e["PYTHONPATH"] = os.path.join(VERIF, "harness")
        e.update(env or {})
        p = subprocess.run([PYPY, os.path.join(VERIF, "harness", script)] + [str(a) for a in args], env=e,
                           cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode("utf-8", "replace")
        if p.returncode not in ok:
            raise Machinery("%s failed (%d):\n%s" % (script, p.returncode, tail(out)))
        return out

    # -- verdicts -------------------------------------------------------
    def violation(self, what, detail=None):
        """what: stable one-line description of the failing input/call site"""
        for k in self.known:
            if re.search(k["match"], what):
                self.known_hit.setdefault(k["id"], (k, what))
                return
        self.violations.append((what, detail))

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def finish(self, **cov):
        wall = time.time() - self.t0
        rep = None
        if self.violations:
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            rep = os.path.join(d, "%s.json" % self.prop)
            with open(rep, "w") as f:
                json.dump({"property": self.prop, "tier": TIER, "seed": SEED,
                           "violations": [{"what": w, "detail": x} for w, x in self.violations[:400]],
                           "total": len(self.violations)}, f, indent=1, default=str)
        coverage = {}
        if self.level == "model_checking":
            coverage = {"states": self.states, "transitions": self.transitions,
                        "traces_validated_against_impl": self.traces}
        coverage["samples"] = self.samples or ["none"]
        coverage.update(self.extra)
        coverage.update(cov)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                       "level": self.level, "coverage": coverage, "assumptions": self.assume,
                       "wall_s": round(wall, 2), "violations": len(self.violations)}, f, indent=1, default=str)
        shutil.rmtree(self.dir, ignore_errors=True)
        for k, what in self.known_hit.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        for w, _ in self.violations[:8]:
            print("  failing: " + w[:400])
        if self.violations:
            print("VIOLATION property=%s replay=%s" % (self.prop, rep))
            sys.exit(1)
        print("OK property=%s states=%d traces=%d wall=%.1fs" % (self.prop, self.states, self.traces, wall))
        sys.exit(0)


def tail(s, n=4000):
    return s if len(s) < n else s[-n:]


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def printed(out, tag):
    """the JSON values printed by PrintT("TAG " \\o ToJson(...))"""
    res = []
    pre = '"' + tag + " "
    for line in out.splitlines():
        if line.startswith(pre) and line.endswith('"'):
            body = line[len(pre):-1]
            res.append(json.loads(json.loads('"' + body + '"')))
    return res


def run(prop, main, level="model_checking"):
    c = Check(prop, level)
    try:
        main(c)
        c.finish()
    except Machinery as e:
        print("ERROR in the machinery of %s: %s" % (prop, e))
        shutil.rmtree(c.dir, ignore_errors=True)
        sys.exit(2)
