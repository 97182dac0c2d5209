"""The C++ tool chain of the LLVM front end (tests/llvm/compile-add-blocks.sh), with the tools installed here."""
import os
import re
import subprocess

REPO = os.environ.get("ML_REPO", "/repo")


def run(cmd, **k):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, universal_newlines=True, **k)
    if r.returncode != 0:
        raise RuntimeError("%s: %s" % (" ".join(cmd)[:200], r.stderr[-600:]))
    return r.stdout


def build_pass(scratch):
    """compiles the block-splitting pass"""
    so = os.path.join(scratch, "libpass.so")
    flags = run(["llvm-config-14", "--cxxflags"]).split()
    run(["clang++-14"] + flags + ["-fno-rtti", "-fPIC", "-shared", "-O1", "-w", os.path.join(REPO, "llvm-pass/addEmptyBlocks/AddEmptyBlocks.cpp"), "-o", so])
    return so


def opt(so, src, dst):
    run(["opt-14", "-enable-new-pm=0", "-load", so, "-addEmptyBlock", "-lowerinvoke", "--unreachableblockelim", "-instnamer", "-S", src, "-o", dst])


def compile_cc(so, src, inc):
    """src.cc -> (file.ll, file.loops); attributes the older LLVM of llvmlite does not know are dropped"""
    base = src[:-3]
    run(["clang++-14", "-O0", "-fno-exceptions", "-w"] + [x for i in inc for x in ("-I", i)] + ["-c", "-emit-llvm", "-fno-discard-value-names", "-S", src, "-o", base + ".0.ll"])
    opt(so, base + ".0.ll", base + ".ll")
    with open(base + ".loops", "w") as f:
        f.write(run(["opt-14", "-enable-new-pm=0", "-analyze", "-loops", base + ".ll"]))
    with open(base + ".ll") as f:
        t = f.read()
    t = re.sub(r"sret\([^)]*\)", "sret", t).replace("mustprogress ", "")
    with open(base + ".ll", "w") as f:
        f.write(t)
    return base + ".ll", base + ".loops"
