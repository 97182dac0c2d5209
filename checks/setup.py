"""Checks that the tools the checks need are there; builds nothing."""
import os, subprocess, sys
PYPY = "/opt/venv/bin/python"
for cmd in ([PYPY, "-c", "import llvmlite, networkx"], ["java", "-version"], ["clang++-14", "--version"], ["opt-14", "--version"], ["llvm-config-14", "--version"]):
    subprocess.run(cmd, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
assert os.path.exists("/opt/veriftools/tla/tla2tools.jar")
print("ok")
