"""nothing to install: checks that the tools are there and the reference model is right"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import spec
import build

print("z3", z3.get_version_string())
print("reference model: %d self-tests" % spec.selftest(1))
print(subprocess.run(["rustc", "+" + build.TC, "--version"], stdout=subprocess.PIPE, text=True).stdout.strip())
