"""setup_cmd: check the tools the checks need and build the analyser once."""
import os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
for t in ("java", "cc", "clang++-20", "python3"):
    if not shutil.which(t):
        print("missing tool:", t); sys.exit(1)
print("analyser:", lib.ensure_iwyu())
print("ok")
