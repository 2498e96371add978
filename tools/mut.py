#!/usr/bin/env python3
"""Development aid: apply textual mutations to a copy of the repository and say
which checks notice.  usage: mut.py FILE.json [only-substring]
FILE.json: list of {file, old, new, checks:[ids], (name)}"""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
muts = json.load(open(sys.argv[1]))
only = sys.argv[2] if len(sys.argv) > 2 else ""
d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
subprocess.run(["git", "-C", "/repo", "worktree", "list"], stdout=subprocess.DEVNULL)
subprocess.run("git -C /repo ls-files -z | xargs -0 cp --parents -t " + d, shell=True, cwd="/repo", check=True)
try:
    for m in muts:
        name = m.get("name", m["new"][:60])
        if only and only not in name and only not in m["file"] and only not in m["checks"]:
            continue
        p = os.path.join(d, m["file"])
        src = open(p).read()
        if src.count(m["old"]) < 1:
            print("STALE ", name); continue
        open(p, "w").write(src.replace(m["old"], m["new"], m.get("count", 1)))
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutbuild")
        for c in m["checks"]:
            r = subprocess.run([sys.executable, os.path.join(ROOT, "checks/run.py"), c], cwd=ROOT, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            last = [l for l in r.stdout.splitlines() if l.strip()]
            print({0: "MISSED", 1: "caught"}.get(r.returncode, "ERROR%d" % r.returncode), c, "|", name.replace("\n", " "),
                  "|", (last[1][:160] if r.returncode == 1 and len(last) > 1 else last[-1][:200] if r.returncode > 1 else ""), flush=True)
        open(p, "w").write(src)
finally:
    shutil.rmtree(d, ignore_errors=True)
