"""Programs played against the specification and the real analyser: the
specification (IwyuTrace) says what is advised, and the reports must say so."""
import copy
import os
import subprocess
import time

import lib
import progs
from lib import CheckError, THOROUGH


def run(binary, prog):
    return progs.execute(binary, prog)


def differences(prog, rec, out, rc):
    """What a run says that the specification does not, or the reverse."""
    rep = progs.Report(out)
    if rc < 0 or "Assertion failed" in out:
        return ["the analyser died (%d): %s" % (rc, out[-300:])]
    if rec["bad"]:
        d = []
        if rc == 0:
            d.append("the program does not compile, but the status is 0")
        if rep.files:
            d.append("the program does not compile, but there is a report")
        return d
    d = progs.compare(prog, rec, rep)
    if rc != rec["status"]:
        d.append("exit status is %d, must be %d" % (rc, rec["status"]))
    return d


def compiles(prog):
    d = lib.scratch()
    args = progs.arguments(prog)[0] if prog.layout else ["-I.", "-isystemsys"]
    here = (lambda t: t.replace(progs.root(), d)) if prog.layout else (lambda t: t)
    lib.write_files(d, {n: here(t) for n, t in prog.texts().items()})
    for _, _, p in prog.layout.dirs if prog.layout else ():
        os.makedirs(os.path.join(d, p), exist_ok=True)
    cmd = [lib.LLVM + "/bin/clang-20", "-fsyntax-only", "-std=c++17"] + [here(a) for a in args] + ["-w"]
    for f in prog.pfx if not prog.layout else ():
        cmd += ["-include", f.name]
    r = subprocess.run(cmd + ["-xc++", here(prog.layout.main) if prog.layout else prog.main.name],
                       cwd=progs.workdir(prog, d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0


def smaller(prog):
    """The program with one of its lines left out, in all ways."""
    for fi, f in enumerate(prog.files):
        for li in range(1, len(f.lines)):
            p = copy.deepcopy(prog)
            del p.files[fi].lines[li]
            yield p
    for fi, f in enumerate(prog.files):
        if f.also or f.keep:
            p = copy.deepcopy(prog)
            p.files[fi].also = p.files[fi].keep = False
            yield p


def shrink(ck, binary, prog, diff, seconds=40):
    end = time.time() + seconds
    while time.time() < end:
        cands = list(smaller(prog))
        if not cands:
            break
        recs = progs.predict(ck, cands, laws=False)
        outs = lib.pmap(lambda p: run(binary, p), cands)
        for p, r, (o, rc) in zip(cands, recs, outs):
            d = [] if r["bad"] or "error:" in o else differences(p, r, o, rc)
            if d:
                prog, diff = p, d
                break
        else:
            break
    return prog, diff


def show(prog):
    t = prog.texts()
    return "\n".join("--- %s\n%s" % (n, t[n].rstrip("\n")) for n in t)


def conform(ck, programs, kind="", interesting=None):
    """Plays the programs; interesting(prog, rec) gives what was covered."""
    binary = lib.ensure_iwyu()
    for chunk in range(0, len(programs), 2500):
        part = programs[chunk:chunk + 2500]
        recs = progs.predict(ck, part)
        if len(recs) != len(part):
            raise CheckError("the specification judged %d of %d programs" % (len(recs), len(part)))
        outs = lib.pmap(lambda p: run(binary, p), part)
        judge(ck, binary, part, recs, outs, kind, interesting)


def judge(ck, binary, part, recs, outs, kind, interesting):
    for prog, rec, (out, rc) in zip(part, recs, outs):
        ck.evaluations += 1
        ck.count(kind or "programs")
        failed = not rec["bad"] and " error: " in out
        d = differences(prog, rec, out, rc)
        if failed and not compiles(prog):
            raise CheckError("generated program does not compile:\n%s\n%s" % (show(prog), out[-2000:]))
        if not d and not rec["bad"]:
            ck.traces += 1
            key = interesting(prog, rec) if interesting else [fr["text"] for fr in rec["files"]]
            if key:
                ck.nontrivial(key)
                ck.sample(dict(program=show(prog)[:1500], report=out[:800]), 2)
        if not d:
            continue
        out2, rc2 = run(binary, prog)
        if not differences(prog, rec, out2, rc2):
            d = ["two runs of the same program differ: " + d[0]]
        if len(ck.violations) < 2 and not rec["bad"]:
            prog, d = shrink(ck, binary, prog, d)
        texts = prog.texts()
        ck.violation("%s\n%s" % ("\n".join(d)[:1200], show(prog)),
                     dict(files=texts, main=prog.layout.main if prog.layout else prog.main.name,
                          args=progs.arguments(prog)[0], iwyu=progs.arguments(prog)[1], cwd=prog.layout.cwd if prog.layout else "", differences=d))


def count(quick, thorough):
    return thorough if THOROUGH else quick
