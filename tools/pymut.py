#!/usr/bin/env python3
"""Development aid: random syntactic mutants of a Python file of the repository,
and which of the given checks notice.  usage: pymut.py FILE SEED COUNT CHECK..."""
import ast, copy, os, random, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
name, seed, count, checks = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
src = open("/repo/" + name).read()
lines = src.split("\n")
tree = ast.parse(src)
sites = []
for fn in ast.walk(tree):
    if not isinstance(fn, (ast.FunctionDef,)):
        continue
    for n in ast.walk(fn):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            sites.append((fn.name, n.test, "not"))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sites.append((fn.name, n, "cmp"))
        elif isinstance(n, ast.BoolOp):
            sites.append((fn.name, n, "bool"))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)) and isinstance(n.right, ast.Constant) and isinstance(n.right.value, int):
            sites.append((fn.name, n, "off"))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            sites.append((fn.name, n, "drop"))
rng = random.Random(seed)
rng.shuffle(sites)


def offset(n):
    a = sum(len(l.encode()) + 1 for l in lines[:n.lineno - 1]) + n.col_offset
    b = sum(len(l.encode()) + 1 for l in lines[:n.end_lineno - 1]) + n.end_col_offset
    return a, b


def mutate(n, kind):
    seg = ast.get_source_segment(src, n)
    if kind == "not":
        return "(not (%s))" % seg
    if kind == "drop":
        return "pass" if not isinstance(n, (ast.Continue, ast.Break)) else "pass"
    m = copy.deepcopy(n)
    if kind == "cmp":
        t = type(m.ops[0])
        alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
               ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
        m.ops[0] = alt[t]()
    elif kind == "bool":
        if rng.random() < 0.5:
            m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
        else:
            m.values.pop(rng.randrange(len(m.values)))
            if len(m.values) == 1:
                m = m.values[0]
    elif kind == "off":
        m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
    return "(%s)" % ast.unparse(m)


d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
subprocess.run("git -C /repo ls-files -z | xargs -0 cp --parents -t " + d, shell=True, cwd="/repo", check=True)
done = 0
try:
    for fn, n, kind in sites:
        if done >= count:
            break
        a, b = offset(n)
        new = src.encode()[:a] + mutate(n, kind).encode() + src.encode()[b:]
        try:
            compile(new, name, "exec")
        except SyntaxError:
            continue
        open(os.path.join(d, name), "wb").write(new)
        # only mutants that pass the script's own tests are interesting
        t = os.path.join(d, name.replace(".py", "_test.py"))
        try:
            r = subprocess.run([sys.executable, t], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode:
            continue
        done += 1
        env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD="/tmp/mutbuild")
        res = "MISSED"
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(ROOT, "checks/run.py"), c], cwd=ROOT, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                res = "caught by " + c
                break
            if r.returncode:
                res = "ERROR %d in %s: %s" % (r.returncode, c, r.stdout[-200:])
                break
        print("%s | %s %s line %d: %s -> %s" % (res, fn, kind, n.lineno, (ast.get_source_segment(src, n) or "").split("\n")[0][:90],
              mutate(n, kind).split("\n")[0][:90] if kind != "bool" else new[a:a+100].decode().split("\n")[0]), flush=True)
finally:
    shutil.rmtree(d, ignore_errors=True)
