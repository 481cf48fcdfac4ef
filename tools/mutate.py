#!/usr/bin/env python3
"""Mutation testing of the checks.  mutate.py list [file...] | run <outfile> [--n N] [--seed S] [--j 8] [file...]

Every mutant is one small edit of one python module; mutants the stable tests catch are dropped (only with --tests); the remaining
ones go to the checks whose evidence names the edited function, and are reported as caught / quiet."""
import ast, json, os, random, shutil, subprocess, sys, tempfile, concurrent.futures as cf, copy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo/VolterraBasis/"
FILES = ["correlation.py", "fit_memory.py", "fit_prony.py", "gle_estimation.py", "gle_integrate.py", "models.py", "__init__.py",
         "basis/_basis_features.py", "basis/_local_features.py", "basis/_multidim_basis.py", "basis/_data_describe.py", "basis/_fem_features.py", "basis/_mesh_utils.py"]


def muts(tree):
    """yield (function name, line, description, thunk applying in place, undo)"""
    stack = []

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        for f, v in ast.iter_fields(n):
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and f == "body" and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                        continue
                    yield from visit(c, fn)
        name = ".".join(fn)
        line = getattr(n, "lineno", 0)

        def sw(attr, new, d):
            return (name, line, d, n, attr, new)
        if isinstance(n, ast.BinOp):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.MatMult: ast.Mult, ast.Pow: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}
            if type(n.op) in alt:
                yield sw("op", alt[type(n.op)](), "%s->%s" % (type(n.op).__name__, alt[type(n.op)].__name__))
        if isinstance(n, ast.AugAssign):
            alt = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in alt:
                yield sw("op", alt[type(n.op)](), "aug %s" % type(n.op).__name__)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            yield sw("ops", [alt[type(n.ops[0])]()], "cmp %s" % type(n.ops[0]).__name__)
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield sw("value", n.value + 1, "const %r+1" % n.value)
            if isinstance(n.value, float):
                yield sw("value", n.value * 2, "const %r*2" % n.value)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield sw("value", not n.value, "bool")
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and "," in n.value and "->" in n.value:
            a, b = n.value.split("->")
            if len(b) > 1:
                yield sw("value", a + "->" + b[::-1], "einsum out")
            i = a.split(",")
            if len(i[-1]) > 1:
                yield sw("value", ",".join(i[:-1] + [i[-1][::-1]]) + "->" + b, "einsum in")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            yield sw("op", ast.UAdd(), "drop minus")
        if isinstance(n, ast.If):
            yield sw("test", ast.Constant(True), "if True")
            yield sw("test", ast.Constant(False), "if False")
        if isinstance(n, ast.Slice):
            for at in ("lower", "upper"):
                if getattr(n, at) is not None:
                    yield sw(at, ast.BinOp(getattr(n, at), ast.Add(), ast.Constant(1)), "slice %s+1" % at)
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                yield sw("args", [n.args[1], n.args[0]] + n.args[2:], "swap args")
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    yield sw("keywords", n.keywords[:k] + n.keywords[k + 1:], "drop keyword %s" % n.keywords[k].arg)
            if isinstance(n.func, ast.Name) and n.func.id == "range" and len(n.args) <= 2:
                yield sw("args", n.args[:-1] + [ast.BinOp(n.args[-1], ast.Sub(), ast.Constant(1))], "range-1")
        for f in ("body", "orelse"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)) or isinstance(s, ast.Raise):
                        yield (name, s.lineno, "delete stmt", n, f, b[:k] + [ast.copy_location(ast.Pass(), s)] + b[k + 1:])
    yield from visit(tree, [])


def enum(files):
    r = []
    for f in files:
        t = ast.parse(open(R + f).read())
        for k, m in enumerate(muts(t)):
            r.append((f, k, m[0], m[1], m[2]))
    return r


def make(f, k):
    t = ast.parse(open(R + f).read())
    for i, m in enumerate(muts(t)):
        if i == k:
            _, _, _, n, attr, new = m
            old = getattr(n, attr)
            setattr(n, attr, new)
            s = ast.unparse(ast.fix_missing_locations(t))
            return s
    raise IndexError


def fmap():
    """function -> checks that analyse it"""
    r = {}
    for e in os.listdir(V + "/evidence"):
        if not e.endswith(".json"):
            continue
        d = json.dumps(json.load(open(V + "/evidence/" + e)))
        r[e[:-5]] = d
    return r


COST = dict(C09=19, C11=38, C12=50, C17=42, C18=22, C16=19, C03=6, C04=3, C07=5, C15=7, C23=7, C24=4)


def one(args):
    (f, k, fn, line, d), checks, tests = args
    try:
        src = make(f, k)
    except Exception as e:
        return None
    dd = tempfile.mkdtemp(prefix="vbmut")
    try:
        r = dd + "/repo"
        shutil.copytree("/repo", r, symlinks=True, ignore=shutil.ignore_patterns("build", ".git", "__pycache__", "doc", "examples"))
        open(r + "/VolterraBasis/" + f, "w").write(src)
        if tests:
            x = subprocess.run("PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 timeout 120 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider tests/test_basis.py --deselect tests/test_basis.py::nope", shell=True, cwd=r, capture_output=True, text=True)
            if "21 passed" not in subprocess.run("PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 timeout 120 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_basis.py", shell=True, cwd=r, capture_output=True, text=True).stdout:
                return (f, k, fn, line, d, "tests", "")
        und = []
        for c in checks:
            x = subprocess.run("timeout 900 python3 %s/check.py %s -j 1" % (V, c), shell=True, capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=dd + "/ev"))
            if x.returncode == 1:
                return (f, k, fn, line, d, "caught", c)
            if x.returncode not in (0, 1):
                return (f, k, fn, line, d, "ERROR %d" % x.returncode, c + x.stderr[-200:])
            if " 0 undecided" not in x.stdout:
                und.append(c)
        return (f, k, fn, line, d, "quiet", " ".join(checks) + " undecided:" + ",".join(und))
    finally:
        shutil.rmtree(dd, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[0] == "list":
        for m in enum(a[1:] or FILES):
            print(*m)
        return
    out, a = a[1], a[2:]
    n, seed, j, tests, files, only = 200, 1, 8, False, [], None
    while a:
        x = a.pop(0)
        if x == "--n": n = int(a.pop(0))
        elif x == "--seed": seed = int(a.pop(0))
        elif x == "--j": j = int(a.pop(0))
        elif x == "--only": only = a.pop(0)
        elif x == "--tests": tests = True
        else: files.append(x)
    ms = enum(files or FILES)
    if only:
        ms = [m for m in ms if only in m[2]]
    random.Random(seed).shuffle(ms)
    fm = fmap()
    jobs = []
    for m in ms[:n]:
        mod = "" if m[0] == "__init__.py" else m[0][:-3].replace("/", ".")
        leaf = '"%s:%s"' % (mod, m[2])
        cs = [c for c, d in fm.items() if m[2] and leaf in d]
        if not cs:
            # e.g. class level code or a function reached under a subclass's name
            cs = [c for c, d in fm.items() if m[2] and (":" + m[2].split(".")[0] + "." in d or "." + m[2].split(".")[-1] + '"' in d)]
        cs.sort(key=lambda c: COST.get(c, 1))
        if any(COST.get(c, 1) < 10 for c in cs):
            cs = [c for c in cs if COST.get(c, 1) < 20]
        jobs.append((m, cs, tests))
    with open(out, "w") as fo, cf.ProcessPoolExecutor(j) as ex:
        for r in ex.map(one, jobs):
            if r:
                fo.write("\t".join(map(str, r)) + "\n")
                fo.flush()


if __name__ == "__main__":
    main()
