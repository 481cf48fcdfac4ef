#!/usr/bin/env python3
"""False alarm hunt: wrap one expression of the package in a function the analyser knows nothing about.
The wrapper might be the identity, so no check may report a violation.   opaque.py OUT N SEED CHECKS... (all but the listed slow ones by default)"""
import ast, copy, os, random, sys, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as M

SLOW = {"C09", "C11", "C12", "C16", "C17", "C23", "C26", "C27", "C07", "C15", "C18"}


def muts(tree):
    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = fn + [n.name]
        for f, v in ast.iter_fields(n):
            vs = v if isinstance(v, list) else [v]
            for k, c in enumerate(vs):
                if not isinstance(c, ast.AST) or f in ("decorator_list", "args", "bases", "annotation", "returns") and not isinstance(n, ast.Call):
                    continue
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and f == "body" and isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                    continue
                if isinstance(n, ast.Call) and f == "func":
                    if isinstance(c, ast.Attribute):
                        yield from visit(c, fn)
                    continue
                if fn and isinstance(c, (ast.Call, ast.BinOp, ast.Subscript, ast.Compare, ast.UnaryOp, ast.ListComp)) and isinstance(getattr(c, "ctx", ast.Load()), ast.Load):
                    w = ast.Call(ast.Attribute(ast.Name("_opaque", ast.Load()), "keep", ast.Load()), [c], [])
                    new = w if not isinstance(v, list) else v[:k] + [w] + v[k + 1:]
                    yield (".".join(fn), getattr(c, "lineno", 0), ast.unparse(c)[:60].replace("\n", " "), n, f, new)
                yield from visit(c, fn)
    yield from visit(tree, [])


M.muts = muts
_make = M.make


def make(f, k):
    s = _make(f, k)
    i = s.index("\nimport ") if "\nimport " in s else 0
    return s[:i] + "\nimport _opaque" + s[i:]


M.make = make
if __name__ == "__main__":
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    allm = M.enum(M.FILES)
    random.Random(seed).shuffle(allm)
    fm = M.fmap()
    jobs = []
    for m in allm[:n]:
        name = m[2].split(".")[-1]
        cs = [c for c, d in sorted(fm.items()) if (c in only if only else c not in SLOW) and name in d]
        if cs:
            jobs.append((m, cs, False))
    print(len(allm), "places", len(jobs), "tried")
    with cf.ProcessPoolExecutor(8) as ex, open(out, "w") as o:
        for r in ex.map(M.one, jobs):
            if r:
                o.write("\t".join(map(str, r)) + "\n")
                o.flush()
