#!/usr/bin/env python3
"""Behaviour preserving rewrites of the analysed tree, to see that the checks stay quiet.

refactor.py <outdir> <transform> : copies /repo to <outdir>/repo and applies the transform to every python module.
transforms: temps (name every argument and operand), invert (negate conditions, swap branches), whiles (range loops to while),
aug (x += y to x = x + y on names bound to scalars only: skipped), helpers (move function bodies to module helpers), rename (locals),
comps (list comprehensions to loops), early (else branches after return removed), all (one after the other)"""
import ast, os, shutil, sys, itertools

CTR = itertools.count()


def fresh(p="tmp"):
    return "_%s%d" % (p, next(CTR))


class Temps(ast.NodeTransformer):
    """assign the right operand of every binary operation in simple statements to a temporary"""

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, body):
        r = []
        for s in body:
            for f in ("body", "orelse", "finalbody"):
                if hasattr(s, f) and isinstance(getattr(s, f), list):
                    if isinstance(s, ast.ClassDef):
                        self.generic_visit(s)
                    else:
                        setattr(s, f, self.block(getattr(s, f)))
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and s.value is not None:
                pre = []
                s.value = self.ex(s.value, pre)
                r.extend(pre)
            r.append(s)
        return r

    def ex(self, e, pre, top=True):
        """evaluation order kept: every operand of a call / operation goes to a temporary, left to right"""
        def tmp(v):
            if isinstance(v, (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp, ast.Lambda)) or has_order(v):
                return v
            v = self.ex(v, pre, False)
            n = fresh()
            pre.append(ast.Assign([ast.Name(n, ast.Store())], v))
            return ast.Name(n, ast.Load())

        def has_order(v):
            return any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.Await, ast.Slice)) for x in ast.walk(v))
        if isinstance(e, ast.BinOp):
            if isinstance(e.left, ast.Name) or isinstance(e.left, ast.Constant):
                e.right = tmp(e.right)
            else:
                e.left = tmp(e.left)
                e.right = tmp(e.right)
        elif isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, (ast.Call, ast.Subscript, ast.BinOp)):
                e.func.value = tmp(e.func.value)
            if not any(isinstance(a, ast.Starred) for a in e.args):
                e.args = [tmp(a) for a in e.args]
                for k in e.keywords:
                    k.value = tmp(k.value)
        return e


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        else:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), [ast.Pass()], n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class Whiles(ast.NodeTransformer):
    """for i in range(..) -> while, unless the body has continue"""

    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and len(it.args) <= 2:
            lo = ast.Constant(0) if len(it.args) == 1 else it.args[0]
            hi = it.args[-1]
            c, h = fresh("i"), fresh("n")
            N = lambda k, s=False: ast.Name(k, ast.Store() if s else ast.Load())
            return [ast.Assign([N(c, 1)], lo), ast.Assign([N(h, 1)], hi),
                    ast.While(ast.Compare(N(c), [ast.Lt()], [N(h)]),
                              [ast.Assign([N(n.target.id, 1)], N(c)), ast.Assign([N(c, 1)], ast.BinOp(N(c), ast.Add(), ast.Constant(1)))] + n.body, [])]
        return n


class Comps(ast.NodeTransformer):
    """x = [f(a) for a in b] -> loop with append"""

    def block(self, body):
        r = []
        for s in body:
            s = self.visit(s)
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                g = s.value.generators[0]
                nm = fresh("l")
                b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [s.value.elt], []))]
                for t in reversed(g.ifs):
                    b = [ast.If(t, b, [])]
                r += [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(g.target, g.iter, b, [])]
                s.value = ast.Name(nm, ast.Load())
            r.append(s)
        return r

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def visit_If(self, n):
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n
    def visit_For(self, n):
        n.body = self.block(n.body)
        return n


class Early(ast.NodeTransformer):
    """if c: ... return else: B  ->  if c: ... return ; B"""

    def block(self, body):
        r = []
        for s in body:
            s = self.visit(s)
            r.append(s)
            if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                e, s.orelse = s.orelse, []
                r.extend(self.block(e))
        return r

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def visit_If(self, n):
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse) if n.orelse else []
        return n


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        args = {a.arg for a in n.args.args + n.args.kwonlyargs} | ({n.args.vararg.arg} if n.args.vararg else set()) | ({n.args.kwarg.arg} if n.args.kwarg else set())
        gl = {x for s in ast.walk(n) if isinstance(s, (ast.Global, ast.Nonlocal)) for x in s.names}
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args - gl
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = x.id + "_loc"
        return n


class Helpers(ast.NodeTransformer):
    """every function without yields, nested functions or super() keeps its signature and delegates to a module level helper"""

    def __init__(self):
        self.out = []

    def visit_Module(self, n):
        self.generic_visit(n)
        k = next((i for i, s in enumerate(n.body) if not isinstance(s, (ast.Import, ast.ImportFrom, ast.Expr))), 0)
        n.body[k:k] = self.out
        return n

    def visit_FunctionDef(self, n):
        bad = any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not n for x in ast.walk(n)) or \
            any(isinstance(x, ast.Name) and x.id in ("super", "__class__") for x in ast.walk(n)) or any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for x in ast.walk(n))
        if bad or n.args.vararg or n.args.kwonlyargs or n.args.posonlyargs:
            return n
        nm = fresh("impl_" + n.name.strip("_"))
        ps = [a.arg for a in n.args.args] + ([n.args.kwarg.arg] if n.args.kwarg else [])
        doc = [n.body[0]] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = n.body[len(doc):] or [ast.Pass()]
        self.out.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg(p) for p in ps], None, [], [], None, []), body, [], None, type_params=[]))
        n.body = doc + [ast.Return(ast.Call(ast.Name(nm, ast.Load()), [ast.Name(p, ast.Load()) for p in ps], []))]
        return n


class Commute(ast.NodeTransformer):
    """swap the operands of + and * when neither is a string / list literal"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        lit = lambda e: isinstance(e, (ast.List, ast.Tuple, ast.JoinedStr, ast.ListComp)) or (isinstance(e, ast.Constant) and isinstance(e.value, str)) or (isinstance(e, ast.BinOp) and (lit(e.left) or lit(e.right)))
        if isinstance(n.op, (ast.Add, ast.Mult)) and not lit(n.left) and not lit(n.right):
            n.left, n.right = n.right, n.left
        return n


class Compare(ast.NodeTransformer):
    """a < b -> b > a ; a >= b -> not a < b"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


TR = dict(temps=Temps, invert=Invert, whiles=Whiles, comps=Comps, early=Early, rename=Rename, helpers=Helpers, commute=Commute, compare=Compare)


def main(out, names):
    shutil.copytree("/repo", out + "/repo", symlinks=True, ignore=shutil.ignore_patterns("build", ".git", "__pycache__"))
    R = out + "/repo/VolterraBasis"
    for d, _, fs in os.walk(R):
        for f in fs:
            if not f.endswith(".py") or f in ("_version.py",):
                continue
            p = os.path.join(d, f)
            t = ast.parse(open(p).read())
            for nm in names:
                t = TR[nm]().visit(t)
                t = ast.parse(ast.unparse(ast.fix_missing_locations(t)))
            s = ast.unparse(t)
            compile(s, p, "exec")
            open(p, "w").write(s + "\n")


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2].split(","))
