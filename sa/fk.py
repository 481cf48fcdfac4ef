"""Fortran routines inside the interpreter: loading, bounds/shape obligations, LAPACK model, f2py binding."""
import ast
import os

import alg
import fortran
from values import *
from interp import Module, AlwaysRaises, Unsupported, HEnv, HBuf
import models
import tops
from tops import pbody
import m_np


def load(I):
    """module object of fkernel.f90 (translated), or None"""
    if "fkernel" in I.mods:
        return I.mods["fkernel"]
    path = os.path.join(I.root, I.pkg, "fkernel.f90")
    if not os.path.exists(path):
        return None
    src = open(path, encoding="utf-8").read()
    units = fortran.parse(src)
    m = Module("fkernel", path, None, src)
    m.ispkg = False
    m.units = units
    d = {"np": Ext("numpy"), "inv": None}
    for k, f in PRIM.items():
        d[k] = Opq(k, hook=("call", f))
    m.env = I.new(HEnv(d))
    I.mods["fkernel"] = m
    for u in units.values():
        fn = fortran.Trans(u, units).function()
        I.exec_block([fn], m.env, m, None)
    return m


def unit(I, name):
    m = load(I)
    if m is None or name not in m.units:
        return None
    return m.units[name], I.heap[m.env].d[name]


# ------------------------------------------------------------------ obligations
def obs(I):
    if not hasattr(I, "fobs"):
        I.fobs = []
    return I.fobs


def split_conds(c, limit=6):
    """conditions of case distinctions inside c"""
    out = []
    for a in alg.walk(c):
        if isinstance(a, alg.Atom) and a.kind == "ite" and a.args and isinstance(a.args[0], alg.Cond):
            if a.args[0].s not in [x.s for x in out]:
                out.append(a.args[0])
    return out[:limit]


def prove(I, c, facts=(), depth=0):
    """True / False (refuted under the facts) / None"""
    c = alg.expand_minmax(c)
    facts = list(facts)
    cs = split_conds(c)
    if cs and depth < 6:
        res = []
        for v in (True, False):
            f2 = facts + [(cs[0], v)]
            if not alg.feasible(f2):
                continue
            res.append(prove(I, alg.restrict(c, f2), f2, depth + 1))
        if not res:
            return True
        if all(r is True for r in res):
            return True
        if any(r is False for r in res):
            return False
        return None
    if not alg.feasible(facts + [(c, False)]):
        return True
    if not alg.feasible(facts + [(c, True)]):
        return False
    return None


def pcfacts(I):
    return [(c, True) for c in I.pc] + list(getattr(I, "fkfacts", ()))


def need(I, what, c):
    if c.op == "true":
        r = True
    else:
        r = prove(I, c, pcfacts(I))
    obs(I).append((r, what, I.where[1], c.s))
    return r


# ------------------------------------------------------------------ primitives
def num(I, v):
    return I.sc(v)


def p_fx(I, args, kw):
    a, k, ix = args
    t = I.num(a)
    i = I.sc(ix)
    e = t.axes[int(I.sc(k).const())].ext
    need(I, "subscript in range", alg.c_and(alg.c_le(alg.const(0), i), alg.c_lt(i, e)))
    return S(i)


class ExSl(Sl):
    """section with proven bounds: start, length"""
    __slots__ = ("n",)


def p_fsl(I, args, kw):
    a, k, lo, hi = args
    t = I.num(a)
    lo, hi = I.sc(lo), I.sc(hi)
    e = t.axes[int(I.sc(k).const())].ext
    need(I, "section in range", alg.c_or(alg.c_le(hi, lo), alg.c_and(alg.c_le(alg.const(0), lo), alg.c_le(hi, e))))
    s = ExSl(S(lo), S(hi), NONE)
    s.n = hi - lo
    return s


def p_fdummy(I, args, kw):
    name, a, exts, intent = args
    t = a if isinstance(a, T) else I.num(a)
    if len(t.axes) != len(exts.items):
        obs(I).append((False, "rank of argument %s" % name.v, I.where[1], "%d vs %d" % (len(t.axes), len(exts.items))))
        return Unk("sequence association of %s" % name.v)
    good = True
    axes = []
    for ax, e in zip(t.axes, exts.items):
        if isinstance(e, K) and e.v is None:
            axes.append(ax)
            continue
        w = I.sc(e)
        r = need(I, "extent of argument %s equals the declared one" % name.v, alg.c_eq(ax.ext, w))
        good = good and r is not False
        axes.append(Ax(w, ax.label) if r is True and ax.ext != w else ax)
    if not good:
        return Unk("sequence association of %s" % name.v)
    return a


def p_falloc(I, args, kw):
    exts = [I.sc(x) for x in args]
    ids = [alg.fresh_iv() for _ in exts]
    for v, e in zip(ids, exts):
        alg.Bounds.iv[v] = (alg.const(0), e)
    b = I.new(HBuf(exts, ids, None, (), None, alg.fresh_iv()))
    axes = [Ax(e) for e in exts]
    return T(axes, None, False, {}, b, tuple(a.p() for a in axes))


def p_unsup(I, args, kw):
    raise Unsupported("Fortran: %s" % args[0].v)


def p_lapack(I, args, kw):
    n = args[0].v
    if n == "dgetrf":
        a = args[3]
        t = I.d(a)
        i, j = t.axes
        lam = alg.mk_lam([i.v, j.v], [i.ext, j.ext], pbody(t.body))
        I.store(a, T(t.axes, alg.mk_ap("lu!", (lam,), (i.p(), j.p()))))
        I._lu = getattr(I, "_lu", {})
        I._lu[lam.s] = T(t.axes, pbody(t.body))
        return S(alg.const(0))
    if n == "dgetri":
        a = args[2]
        t = I.d(a)
        at = alg.as_atom(pbody(t.body))
        if at is not None and at.kind == "ap" and at.name == "lu!":
            src = I._lu.get(at.args[0][0].s)
            if src is not None and all(x == a.p() or a.ext == alg.const(1) for x, a in zip(at.args[1], t.axes)):
                I.store(a, m_np.inv2(src))
                return S(alg.const(0))
        raise Unsupported("DGETRI without DGETRF")
    raise Unsupported("LAPACK %s" % n)


def p_fsaved(I, args, kw):
    """value a saved local variable was left with by an earlier call"""
    n = "saved_" + args[0].v
    alg.INPUTS.add("$" + n)
    return T((), alg.sym(n))


PRIM = {"__fsaved__": p_fsaved, "__fx__": p_fx, "__fsl__": p_fsl, "__fdummy__": p_fdummy, "__falloc__": p_falloc, "__funsup__": p_unsup, "__lapack__": p_lapack}


# ------------------------------------------------------------------ f2py
def f2py_call(I, name, args, kw):
    """python level call of a wrapped routine"""
    hook = I.fortran
    u = unit(I, name)
    if u is None:
        return Unk("Fortran routine %s" % name)
    un, fn = u
    req, opt, auto, outs = fortran.f2py_signature(un)
    names = req + opt
    got = {}
    for k, v in enumerate(args):
        if k >= len(names):
            raise AlwaysRaises("TypeError: too many arguments for fkernel.%s" % name, I.where)
        got[names[k]] = v
    for k, v in kw.items():
        got[k] = v
    for r in req:
        if r not in got:
            raise AlwaysRaises("TypeError: missing argument %s of fkernel.%s" % (r, name), I.where)
    full = bind(I, un, got)
    if full is None:
        return Unk("f2py binding of %s" % name)
    if hook is not None:
        r = hook(I, name, full)
        if r is not None:
            return r
    outv = []
    for o in un.args:
        if o in outs:
            v = un.vars[o]
            if v.dims is None:
                full[o] = NONE
            else:
                exts = [ev(I, un, full, ub) - ev(I, un, full, lb) + 1 for lb, ub in v.dims]
                axes = [Ax(e) for e in exts]
                full[o] = I.mkbuf(T(axes, alg.const(0)))      # f2py zero-fills
            outv.append(full[o])
    saved = I.where
    I.call(fn, [full[a] for a in un.args], {})
    I.where = saved
    outv = [x for x in outv if x is not NONE]
    return outv[0] if len(outv) == 1 else Tup(outv)


def ev(I, un, env, e):
    k = e[0]
    if k == "int":
        return alg.const(e[1])
    if k == "par":
        return ev(I, un, env, e[1])
    if k == "name":
        return I.sc(env[e[1]])
    if k == "neg":
        return -ev(I, un, env, e[1])
    if k == "bin":
        a, b = ev(I, un, env, e[2]), ev(I, un, env, e[3])
        if e[1] == "+":
            return a + b
        if e[1] == "-":
            return a - b
        if e[1] == "*":
            return a * b
        if e[1] == "/":
            return I.sc(models_div(I, a, b))
    raise Unsupported("extent expression")


def models_div(I, a, b):
    return I.binop(ast.FloorDiv(), S(a), S(b))


def solve_dim(e, name, val):
    """val = e(name), linear -> value of name"""
    if e == ("name", name):
        return val
    if e[0] == "par":
        return solve_dim(e[1], name, val)
    if e[0] == "bin":
        o, a, b = e[1:]
        if o in "+-" and b[0] == "int":
            return solve_dim(a, name, val - b[1] if o == "+" else val + b[1])
        if o == "*" and a[0] == "int":
            return None if val is None else ("div", b, name, val, a[1])
    return None


def bind(I, un, got):
    full = dict(got)
    _, opt, auto, outs = fortran.f2py_signature(un)
    for a, v in list(full.items()):
        if un.vars[a].dims is not None and isinstance(v, (T, Ref, Tup, Opq, K)):
            t = I.num(v)
            if not isinstance(t, T):
                return None
            full[a] = t
        elif isinstance(v, Unk):
            return None
    for d in opt:
        if d in full:
            continue
        a, k, lb, ub = auto[d]
        t = full.get(a)
        if not isinstance(t, T) or len(t.axes) != len(un.vars[a].dims):
            return None
        ext = t.axes[k].ext
        val = ext - 1 + (alg.const(lb[1]) if lb[0] == "int" else alg.const(1))
        r = solve_dim(ub, d, val)
        if isinstance(r, tuple):
            _, e, nm, v2, c = r
            q = I.sc(models_div(I, v2, alg.const(c)))
            r = solve_dim(e, nm, q)
        if r is None or isinstance(r, tuple):
            return None
        full[d] = S(r)
    # inputs are copied to Fortran order by f2py: the routine cannot modify the caller's array
    for a in un.args:
        v = un.vars[a]
        if v.dims is not None and a in full and v.intent in ("in", None):
            t = full[a]
            for ax, (lb, ub) in zip(t.axes, v.dims):
                if ub is None:
                    continue
                w = ev(I, un, full, ub) - ev(I, un, full, lb) + 1
                r = need(I, "f2py: extent of %s" % a, alg.c_eq(ax.ext, w))
                if r is False:
                    raise AlwaysRaises("ValueError: fkernel.%s argument %s has the wrong extent" % (un.name, a), I.where)
    return full
