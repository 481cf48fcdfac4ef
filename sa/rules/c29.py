"""C29 position dependent effective mass."""
from lib import *
from rules.estref import *
from rules.c09 import inv_matrix

AGED = 3
REUSED = 3
RULE = ("the inverse mass coefficients solve the pooled normal equations of the kernel features, and the "
        "the free energy integrates the force and the slope of the inverse mass over the inverse mass")


def fit(cls, dim, rc, ntraj, n_jobs):
    def f(c):
        e = Est(c, cls, dim, 2, rc, ntraj, n_jobs)
        KE = {t: e.keval_tag(t) for t in e.tags}
        nk = len(KE[e.tags[0]])
        r = c.meth(e.e, "compute_pos_effective_mass")
        co = c.T(c.I.getattr(e.m, "inv_mass_coeff"))
        dot = lambda t, n, k, l: sum((KE[t][k][i](n) * KE[t][l][i](n) for i in range(dim)), const(0))
        inv = inv_matrix(c, nk, lambda k, l: e.mean(lambda n, t: dot(t, n, k, l)))
        rhs = [[e.mean(lambda n, t: sum((KE[t][l][i](n) * e.V(i, n, t) * e.V(x, n, t) for i in range(dim)), const(0))) for x in range(dim)] for l in range(nk)]
        c.tens("inverse mass coefficients", co, [nk, dim], lambda k, x: sum((c.at(inv, k, l) * rhs[l][int(topoly(x).const())] for l in range(nk)), const(0)))
        if not isinstance(r, Ref) or r != e.m:
            c.bad("returned model", "is not the estimator's model")
        c.no_mutation("trajectories untouched")
    return f


def points(c, dim, kind):
    """evaluation points as matrix or, in one dimension, as vector"""
    if kind == "matrix":
        return c.arr("x", sym("N"), dim)
    a = Ax(sym("N"))
    return T([a], el("x", a.p(), const(0)))


def fitted(cls):
    """the fitted coefficients can be evaluated: one matrix per point"""
    def f(c):
        e = Est(c, cls, 1, 2, True, 2)
        c.meth(e.e, "compute_pos_effective_mass")
        r = c.T(c.meth(e.m, "inv_mass_eval", c.arr("x", sym("N"), 1)))
        c.shape("inverse mass", r, sym("N"), 1, 1)
    return f


def pmf(cls, rc, zero, kind):
    def f(c):
        m = Mod(c, cls, 1, 2, rc)
        F = m.force()
        N = sym("N")
        c.I.setattr(m.m, "inv_mass_coeff", c.da("mc", ["dim_basis", "dim_x", "dim_x'"], [len(F), 1, 1]))
        c.I.setattr(m.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [len(F), 1]))
        p = points(c, 1, kind)
        kw = {} if zero is None else dict(set_zero=bool_(zero))
        r = c.T(c.meth(m.m, "pmf_num_int_eval", p, **kw))
        im = lambda n: sum((F[k](n) * el("mc", const(k), const(0), const(0)) for k in range(len(F))), const(0))
        fo = lambda n: sum((F[k](n) * el("fc", const(k), const(0)) for k in range(len(F))), const(0))
        xx = lambda n: el("x", n, const(0))
        dx = xx(const(1)) - xx(const(0))
        ax = Ax(N)
        I = c.I
        gr = I.d(I.call(Ext("numpy.gradient"), [T([ax], im(ax.p()))], {}))
        g = Ax(N)
        dm = subst(gr.body, {gr.axes[0].v: g.p()}) / dx
        grad = T([g], -(fo(g.p()) - dm) / im(g.p()))
        cs = I.d(I.call(Ext("numpy.cumsum"), [grad], {}))
        a2 = Ax(N)
        w = T([a2], subst(cs.body, {cs.axes[0].v: a2.p()}) * dx)
        mn = const(0) if zero is False else I.sc(I.call(Ext("numpy.min"), [w], {}))
        c.tens("free energy", r, [N], lambda n: subst(w.body, {w.axes[0].v: topoly(n)}) - mn)
        c.no_mutation("points untouched")
    return f


def obligations(tier):
    r = []
    for j in (1, 2):
        for cls in CLASSES:
            for dim in (1, 2):
                for rc in (False, True):
                    if dim == 2 and (rc or cls not in ("Pos_gle", "Pos_gle_const_kernel")):
                        continue
                    if rc and cls in FORCED:
                        continue
                    r.append(("fit %s dim=%d const removed=%s n_jobs=%d" % (cls, dim, rc, j), fit(cls, dim, rc, 2, j)))
        r.append(("fit of three trajectories n_jobs=%d" % j, fit("Pos_gle", 1, True, 3, j)))
    for cls in CLASSES:
        r.append(("fitted inverse mass evaluated, %s" % cls, fitted(cls)))
    for cls in CLASSES:
        if cls == "Pos_gle_with_friction":
            continue
        for kind in ("matrix", "vector"):
            for zero in (None, False, True):
                if zero is not None and cls != "Pos_gle":
                    continue
                r.append(("free energy %s %s, zero=%s" % (cls, kind, zero), pmf(cls, True, zero, kind)))
    return r
