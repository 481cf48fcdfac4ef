"""C12 mean force and mass: least squares."""
from lib import *
from rules.estref import *
from rules.c09 import inv_matrix, inv_check

AGED = 4
REUSED = 4
RULE = ("the mean force coefficients solve the normal equations of the pooled least squares problem (Gram matrix of the force features "
        "times coefficients = pooled feature-observable average), and are stored with the dimensions of the observable")


def coeff_check(c, label, e, fc, gram, rhs, nf, no, dims):
    t = c.T(fc, label)
    if tuple(t.dims()) != tuple(dims):
        c.bad(label + " dimensions", "dimensions %s, expected %s" % (t.dims(), dims))
        return
    inv = inv_matrix(c, nf, gram)
    c.tens(label, t, [nf, no], lambda k, x: sum((c.at(inv, k, l) * rhs(l, x) for l in range(nf)), const(0)))


def ob(cls, dim, rc, ntraj=2, n_jobs=1, L_obs=None, nc=2, single=False):
    def f(c):
        e = Est(c, cls, dim, nc, rc, ntraj, n_jobs, single, L_obs=L_obs)
        F = {t: e.force(t) for t in e.tags}
        nf = len(e.force())
        gram = lambda k, l: e.mean(lambda n, t: F[t][k](n) * F[t][l](n))
        rhs = lambda k, x: e.mean(lambda n, t: F[t][k](n) * e.O(x, n, t))
        for rep in ("", " again"):
            r = c.meth(e.e, "compute_mean_force")
            same(c, "the model is returned" + rep, r, e.m)
            coeff_check(c, "mean force coefficients" + rep, e, c.I.getattr(e.m, "force_coeff"), gram, rhs, nf, dim, ("dim_basis", "dim_x"))
            matrix(c, "Gram matrix" + rep, c.I.getattr(e.m, "gram_force"), None, gram, [nf, nf])
        c.no_mutation("trajectories untouched")
    return f


def same(c, label, a, b):
    if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
        c.ok(label)
    elif isinstance(a, Unk):
        c.und(label, a.why)
    else:
        c.bad(label, "is %s" % short(a))


def ob_zero(cls, dim):
    def f(c):
        e = Est(c, cls, dim, 2, False, 2)
        c.meth(e.e, "set_zero_force")
        t = c.T(c.I.getattr(e.m, "force_coeff"))
        if tuple(t.dims()) != ("dim_basis", "dim_x"):
            c.bad("dimensions", str(t.dims()))
        c.tens("zero force", t, [len(e.force()), dim], lambda k, x: const(0))
    return f


def ob_solve(n, m):
    def f(c):
        g = c.da("g", ["dim_basis", "dim_basis'"], [n, n])
        b = c.da("b", ["dim_basis", "dim_obs"][:2 if m else 1], [n, m] if m else [n])
        r = c.T(c.call(c.get(GE, "solve_linear"), g, b))
        inv = inv_matrix(c, n, lambda i, j: el("g", const(i), const(j)))
        if tuple(r.dims()) != (("dim_basis", "dim_obs") if m else ("dim_basis",)):
            c.bad("dimensions", str(r.dims()))
        if m:
            c.tens("solution", r, [n, m], lambda i, x: sum((c.at(inv, i, k) * el("b", const(k), const(x)) for k in range(n)), const(0)))
        else:
            c.tens("solution", r, [n], lambda i: sum((c.at(inv, i, k) * el("b", const(k)) for k in range(n)), const(0)))
    return f


def ob_gfpe(cls, dim, rc, other=False):
    """the time derivative of the kernel features becomes the observable"""
    def f(c):
        e = Est(c, cls, dim, 2, rc, 2)
        dE = {t: e.kern(t)[1] for t in e.tags}
        nk = len(dE[e.tags[0]])
        kw = dict(new_obs_name=K("new")) if other else {}
        name = "new" if other else "dE"
        c.meth(e.e, "to_gfpe", **kw)
        lo = c.I.getattr(e.m, "L_obs")
        (c.ok if isinstance(lo, K) and lo.v == name else (lambda l: c.bad(l, "is %s" % short(lo))))("observable of the model")
        c.eq("number of observables", c.T(c.I.getattr(e.m, "dim_obs")).body, const(nk))
        lst = c.I.getattr(e.e, "xva_list")
        for k, (tag, L) in enumerate(zip(e.tags, e.lens)):
            ds = c.I.getitem(lst, S(k))
            t = c.T(c.I.getitem(ds, K(name)))
            if tuple(t.dims()) != ("time", "dim_dE"):
                c.bad("observable of trajectory %d" % k, "dimensions %s" % (t.dims(),))
                continue
            n = Ax(L).p()
            c.eq("samples of trajectory %d" % k, t.axes[0].ext, L)
            for j in range(nk):
                c.eq("observable of trajectory %d column %d" % (k, j), subst(t.body, {t.axes[0].v: n, t.axes[1].v: const(j)}), dE[tag][j](n))
        F = {t: e.force(t) for t in e.tags}
        nf = len(e.force())
        if nf <= 4:
            c.meth(e.e, "compute_mean_force")
            coeff_check(c, "mean force coefficients", e, c.I.getattr(e.m, "force_coeff"), lambda k, l: e.mean(lambda n, t: F[t][k](n) * F[t][l](n)),
                        lambda k, x: e.mean(lambda n, t: F[t][k](n) * dE[t][x](n)), nf, nk, ("dim_basis", "dim_dE"))
        c.meth(e.e, "set_zero_force")
        t = c.T(c.I.getattr(e.m, "force_coeff"))
        c.tens("zero force", t, [nf, nk], lambda k, x: const(0))
    return f


def obligations(tier):
    r = []
    for n in (1, 2, 3):
        for m in (0, 1, 2):
            r.append(("solve_linear %d unknowns, %d right hand sides" % (n, m), ob_solve(n, m)))
    for cls in CLASSES:
        for dim in (1, 2):
            for rc in (False, True):
                if rc and (cls in FORCED or dim == 2) and tier == "quick":
                    continue
                nc = 1 if dim == 2 and cls == "Pos_gle_with_friction" else 2
                if dim == 2 and rc and nc == 1:
                    continue
                r.append(("mean force %s dim=%d const removed=%s" % (cls, dim, rc), ob(cls, dim, rc, nc=nc)))
            r.append(("zero force %s dim=%d" % (cls, dim), ob_zero(cls, dim)))
    for cls in ("Pos_gle", "Pos_gle_overdamped"):
        r.append(("mean force %s two jobs" % cls, ob(cls, 1, True, 2, 2)))
        r.append(("mean force %s one data set" % cls, ob(cls, 1, True, 1, 1, single=True)))
        r.append(("mean force %s three functions" % cls, ob(cls, 1, False, 1, 1, nc=3)))
    r.append(("mean force of another observable", ob("Pos_gle", 2, False, 2, 1, L_obs="v")))
    for cls in CLASSES:
        r.append(("observable from the features %s" % cls, ob_gfpe(cls, 1, False)))
    r.append(("observable from the features, own name", ob_gfpe("Pos_gle_overdamped", 1, False, True)))
    r.append(("observable from the features, two components", ob_gfpe("Pos_gle_overdamped", 2, False)))
    return r
