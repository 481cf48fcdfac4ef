"""C11 correlation functions of the estimator."""
from lib import *
from rules.estref import *
from rules.fref import sum_

AGED = 4
REUSED = 4
RULE = ("each correlation matrix of the estimator is, at every kept lag, the pooled average over trajectories of (feature or its "
        "derivative)(t) times (kernel feature or observable minus mean force)(t + lag), for every estimator option")


def assume(c, *conds):
    for cd in conds:
        c.I.pc.append(cd)


class Corr:
    """estimator with given mean force and truncation index R <= all lengths"""

    def __init__(self, c, cls, dim, rc, ntraj, n_jobs=1, L_obs=None, R=None, nc=2, fc=True):
        self.c = c
        self.e = e = Est(c, cls, dim, nc, rc, ntraj, n_jobs, L_obs=L_obs)
        if R is None:
            Bounds.pos.add("R")
            R = sym("R")
        self.R = topoly(R)
        c.I.setattr(e.m, "trunc_ind", S(self.R))
        self.facts = [(c_le(self.R, L), True) for L in e.lens]
        assume(c, *[f for f, _ in self.facts])
        self.nf = len(e.force())
        if fc:
            c.I.setattr(e.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [self.nf, dim]))
        self.F = {t: e.force(t) for t in e.tags}
        self.E = {t: e.kern(t)[0] for t in e.tags}
        self.dE = {t: e.kern(t)[1] for t in e.tags}
        self.nk = len(self.E[e.tags[0]])
        self.dim = dim

    def ortho(self, i, n, tag):
        return self.e.O(i, n, tag) - sum((self.F[tag][k](n) * el("fc", const(k), const(i)) for k in range(self.nf)), const(0))

    def corr(self, lag, f, g):
        """pooled: sum_traj N_traj * average_t f(t) g(t+lag) / total"""
        r = const(0)
        for tag, L in zip(self.e.tags, self.e.lens):
            r = r + L * sum_(0, L - lag, lambda t: f(t, tag) * g(t + lag, tag)) / (L - lag)
        return r / self.e.tot

    def bkdx(self, k, x, lag):
        return self.corr(lag, lambda t, g: self.E[g][k](t), lambda t, g: self.ortho(x, t, g))

    def bkbk(self, k, l, lag):
        return self.corr(lag, lambda t, g: self.E[g][k](t), lambda t, g: self.E[g][l](t))

    def dbkdx(self, k, x, lag):
        return self.corr(lag, lambda t, g: self.dE[g][k](t), lambda t, g: self.ortho(x, t, g))

    def dbkbk(self, k, l, lag):
        return self.corr(lag, lambda t, g: self.dE[g][k](t), lambda t, g: self.E[g][l](t))


DIM = {"bkdxcorrw": ("dim_basis", "dim_x", "time_trunc"), "bkbkcorrw": ("dim_basis'", "dim_basis", "time_trunc"),
       "dotbkdxcorrw": ("dim_basis", "dim_x", "time_trunc"), "dotbkbkcorrw": ("dim_basis'", "dim_basis", "time_trunc")}


def chk(c, q, name, ref, sizes, lags, obsdim="dim_x"):
    t = c.T(c.I.getattr(q.e.e, name), name)
    want = tuple(obsdim if d == "dim_x" else d for d in DIM[name])
    if tuple(t.dims()) != want:
        c.bad("%s dimensions" % name, "dimensions %s, expected %s" % (t.dims(), want))
        return
    c.ok("%s dimensions" % name)
    for k, (a, e) in enumerate(zip(t.axes, sizes + [q.R])):
        c.eq("%s extent %d" % (name, k), a.ext, topoly(e), q.facts)
    for i in range(sizes[0]):
        for j in range(sizes[1]):
            for lab, lag in lags:
                fx = q.facts + [(c_lt(lag, q.R), True)]
                c.eq("%s[%d,%d] at %s" % (name, i, j, lab), subst(t.body, {t.axes[0].v: const(i), t.axes[1].v: const(j), t.axes[2].v: lag}), ref(i, j, lag), fx)


def lags(q):
    v = fresh_iv()
    Bounds.iv[v] = (const(0), q.R)
    return [("lag zero", const(0)), ("any lag", iv(v))]


def ob(cls, dim, rc, ntraj=2, n_jobs=1, opts=None, L_obs=None, second=True):
    def f(c):
        nc = 1 if (cls == "Pos_gle_with_friction" and dim == 2) or cls == "Pos_gle_hybrid" else 2
        q = Corr(c, cls, dim, rc, ntraj, n_jobs, L_obs, nc=nc)
        c.I.setattr(q.e.m, "rank_projection", bool_(False))
        kw = dict(opts or {})
        if not second:
            kw["second_order_method"] = bool_(False)
        c.meth(q.e.e, "compute_corrs", **kw)
        ls = lags(q)
        chk(c, q, "bkdxcorrw", q.bkdx, [q.nk, dim], ls)
        chk(c, q, "bkbkcorrw", q.bkbk, [q.nk, q.nk], ls)
        if second:
            chk(c, q, "dotbkdxcorrw", q.dbkdx, [q.nk, dim], ls)
            chk(c, q, "dotbkbkcorrw", q.dbkbk, [q.nk, q.nk], ls)
        else:
            t = c.T(c.I.getattr(q.e.e, "dotbkdxcorrw"))
            z = c.T(c.I.call(c.I.getattr(t, "isel"), [], dict(time_trunc=S(0))))
            c.tens("derivative correlation at lag zero", z, [q.nk, dim], lambda k, x: q.dbkdx(k, x, const(0)), dims=["dim_basis", "dim_x"])
        c.no_mutation("trajectories untouched")
    return f


def ob_need(c):
    q = Corr(c, "Pos_gle", 1, False, 1, fc=False)
    c.raises("correlations without mean force", lambda: c.meth(q.e.e, "compute_corrs"))


def obligations(tier):
    r = []
    for cls in CLASSES:
        for dim in (1, 2):
            for rc in (False, True):
                if cls == "Pos_gle_hybrid" and dim == 2:
                    continue
                if rc and (dim == 2 or cls in FORCED) and tier == "quick":
                    continue
                r.append(("%s dim=%d const removed=%s" % (cls, dim, rc), ob(cls, dim, rc)))
    for cls in ("Pos_gle", "Pos_gle_overdamped", "Pos_gle_const_kernel"):
        r.append(("%s two jobs" % cls, ob(cls, 1, True, 2, 2)))
        r.append(("%s one trajectory" % cls, ob(cls, 1, True, 1, 1)))
        r.append(("%s without second order" % cls, ob(cls, 1, True, 2, 1, second=False)))
    r.append(("Pos_gle two jobs without second order", ob("Pos_gle", 1, True, 2, 2, second=False)))
    r.append(("Pos_gle other observable", ob("Pos_gle", 1, True, 2, 1, L_obs="v")))
    for m in ("fft", "direct"):
        for vec in (True, False):
            for dim in (1, 2):
                r.append(("Pos_gle dim=%d method=%s vectorize=%s" % (dim, m, vec), ob("Pos_gle", dim, True, 2, 1, dict(method=K(m), vectorize=bool_(vec)))))
    r.append(("mean force required", ob_need))
    return r
