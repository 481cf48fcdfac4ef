"""estimator set-ups shared by the rules"""
from lib import *
from rules.modelsref import *
from rules.bases import bool_


class Est(Mod):
    """estimator over ntraj trajectories of different lengths with the model `cls`"""

    def __init__(self, c, cls, dim=1, nc=2, rc=False, ntraj=2, n_jobs=1, single=False, trunc=None, L_obs=None, **kw):
        self.c, self.cls, self.dim, self.nc = c, cls, dim, nc
        self.rc = rc and cls not in FORCED
        self.nb = nc * dim
        self.kept = self.nb - (dim if self.rc else 0)
        self.dim_obs = dim
        self.obs = L_obs or ("v" if cls in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped") else "a")
        self.tags = [""] if single else [str(k) for k in range(ntraj)]
        self.lens = []
        self.trajs = []
        for t in self.tags:
            n = "N" + t
            Bounds.pos.add(n)
            self.lens.append(sym(n))
            self.trajs.append(c.traj("xva", N=n, dim=dim, tag=t))
        self.tot = sum(self.lens, const(0))
        self.basis = user(c, "f", nc, rc)
        c.meth(self.basis, "fit", c.describe(dim))
        a = dict(saveall=FALSEV_(), verbose=FALSEV_(), n_jobs=S(n_jobs), trunc=S(sym("trunc")) if trunc is None else trunc)
        if L_obs:
            a["L_obs"] = K(L_obs)
        a.update(kw)
        arg = self.trajs[0] if single else c.list(self.trajs)
        self.e = c.call(c.get(GE, "Estimator_gle"), arg, c.get(MO, cls), self.basis, **a)
        self.m = c.I.getattr(self.e, "model")

    # observable of trajectory tag, component i
    def O(self, i, n, tag):
        return el(self.obs + tag, n, const(i))

    def pooled(self, fn):
        """sum over all trajectories and times of fn(n, tag)"""
        r = const(0)
        for tag, L in zip(self.tags, self.lens):
            t = fresh_iv()
            Bounds.iv[t] = (const(0), L)
            r = r + mk_sum(t, const(0), L, fn(iv(t), tag))
        return r

    def mean(self, fn):
        return self.pooled(fn) / self.tot

    def feats(self, kind, tag):
        if kind == "force":
            return self.force(tag)
        return self.kern(tag)[0]


def FALSEV_():
    return bool_(False)


def matrix(c, label, v, dims, body, sizes, facts=()):
    t = c.T(v, label)
    if t.xr and dims and tuple(t.dims()) != tuple(dims):
        if sorted(map(str, t.dims())) != sorted(dims):
            c.bad(label + " dimensions", "dimensions %s, expected %s" % (t.dims(), dims))
            return
        c.bad(label + " dimensions", "dimension order %s, expected %s" % (t.dims(), dims))
        return
    c.tens(label, t, sizes, body, facts)
