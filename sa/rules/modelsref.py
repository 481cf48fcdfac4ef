"""reference description of the models' features, over user supplied bases"""
from lib import *
from rules.bases import bool_, Xe
from rules import c07

MO, GE = "models", "gle_estimation"
CLASSES = ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_const_kernel", "Pos_gle_hybrid", "Pos_gle_overdamped")
OBS = {"Pos_gle_no_vel_basis": "v", "Pos_gle_overdamped": "v"}
FORCED = ("Pos_gle_no_vel_basis", "Pos_gle_hybrid", "Pos_gle_overdamped")      # constant never removed

SRC = c07.SRC + '''
    def antiderivative(self, X, order=1):
        return EVAL(self.tag, self.ncols, self.mean, self.lo, self.hi, X, -1, False)
'''


def ev(I, args, kw):
    args = list(args)
    o = int(I.num(args[6]).body.const())
    if o < 0:
        args[6] = S(0)
        r = c07.ev(I, args, kw)
        mp = {}
        for a in walk(r.body):
            if isinstance(a, Atom) and a.kind == "ap" and a.name == "fapp":
                mp[a] = mk_ap("fapp", (a.args[0][0], const(-1), a.args[0][2]))
        return T(r.axes, subst_atoms(r.body, mp))
    return c07.ev(I, args, kw)


def user(c, tag, nc, rc=False):
    cls = c.I.spec(SRC, "UB", {"EVAL": Opq("EVAL", hook=("call", ev))})
    return c.I.call(cls, [K(tag), S(nc), bool_(rc)], {})


class Mod:
    """a model over a user basis with nc functions per coordinate"""

    def __init__(self, c, cls, dim=1, nc=2, rc=False, fitted=True, dim_obs=None, L_obs=None, extra=None, **kw):
        self.c, self.cls, self.dim, self.nc = c, cls, dim, nc
        self.basis = user(c, "f", nc, rc)
        self.rc0 = rc
        self.rc = rc and cls not in FORCED
        self.dim_obs = dim if dim_obs is None else dim_obs
        if fitted:
            c.meth(self.basis, "fit", c.describe(dim))
        a = dict(dim_x=S(dim), dim_obs=S(self.dim_obs))
        if L_obs:
            a["L_obs"] = K(L_obs)
        a.update(extra or {})
        if not fitted:
            a["describe_data"] = c.describe(dim)
        self.m = c.call(c.get(MO, cls), self.basis, S(sym("dt")), **a)
        self.nb = nc * dim
        self.kept = self.nb - (dim if self.rc else 0)

    def f(self, k, n, order=0, x="X", tag=""):
        """column k of the basis (order-th derivative) at time n of the trajectory's x"""
        q, i = divmod(k, self.dim)
        key = c07.key("f", q, i, el("mean", const(i)), el("mn", const(i)), el("mx", const(i)))
        return mk_ap("fapp", (key, const(order), el("x" + tag, n, const(i))))

    def dk(self, k):
        """index of the k-th derivative column among the value columns"""
        return k + (self.dim if self.rc else 0)

    def g(self, k, n, i, tag=""):
        k = self.dk(k)
        return self.f(k, n, 1, tag=tag) if k % self.dim == i else const(0)

    def h(self, k, n, i, j, tag=""):
        k = self.dk(k)
        return self.f(k, n, 2, tag=tag) if k % self.dim == i == j else const(0)

    # ---- features: list of functions n -> P ----
    def V(self, i, n, tag=""):
        return el("v" + tag, n, const(i))

    def A(self, i, n, tag=""):
        return el("a" + tag, n, const(i))

    def gv(self, k, n, tag=""):
        return sum((self.g(k, n, i, tag) * self.V(i, n, tag) for i in range(self.dim)), const(0))

    def dgv(self, k, n, tag=""):
        d = self.dim
        r = sum((self.g(k, n, i, tag) * self.A(i, n, tag) for i in range(d)), const(0))
        return r + sum((self.h(k, n, i, j, tag) * self.V(i, n, tag) * self.V(j, n, tag) for i in range(d) for j in range(d)), const(0))

    def force(self, tag=""):
        b = [lambda n, k=k: self.f(k, n, tag=tag) for k in range(self.nb)]
        if self.cls == "Pos_gle_with_friction":
            b += [lambda n, k=k: self.gv(k, n, tag) for k in range(self.kept)]
        return b

    def kern(self, tag=""):
        """(E, dE) lists"""
        d = self.dim
        if self.cls in ("Pos_gle", "Pos_gle_with_friction"):
            return ([lambda n, k=k: self.gv(k, n, tag) for k in range(self.kept)], [lambda n, k=k: self.dgv(k, n, tag) for k in range(self.kept)])
        if self.cls == "Pos_gle_const_kernel":
            return ([lambda n, i=i: self.V(i, n, tag) for i in range(d)], [lambda n, i=i: self.A(i, n, tag) for i in range(d)])
        E = [lambda n, k=k: self.f(k, n, tag=tag) for k in range(self.nb)]
        dE = [lambda n, k=k: self.gv(k, n, tag) for k in range(self.nb)]
        if self.cls == "Pos_gle_hybrid":
            E = [lambda n, i=i: self.V(i, n, tag) for i in range(d)] + E
            dE = [lambda n, i=i: self.A(i, n, tag) for i in range(d)] + dE
        return E, dE

    def keval(self):
        return self.keval_tag("")

    def keval_tag(self, tag):
        """kernel-evaluation features: matrix [k][i] of functions of n"""
        d = self.dim
        if self.cls in ("Pos_gle", "Pos_gle_with_friction"):
            return [[lambda n, k=k, i=i: self.g(k, n, i, tag) for i in range(d)] for k in range(self.kept)]
        if self.cls == "Pos_gle_const_kernel":
            return [[lambda n, k=k, i=i: const(1 if k == i else 0) for i in range(d)] for k in range(d)]
        return [[lambda n, k=k: self.f(k, n, tag=tag) for i in range(d)] for k in range(self.nb)]


def cols(c, label, v, N, fs, facts=()):
    """v is (time, dim_basis) with the given columns"""
    t = c.T(v, label)
    if sorted(map(str, t.dims())) != ["dim_basis", "time"]:
        c.bad(label + " dimensions", "dimensions %s" % (t.dims(),))
        return
    order = [list(t.dims()).index("time"), list(t.dims()).index("dim_basis")]
    ax = [t.axes[i] for i in order]
    a = c.eq(label + " samples", ax[0].ext, topoly(N), facts)
    b = c.eq(label + " count", ax[1].ext, const(len(fs)), facts)
    if not (a and b):
        return
    n = Ax(N).p()
    for k, f in enumerate(fs):
        c.eq("%s column %d" % (label, k), subst(t.body, {ax[0].v: n, ax[1].v: const(k)}), f(n), facts)
