"""the library's function bases, with the reference description of each column.

A config is (name, build(c) -> object, dim, ncols, col(n)->(P of X), drop) where col(c, o, j)(x) is the
reference value of column j and `drop` the set of columns absent from derivatives."""
from lib import *

BF, LF, MD = "basis._basis_features", "basis._local_features", "basis._multidim_basis"
PI = sym("pi")
TRUEV, FALSEV = T((), TRUE), T((), FALSE)


def bool_(b):
    return TRUEV if b else FALSEV


def Xe(n, i):
    return el("X", n, i)


class Cfg:
    def __init__(self, name, build, dim, ncols, col, drop=(), maxder=2, anti=True, zero_from=None, one=False):
        self.name, self.build, self.dim, self.ncols, self.col = name, build, dim, ncols, col
        self.one = one   # supports one dimension only
        self.drop, self.maxder, self.anti, self.zero_from = set(drop), maxder, anti, zero_from

    def make(self, c, used=False):
        """the basis fitted on the description (mn, mx, mean, ...); with `used`, the object was fitted on and evaluated
        for other data (another dimension where it can) before, and evaluated for other samples since"""
        o = self.build(c)
        if used:
            d0 = self.dim if self.one else 3 - min(self.dim, 2)
            c.meth(o, "fit", c.describe(d0, "0"))
            self.evals(c, o, c.arr("Z0", sym("N0"), d0))
        c.meth(o, "fit", c.describe(self.dim))
        if used:
            self.evals(c, o, c.arr("Z1", sym("N1"), self.dim))
        return o

    def evals(self, c, o, X):
        for m in ("basis", "deriv", "hessian") + (("antiderivative",) if self.anti else ()):
            c.meth(o, m, X)

    def kept(self):
        return [j for j in range(self.ncols) if j not in self.drop]


def fapp(key, order, arg):
    return mk_ap("fapp", (key, const(order), arg))


def linear(dim, center):
    def build(c):
        return c.call(c.get(BF, "LinearFeatures"), to_center=bool_(center))
    return Cfg("LinearFeatures(dim=%d,centred=%s)" % (dim, center), build, dim, dim,
               lambda c, n, j: Xe(n, j) - (el("mean", j) if center else 0))


def poly(dim, deg, rc, kind="Polynomial"):
    def build(c):
        kw = dict(deg=S(deg), remove_const=bool_(rc))
        if kind != "Polynomial":
            kw["polynom"] = Ext("numpy.polynomial." + kind)
        return c.call(c.get(BF, "PolynomialFeatures"), **kw)

    def col(c, n, j):
        d, i = divmod(j, dim)
        return poly_ref(c, kind, d, Xe(n, i))
    return Cfg("PolynomialFeatures(dim=%d,deg=%d,const removed=%s,%s)" % (dim, deg, rc, kind), build, dim, dim * (deg + 1), col,
               range(dim) if rc else ())


def poly_ref(c, kind, d, x):
    """numpy.polynomial.<kind>.basis(d) applied to x"""
    f = c.I.call(c.I.getattr(Ext("numpy.polynomial." + kind), "basis"), [S(d)], {})
    return c.T(c.I.call(f, [S(x)], {})).body


def fourier(dim, order, rc):
    w = sym("w")

    def build(c):
        return c.call(c.get(BF, "FourierFeatures"), order=S(order), freq=S(w), remove_const=bool_(rc))

    def col(c, n, j):
        m, i = divmod(j, dim)
        x = Xe(n, i)
        if m == 0:
            return (2 * PI).pow(Fraction(-1, 2))
        k = (m + 1) // 2
        return mk_ap("cos" if m % 2 == 0 else "sin", (k * w * x,)) * PI.pow(Fraction(-1, 2))
    return Cfg("FourierFeatures(dim=%d,order=%d,const removed=%s)" % (dim, order, rc), build, dim, dim * (2 * order + 1), col,
               range(dim) if rc else ())


def splinefct(dim, k=3):
    def build(c):
        return c.call(c.get(BF, "SplineFctFeatures"), c.arr("kn", sym("nk")), c.arr("cf", sym("nc")), k=S(k))

    def col(c, n, j):
        f = c.I.call(Ext("scipy.interpolate.BSpline"), [c.arr("kn", sym("nk")), c.arr("cf", sym("nc")), S(k)], {})
        return c.T(c.I.call(f, [S(Xe(n, j))], {})).body
    return Cfg("SplineFctFeatures(dim=%d,k=%d)" % (dim, k), build, dim, dim, col)


BSPEC = '''
import numpy as np
import scipy.interpolate
def ref(lo, hi, n_knots, k, per, j, x):
    grid = np.linspace(lo, hi, n_knots)
    t, c0, kk = scipy.interpolate.splrep(grid, np.zeros(n_knots), k=k, per=per)
    c = np.asarray([1.0 if m == j else 0.0 for m in range(len(c0))])
    return scipy.interpolate.splev(x, (t, c, kk))
'''


def bspline(nk, k, rc, per=False):
    def build(c):
        return c.call(c.get(LF, "BSplineFeatures"), n_knots=S(nk), k=S(k), periodic=bool_(per), remove_const=bool_(rc))

    def col(c, n, j):
        f = c.I.spec(BSPEC, "ref")
        r = c.I.call(f, [c.arr("mn", 1), c.arr("mx", 1), S(nk), S(k), bool_(per), S(j), S(Xe(n, 0))], {})
        return c.T(r).body
    return Cfg("BSplineFeatures(n_knots=%d,k=%d,const removed=%s%s)" % (nk, k, rc, ",periodic" if per else ""), build, 1, nk, col,
               (nk - 1,) if rc else (), zero_from=k + 1, one=True)


def base_configs(tier):
    r = []
    dims = (1, 2) if tier == "quick" else (1, 2, 3)
    for d in dims:
        for ce in (False, True):
            r.append(linear(d, ce))
        for rc in (True, False):
            for deg in ((1, 2, 3) if d < 3 else (2,)):
                r.append(poly(d, deg, rc))
            r.append(poly(d, 2, rc, "Chebyshev"))
            for o in ((1, 2) if d < 3 else (1,)):
                r.append(fourier(d, o, rc))
            if d == 1:
                r.append(poly(d, 6, rc))
                r.append(fourier(d, 4, rc))
            if tier != "quick" and d == 1:
                r.append(fourier(d, 3, rc))
                r.append(poly(d, 4, rc, "Legendre"))
        r.append(splinefct(d))
    for rc in (True, False):
        r.append(bspline(5, 3, rc))
        r.append(bspline(4, 2, rc))
        r.append(bspline(3, 1, rc))
        r.append(bspline(9, 3, rc))
        r.append(bspline(5, 3, rc, True))
    return r


def used_configs(tier):
    """one representative of each family for the checks on reused objects"""
    r = [linear(2, True), linear(1, False), poly(2, 2, True), poly(1, 3, False), fourier(2, 1, True), fourier(1, 2, False),
         splinefct(2), bspline(4, 3, True), bspline(5, 3, False), bspline(5, 3, True, True)]
    return r if tier == "quick" else base_configs(tier)
