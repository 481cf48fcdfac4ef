"""searching, sparse assembly and neighbour queries (used by the finite element features)."""
from values import *
import tops
from tops import pbody
import models as M
from models import NP, arg, isnone
from m_np import reg, regnp, arr, tocond, red_args
from m_np2 import np_argsort as _old_argsort

_old_max = {n: NP["numpy." + n] for n in ("argmax", "argmin")}


def asbool(b):
    return mk_ite(b, const(1), const(0)) if isinstance(b, Cond) else b


def _arg(name):
    def f(I, args, kw):
        t, axl, keep = red_args(I, args, kw)
        td = I.d(t)
        if axl is None or keep or len(axl) != 1 or td.xr:
            return _old_max[name](I, args, kw)
        a = td.axes[axl[0]]
        n = a.ext.intval()
        if n is None or not 1 <= n <= 6:
            return _old_max[name](I, args, kw)
        vals = [subst(td.body, {a.v: const(k)}) for k in range(n)]
        rest = [x for k, x in enumerate(td.axes) if k != axl[0]]
        boolean = all(isinstance(v, Cond) for v in vals) or isinstance(td.body, Cond)
        if boolean:
            res = const(0)                       # first true (false) entry, 0 when there is none
            for k in reversed(range(n)):
                c = vals[k] if name == "argmax" else c_not(vals[k])
                res = mk_ite(c, const(k), res)
            return T(rest, res)
        best, res = vals[0], const(0)
        for k in range(1, n):
            c = c_lt(best, vals[k]) if name == "argmax" else c_lt(vals[k], best)
            best, res = mk_ite(c, vals[k], best), mk_ite(c, const(k), res)
        return T(rest, res)
    return f


for _n in ("argmax", "argmin"):
    NP["numpy." + _n] = _arg(_n)


@regnp("argsort")
def np_argsort(I, args, kw):
    """permutation of a constant array"""
    t = I.d(arr(I, args[0]))
    ax = arg(args, kw, 1, "axis", S(-1))
    ns = [a.ext.intval() for a in t.axes]
    if isnone(ax) or not t.axes or any(n is None for n in ns):
        return _old_argsort(I, args, kw)
    k = tops.axis_list(I, t, ax)[0]
    if any(n != 1 for j, n in enumerate(ns) if j != k) or ns[k] > 12:
        return _old_argsort(I, args, kw)
    b = subst(pbody(t.body), {a.v: const(0) for j, a in enumerate(t.axes) if j != k})
    vals = [subst(b, {t.axes[k].v: const(i)}).const() for i in range(ns[k])]
    if any(v is None for v in vals) or len(set(vals)) < len(vals):
        return _old_argsort(I, args, kw)
    o = sorted(range(ns[k]), key=lambda i: vals[i])
    r = I.d(I.call(Ext("numpy.array"), [I.ref(HList([("i", S(x)) for x in o]))], {}))
    axes = [Ax(1) for _ in ns]
    axes[k] = r.axes[0]
    return T(axes, r.body)


@regnp("digitize", "searchsorted_")
def np_digitize(I, args, kw):
    x, b = I.d(I.num(arg(args, kw, 0, "x"))), I.d(I.num(arg(args, kw, 1, "bins")))
    right = kw.get("right")
    n = b.axes[0].ext.intval() if len(b.axes) == 1 else None
    if n is None or n > 12 or x.xr:
        return Unk("digitize")
    rt = right is not None and I.truth(right).op != "false"
    e = [subst(pbody(b.body), {b.axes[0].v: const(k)}) for k in range(n)]
    v = [q.const() for q in e]
    if any(q is None for q in v) or any(p >= q for p, q in zip(v, v[1:])):
        return Unk("digitize with unordered edges")
    xb = pbody(x.body)
    res = const(n)
    for k in reversed(range(n)):
        res = mk_ite(c_le(xb, e[k]) if rt else c_lt(xb, e[k]), const(k), res)
    return T(x.axes, res)


@reg("sparse.COO")
def coo(I, args, kw):
    """matrix with the data at the coordinates, repeated entries added up"""
    co, data, shape = arg(args, kw, 0, "coords"), arg(args, kw, 1, "data"), arg(args, kw, 2, "shape")
    it = I.iterate(co)
    d = I.d(I.num(data))
    sh = I.iterate(shape)
    if it is None or it[0] != "c" or sh is None or sh[0] != "c" or len(d.axes) > 1:
        return Unk("sparse.COO")
    cs = [I.d(I.num(x)) for x in it[1]]
    n = cs[0].axes[0].ext.intval() if cs and len(cs[0].axes) == 1 else None
    ls = [x.axes[0].ext.intval() if len(x.axes) == 1 else None for x in cs]
    if None not in ls and len(set(ls)) > 1:
        raise M.raises(I, "ValueError: coordinates differ in length")
    if n is None or n > 64 or any(len(x.axes) != 1 or x.axes[0].ext != cs[0].axes[0].ext for x in cs):
        return Unk("sparse.COO of symbolic size")
    if d.axes and d.axes[0].ext != cs[0].axes[0].ext:
        raise M.raises(I, "ValueError: coordinates and data differ in length")
    axes = [Ax(I.sc(s)) for s in sh[1]]
    if len(axes) != len(cs):
        raise M.raises(I, "ValueError: shape does not match the coordinates")
    body = const(0)
    for m in range(n):
        at = lambda t: subst(pbody(t.body), {t.axes[0].v: const(m)} if t.axes else {})
        body = body + mk_ite(c_and(*[c_eq(a.p(), at(x)) for a, x in zip(axes, cs)]), at(d), const(0))
    return T(axes, body)


TREE = '''
class KDTree:
    def __init__(self, data):
        self.data = np.asarray(data)
        self.n, self.m = self.data.shape
    def query(self, x, k=1):
        return QUERY(self.data, x, k)
'''


@reg("scipy.spatial.cKDTree", "scipy.spatial.KDTree")
def kdtree(I, args, kw):
    def query(I, a, k):
        data, x, kk = I.d(I.num(a[0])), I.d(I.num(a[1])), I.sc(a[2])
        lam = mk_lam([q.v for q in data.axes], [q.ext for q in data.axes], pbody(data.body))
        pts = x.axes[:-1]
        c = x.axes[-1]
        xl = mk_lam([c.v], [c.ext], pbody(x.body))
        j = Ax(kk)
        r = ap("kdnear", (lam, xl), (j.p(),))
        if data.axes[0].ext.const() == 1:
            r = const(0)                     # the only point
        one = kk.const() == 1
        if one:
            r = subst(r, {j.v: const(0)})
        ix = T(list(pts) + ([] if one else [j]), r)
        return Tup([T(ix.axes, ap("kddist", (lam, xl), (j.p() if not one else const(0),))), ix])
    cls = I.spec(TREE, "KDTree", {"QUERY": Opq("query", hook=("call", query))})
    return I.instantiate(cls, [args[0]], {})


# ------------------------------------------------------------- clustering and triangulation (opaque results)
OBJ = '''
class KM:
    def __init__(self, n, key):
        self.n, self.key = n, key
    def fit(self, data, y=None, sample_weight=None):
        self.cluster_centers_ = CENTERS(data, self.n)
        self.labels_ = LABELS(data, self.n)
        return self
class Tri:
    def __init__(self, pts):
        self.points = pts
        self.simplices = SIMP(pts)
class Hull:
    def __init__(self, pts):
        self.points = pts
        self.vertices = VERT(pts)
'''


def _key(I, v):
    t = I.d(I.num(v))
    return mk_lam([q.v for q in t.axes], [q.ext for q in t.axes], pbody(t.body)), t


def _hook(name, g):
    return Opq(name, hook=("call", lambda I, a, k: g(I, *a)))


def _centers(I, data, n):
    l, t = _key(I, data)
    a, b = Ax(I.sc(n)), Ax(t.axes[1].ext)
    return T([a, b], ap("kmeans", (l, I.sc(n)), (a.p(), b.p())))


def _labels(I, data, n):
    l, t = _key(I, data)
    a = Ax(t.axes[0].ext)
    return T([a], ap("kmeans_label", (l, I.sc(n)), (a.p(),)))


def _simp(I, pts):
    l, t = _key(I, pts)
    a, b = Ax(ap("ntri", (l,))), Ax(t.axes[1].ext + 1)
    return T([a, b], ap("delaunay", (l,), (a.p(), b.p())))


def _vert(I, pts):
    l, t = _key(I, pts)
    a = Ax(ap("nhull", (l,)))
    return T([a], ap("hull", (l,), (a.p(),)))


ENV = {"CENTERS": _hook("centers", _centers), "LABELS": _hook("labels", _labels), "SIMP": _hook("simp", _simp), "VERT": _hook("vert", _vert)}


@reg("sklearn.cluster.KMeans")
def kmeans(I, args, kw):
    n = arg(args, kw, 0, "n_clusters", S(8))
    bad = set(kw) - {"n_clusters", "random_state", "n_init", "init", "max_iter", "tol", "verbose"}
    return Unk("KMeans options") if bad else I.instantiate(I.spec(OBJ, "KM", ENV), [n, S(0)], {})


@reg("scipy.spatial.Delaunay")
def delaunay(I, args, kw):
    return I.instantiate(I.spec(OBJ, "Tri", ENV), [args[0]], {}) if len(args) == 1 and not kw else Unk("Delaunay options")


@reg("scipy.spatial.ConvexHull")
def hull(I, args, kw):
    return I.instantiate(I.spec(OBJ, "Hull", ENV), [args[0]], {}) if len(args) == 1 and not kw else Unk("ConvexHull options")


@regnp("cross")
def np_cross(I, args, kw):
    a, b = I.d(I.num(args[0])), I.d(I.num(args[1]))
    if kw or len(args) > 2 or len(a.axes) != 1 or len(b.axes) != 1:
        return Unk("cross")
    n, m = a.axes[0].ext.intval(), b.axes[0].ext.intval()
    if n not in (2, 3) or m not in (2, 3):
        return Unk("cross")
    u = [subst(pbody(a.body), {a.axes[0].v: const(k)}) for k in range(n)] + [const(0)] * (3 - n)
    v = [subst(pbody(b.body), {b.axes[0].v: const(k)}) for k in range(m)] + [const(0)] * (3 - m)
    r = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    if n == m == 2:
        return S(r[2])
    return I.call(Ext("numpy.array"), [I.ref(HList([("i", S(x)) for x in r]))], {})
