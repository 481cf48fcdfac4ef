"""C28 meshes."""
from lib import *
from rules.bases import bool_

MU = "basis._mesh_utils"
RULE = ("line meshes start and end at the given points and have their nodes at the documented places; meshes built from data consist of the "
        "boundary followed by the cluster centres; the intersection of two lines lies on both")


def uniform(n):
    def f(c):
        a, b = sym("xa"), sym("xb")
        nn = sym("M") if n is None else const(n)
        r = c.call(c.get(MU, "uniform_line"), S(a), S(b), S(nn))
        c.tens("nodes", r, [nn + 1], lambda k: a + (b - a) * topoly(k) / nn)
    return f


def geometric(n, ratio):
    def f(c):
        a, b = sym("xa"), sym("xb")
        q = sym("q") if ratio is None else const(ratio)
        facts = [(c_lt(const(0), q), True)] + ([(c_eq(q, const(1)), False)] if ratio is None else [])
        r = c.call(c.get(MU, "non_uniform_line"), S(a), S(b), S(const(n)), S(q))
        t = c.shape("nodes", c.T(r), n + 1)
        if t is None:
            return
        tot = sum((q.pow(j) for j in range(n)), const(0))
        for k in range(n + 1):
            # compare after clearing the denominators
            want = a * tot + (b - a) * sum((q.pow(j) for j in range(k)), const(0))
            c.eq("node %d" % k, c.at(t, k) * tot, want, facts)
    return f


def intersect(kind):
    def f(c):
        p = [[sym("p%d%s" % (k, d)) for d in "xy"] for k in range(4)]
        mk = (lambda v: c.list([S(x) for x in v])) if kind == "list" else (lambda v: c.I.call(Ext("numpy.array"), [c.list([S(x) for x in v])], {}))
        r = c.call(c.get(MU, "get_intersect"), *[mk(v) for v in p])
        z = (p[1][0] - p[0][0]) * (p[3][1] - p[2][1]) - (p[1][1] - p[0][1]) * (p[3][0] - p[2][0])
        facts = [(c_eq(z, const(0)), False)]
        x, y = [alg.restrict(c.I.sc(c.I.getitem(r, S(k))), facts) for k in (0, 1)]
        for nm, u, v in (("first", p[0], p[1]), ("second", p[2], p[3])):
            # (v - u) x (point - u) = 0, multiplied by the determinant of the two directions
            c.eq("on the %s line" % nm, ((v[0] - u[0]) * (y * z - u[1] * z) - (v[1] - u[1]) * (x * z - u[0] * z)), const(0), facts,
                 vocab=["$inf"] + ["$p%d%s" % (k, d) for k in range(4) for d in "xy"])
    return f


def parallel(c):
    p = [(0, 0), (1, 2), (3, 1), (5, 5)]
    r = c.call(c.get(MU, "get_intersect"), *[c.list([S(const(x)) for x in v]) for v in p])
    for k in (0, 1):
        c.eq("coordinate %d infinite" % k, c.I.sc(c.I.getitem(r, S(const(k)))), sym("inf"))


def data_line(lo, hi, bins):
    def f(c):
        N = sym("N")
        d = c.arr("y", N)
        kw = {}
        a = c.I.sc(c.I.call(Ext("numpy.min"), [d], {}))
        b = c.I.sc(c.I.call(Ext("numpy.max"), [d], {}))
        if lo:
            kw["x_start"], a = S(sym("xa")), sym("xa")
        if hi:
            kw["x_end"], b = S(sym("xb")), sym("xb")
        n = const(10)
        if bins:
            kw["bins"], n = S(sym("M")), sym("M")
        r = c.call(c.get(MU, "data_driven_line"), d, **kw)
        c.tens("nodes", r, [n + 1], lambda k: a + (b - a) * topoly(k) / n, vocab=("amin", "amax"))
        c.no_mutation("data untouched")
    return f


def centroid_line(bins):
    def f(c):
        N = sym("N")
        d = c.arr("y", N, 1)
        n = const(100) if bins is None else sym("M")
        r = c.call(c.get(MU, "centroid_driven_line"), d, **({} if bins is None else {"bins": S(n)}))
        I = c.I
        km = I.call(I.getattr(I.call(Ext("sklearn.cluster.KMeans"), [S(n)], {}), "fit"), [d], {})
        ref = I.call(Ext("numpy.sort"), [I.call(Ext("numpy.ravel"), [I.getattr(km, "cluster_centers_")], {})], {})
        ref = I.d(ref)
        t = c.shape("nodes", c.T(r), n + 2)
        if t is None:
            return
        c.eq("first node", c.at(t, 0), I.sc(I.call(Ext("numpy.min"), [d], {})))
        c.eq("last node", c.at(t, n + 1), I.sc(I.call(Ext("numpy.max"), [d], {})))
        j = Ax(n)
        c.eq("inner nodes", c.at(t, j.p() + 1), subst(ref.body, {ref.axes[0].v: j.p()}))
        c.no_mutation("data untouched")
    return f


def mesh(nb, dim):
    def f(c):
        N, n = sym("N"), sym("M")
        d, b = c.arr("y", N, dim), c.arr("bd", nb, dim)
        r = c.call(c.get(MU, "centroid_driven_mesh"), d, bins=S(n), boundary_vertices=b)
        I = c.I
        km = I.call(I.getattr(I.call(Ext("sklearn.cluster.KMeans"), [S(n)], {}), "fit"), [d], {})
        ce = I.d(I.getattr(km, "cluster_centers_"))
        want = I.call(Ext("numpy.concatenate"), [Tup([b, ce])], {})
        if not isinstance(r, Tup) or len(r.items) != 2:
            return c.und("result", "not a pair")
        w = I.d(want)
        c.tens("vertices", r.items[0], [nb + n, dim], lambda i, k: subst(w.body, {w.axes[0].v: topoly(i), w.axes[1].v: topoly(k)}))
        s = I.d(I.getattr(I.call(Ext("scipy.spatial.Delaunay"), [want], {}), "simplices"))
        c.tens("elements", r.items[1], [s.axes[0].ext, dim + 1], lambda i, k: subst(s.body, {s.axes[0].v: topoly(i), s.axes[1].v: topoly(k)}))
        c.no_mutation("data and boundary untouched")
    return f


def obligations(tier):
    out = [("uniform line", uniform(None)), ("uniform line of 3", uniform(3))]
    for n in (1, 2, 3, 4):
        out.append(("geometric line of %d" % n, geometric(n, None)))
    out += [("geometric line, ratio 1", geometric(3, 1)), ("geometric line, ratio 2", geometric(3, 2))]
    for k in ("list", "array"):
        out.append(("intersection of lines given as " + k, intersect(k)))
    out.append(("intersection of parallel lines", parallel))
    for lo in (False, True):
        for hi in (False, True):
            out.append(("line from data%s%s" % (", given start" if lo else "", ", given end" if hi else ""), data_line(lo, hi, lo)))
    out += [("line from centres", centroid_line(None)), ("line from given number of centres", centroid_line(True))]
    for dim in (2, 3):
        out.append(("mesh from centres in dimension %d" % dim, mesh(4, dim)))
    return out
