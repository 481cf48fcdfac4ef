"""C27 finite element features."""
from lib import *
import alg
from alg import feasible, restrict

FE = "basis._fem_features"
RULE = ("every point is placed in an element that contains it, the value (gradient) of each of the element's functions at the point's local "
        "coordinates is stored at the function's global number (and component), all other entries are zero, and the caller's points are not modified")

MESH = '''
class Mesh:
    def __init__(self, p, t):
        self.p, self.t = p, t
        self.mapping = Mapping()
    def dim(self):
        return self.p.shape[0]
    def _mapping(self):
        return self.mapping
    @property
    def nelements(self):
        return self.t.shape[1]
class Mapping:
    def F(self, X, tind=None):
        return FWD(X, tind)
    def invF(self, x, tind=None):
        return INV(x, tind)
class Elem:
    def gbasis(self, mapping, X, i, tind=None):
        return GB(X, i, tind)
class Basis:
    def __init__(self, mesh, dofs, N, nb):
        self.mesh, self.mapping, self.elem = mesh, mesh.mapping, Elem()
        self.element_dofs, self.N, self.Nbfun = dofs, N, nb
def make(p, t, dofs, N, nb):
    return Basis(Mesh(p, t), dofs, N, nb)
'''


def lam1(t, d, *idx):
    """component vector of a coordinate array at the other indices"""
    i = fresh_iv()
    return mk_lam([i], [t.axes[0].ext], subst(t.body, {t.axes[0].v: iv(i), **{a.v: topoly(x) for a, x in zip(t.axes[1:], idx)}}))


def inv(xl, q, d):
    return mk_ap("invF", (xl, topoly(q)), (topoly(d),))


class Fem:
    """the finite element library's objects, with unknown element functions"""

    def __init__(self, c, p, t, dofs, N, nb, nel):
        self.c, I = c, c.I
        alg.INPUTS.update(("invF", "phi", "dphi", "mapF", "kdnear"))

        def cellof(tind):
            if tind is None or isinstance(tind, K):
                return None
            t = I.d(I.num(tind))
            return t

        def fwd(I, a, k):
            x = I.d(I.num(a[0]))
            ax = [Ax(x.axes[0].ext), Ax(nel), Ax(x.axes[-1].ext)]
            return T(ax, mk_ap("mapF", (lam1(x, 0, ax[2].p()), ax[1].p()), (ax[0].p(),)))

        def invf(I, a, k):
            x = I.d(I.num(a[0]))
            tv = cellof(a[1])
            if len(x.axes) != 3 or tv is None or len(tv.axes) != 1:
                return Unk("invF of unusual arguments")
            n, m = tv.axes[0].ext, x.axes[1].ext
            if m != n and m.const() != 1:
                raise M.raises(I, "ValueError: points and elements differ in number")
            ax = [Ax(x.axes[0].ext), Ax(n), Ax(x.axes[2].ext)]
            pos = const(0) if m.const() == 1 else ax[1].p()
            return T(ax, inv(lam1(x, 0, pos, ax[2].p()), subst(pbody_(tv), {tv.axes[0].v: ax[1].p()}), ax[0].p()))

        def gb(I, a, k):
            x, kk = I.d(I.num(a[0])), I.sc(a[1])
            if len(x.axes) != 3:
                return Unk("gbasis of unusual points")
            A, B, D = Ax(x.axes[1].ext), Ax(x.axes[2].ext), Ax(x.axes[0].ext)
            tv = cellof(a[2])
            cell = A.p() if tv is None else subst(pbody_(tv), {tv.axes[0].v: A.p()})
            l = lam1(x, 0, A.p(), B.p())
            v = T([A, B], mk_ap("phi", (l, cell), (kk,)))
            A2, B2 = Ax(A.ext), Ax(B.ext)
            g = T([D, A2, B2], mk_ap("dphi", (lam1(x, 0, A2.p(), B2.p()), subst(cell, {A.v: A2.p()})), (kk, D.p())))
            shp = Tup([S(A.ext), S(B.ext)])
            return Tup([Opq("field", attrs={"grad": g, "value": v, "shape": shp, "ndim": S(2)}, hook=("num", v))])
        env = {n: Opq(n, hook=("call", f)) for n, f in (("FWD", fwd), ("INV", invf), ("GB", gb))}
        self.basis = I.call(I.spec(MESH, "make", env), [p, t, dofs, S(N), S(nb)], {})
        self.mesh = I.getattr(self.basis, "mesh")


def pbody_(t):
    return t.body


def arr2(c, rows):
    return c.I.call(Ext("numpy.array"), [c.list([c.list([S(const(x)) for x in r]) for r in rows])], {})


def features(c, fem, fitted=True):
    f = c.I.instantiate(c.get(FE, "FEMScalarFeatures"), [fem.basis], {})
    c.meth(f, "fit", K(None) if False else NONE)
    return f


LINES = {
    "sorted": ([0, 1, 3], [[0, 1], [1, 2]]),
    "refined": ([0, 2, 4, 1, 3], [[0, 3, 1, 4], [3, 1, 4, 2]]),
    "reordered": ([4, 0, 1], [[2, 1], [0, 2]]),
    "single element": ([-1, 2], [[0], [1]]),
}


def scatter_ref(c, dofs, nb, cells, x, comp=None):
    """entry (n, j): functions of the point's cells, selected by the conditions of `cells`"""
    def f(n, j):
        r = const(0)
        xl = x(n)
        for cond, e in cells(n):
            v = const(0)
            for k in range(nb):
                l = fresh_iv()
                dim = comp[1] if comp else None
                pl = local(c, xl, e)
                val = mk_ap("phi", (pl, topoly(e)), (const(k),)) if comp is None else mk_ap("dphi", (pl, topoly(e)), (const(k), const(comp[0])))
                v = v + mk_ite(c_eq(dofs(k, e), topoly(j)), val, const(0))
            r = mk_ite(cond, v, r)
        return r
    return f


def local(c, xl, e):
    i = fresh_iv()
    (_, (ext,)) = ((None,), (xl.exts if hasattr(xl, "exts") else (None,)))
    return mk_lam([i], [c._dim], inv(xl, e, iv(i)))


def xlam(c, dim, n):
    i = fresh_iv()
    return mk_lam([i], [const(dim)], el("X", topoly(n), iv(i)))


def line(name, what, ns, nb):
    def f(c):
        p, t = LINES[name]
        ne = len(t[0])
        c._dim = const(1)
        N = sym("Nd")
        Bounds.pos.add("Nd")
        fem = Fem(c, arr2(c, [p]), arr2(c, t), c.arr("dofs", nb, ne), N, nb, ne)
        ft = features(c, fem)
        lo, hi = min(p), max(p)
        xs = [el("X", const(n), const(0)) for n in range(ns)]
        facts = [(c_le(const(lo), x), True) for x in xs] + [(c_le(x, const(hi)), True) for x in xs]
        # the last point is moved by 1e-10 to find its element
        facts += [(c_or(c_eq(x, const(hi)), c_le(x, const(hi) - const(1) / 10 ** 10)), True) for x in xs]
        left = [(min(p[t[0][e]], p[t[1][e]]), max(p[t[0][e]], p[t[1][e]]), e) for e in range(ne)]

        def cells(n):
            return [(c_and(c_le(const(a), xs[n]), c_or(c_lt(xs[n], const(b)), c_eq(xs[n], const(hi))) if b == hi else c_lt(xs[n], const(b))), e) for a, b, e in left]
        X = c.arr("X", ns, 1)
        dofs = lambda k, e: el("dofs", const(k), topoly(e))
        for rep in ("", " again"):
            if what == "basis":
                r = c.T(c.meth(ft, "basis", X))
                r = c.shape("values" + rep, r, ns, N)
                if r is None:
                    continue
                j = sym("j")
                ref = scatter_ref(c, dofs, nb, cells, lambda n: xlam(c, 1, n))
                for n in range(ns):
                    c.eq("value of point %d%s" % (n, rep), c.at(r, n, j), ref(n, j), facts)
            else:
                r = c.T(c.meth(ft, "deriv", X))
                r = c.shape("gradients" + rep, r, ns, N, 1)
                if r is None:
                    continue
                j = sym("j")
                ref = scatter_ref(c, dofs, nb, cells, lambda n: xlam(c, 1, n), (0, 1))
                for n in range(ns):
                    c.eq("gradient at point %d%s" % (n, rep), c.at(r, n, j, 0), ref(n, j), facts)
        c.no_mutation("points untouched")
    return f


def scatter(dim, ns, nb, ne):
    """any dimension, given the elements of the points"""
    def f(c):
        c._dim = const(dim)
        N = sym("Nd")
        Bounds.pos.add("Nd")
        nv = sym("Nv")
        Bounds.pos.add("Nv")
        fem = Fem(c, c.arr("p", dim, nv), c.arr("tri", dim + 1, ne), c.arr("dofs", nb, ne), N, nb, ne)
        ft = features(c, fem)
        (lambda v: c.eq("number of features", c.I.sc(v), N))(c.I.getattr(ft, "n_output_features_"))
        c.eq("one output dimension", c.I.sc(c.I.getattr(ft, "dim_out_basis")), const(1))

        def find(I, a, k):
            x = I.d(I.num(a[0]))
            n = Ax(x.axes[0].ext)
            return T([n], el("cell", n.p()))
        fn = c.I.getattr(ft, "element_finder_from_basis")
        c.I.setattr(fn, "find", Opq("find", hook=("call", find)))
        X = c.arr("X", ns, dim)
        dofs = lambda k, e: el("dofs", const(k), topoly(e))
        cells = lambda n: [(TRUE, el("cell", const(n)))]
        j = sym("j")
        for rep in ("", " again"):
            r = c.shape("values" + rep, c.T(c.meth(ft, "basis", X)), ns, N)
            if r is not None:
                ref = scatter_ref(c, dofs, nb, cells, lambda n: xlam(c, dim, n))
                for n in range(ns):
                    c.eq("value of point %d%s" % (n, rep), c.at(r, n, j), ref(n, j))
            r = c.shape("gradients" + rep, c.T(c.meth(ft, "deriv", X)), ns, N, dim)
            if r is not None:
                for d in range(dim):
                    ref = scatter_ref(c, dofs, nb, cells, lambda n: xlam(c, dim, n), (d, dim))
                    for n in range(ns):
                        c.eq("component %d of the gradient at point %d%s" % (d, n, rep), c.at(r, n, j, d), ref(n, j))
        c.no_mutation("points untouched")
    return f


def split(p, facts, depth=0):
    """the ite-free values of an expression with their path facts"""
    p = restrict(p, facts)
    its = [a for a in walk(p) if isinstance(a, Atom) and a.kind == "ite"]
    if not its or depth > 24:
        return [(p, facts)]
    inner = [a for a in its if not any(isinstance(b, Atom) and b.kind == "ite" for b in walk(a.args[0]))]
    c = (inner or its)[0].args[0]
    while c.op in ("and", "or", "not"):
        c = c.args[0]
    out = []
    for v in (True, False):
        nf = facts + [(c, v)]
        if feasible(nf):
            out += split(p, nf, depth + 1)
    return out


def possible(facts):
    """are the conditions satisfiable (case distinction over the compound ones)"""
    for k, (c, v) in enumerate(facts):
        rest = facts[:k] + facts[k + 1:]
        if c.op == "not":
            return possible(rest + [(c.args[0], not v)])
        if c.op in ("and", "or"):
            if (c.op == "and") == v:
                return possible(rest + [(a, v) for a in c.args])
            return any(possible(rest + [(a, v)]) for a in c.args)
    return feasible(facts)


def finder(dim, ne, given):
    def f(c):
        c._dim = const(dim)
        nv = sym("Nv")
        Bounds.pos.add("Nv")
        Bounds.nonneg.add("eps")
        sym("eps")
        tri = [[(e + k) % (dim + 2) for e in range(ne)] for k in range(dim + 1)]
        fem = Fem(c, c.arr("p", dim, nv), arr2(c, tri), c.arr("dofs", 1, ne), sym("Nd"), 1, ne)
        kw = {"mapping": c.I.getattr(fem.mesh, "mapping")} if given else {}
        fd = c.I.instantiate(c.get(FE, "ElementFinder"), [fem.mesh], kw)
        ns = 1
        r = c.shape("elements", c.T(c.meth(fd, "find", c.arr("X", ns, dim))), ns)
        if r is None:
            return
        eps = alg.sym("eps")
        for n in range(ns):
            xl = xlam(c, dim, n)
            leaves = split(c.at(r, n), [])
            for k, (q, facts) in enumerate(leaves):
                co = [inv(xl, q, d) for d in range(dim)] + [const(1) - sum((inv(xl, q, d) for d in range(dim)), const(0))]
                if any(r[0] == "violated" for r in c.recs):
                    return
                if ne == 1 and q.const() == 0:
                    continue
                if alg_unk(q):
                    c.und("element of point %d, case %d" % (n, k), q)
                    continue
                ok = all(not possible(facts + [(c_lt(b, -eps), True)]) for b in co)
                if not ok:
                    # no element may contain the point
                    ok = all(not possible(facts + [(c_le(const(0), b), True) for b in
                             [inv(xl, const(e), d) for d in range(dim)] + [const(1) - sum((inv(xl, const(e), d) for d in range(dim)), const(0))]]) for e in range(ne))
                if not ok:
                    c.bad("element of point %d, case %d" % (n, k), "element %s is taken without containing the point although another may" % q)
            c.ok("element of point %d contains it" % n)
        c.no_mutation("points untouched")
    return f


def alg_unk(p):
    return bool(getattr(p, "unk", None))


def obligations(tier):
    out = []
    for nm in LINES:
        for what in ("basis", "deriv"):
            out.append(("%s, %s line" % (what, nm), line(nm, what, 2 if nm == "sorted" else 1, 2)))
    for dim, ns, nb, ne in ((1, 2, 2, 3), (2, 2, 3, 4), (3, 2, 2, 3), (2, 1, 1, 1)):
        out.append(("%d points in dimension %d, %d functions per element" % (ns, dim, nb), scatter(dim, ns, nb, ne)))
    for dim in (2, 3):
        for ne in (1, 2) + ((3,) if dim == 2 or tier == "thorough" else ()):
            for given in (True, False):
                out.append(("element of a point among %d, dimension %d%s" % (ne, dim, "" if given else ", default mapping"), finder(dim, ne, given)))
    return out


AGED = REUSED = 6
