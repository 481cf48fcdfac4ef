"""C07 combined bases: products and concatenations."""
from lib import *
from rules.bases import *

RULE = ("tensor product: element (k,l) is b1_k(x0)*b2_l(x1) in row-major order with its exact gradient and hessian, each "
        "member fitted on its own coordinate; combiner: columns of the members one after the other, values and derivatives alike")

SRC = '''
class UB:
    def __init__(self, tag, ncols, const_removed):
        self.tag = tag
        self.ncols = ncols
        self.const_removed = const_removed
    def fit(self, describe_result):
        self.mean = describe_result.mean
        self.lo = describe_result.minmax[0]
        self.hi = describe_result.minmax[1]
        self.n_output_features_ = self.ncols * describe_result.mean.shape[0]
        self.dim_out_basis = 1
        return self
    def basis(self, X):
        return EVAL(self.tag, self.ncols, self.mean, self.lo, self.hi, X, 0, False)
    def deriv(self, X, deriv_order=1):
        return EVAL(self.tag, self.ncols, self.mean, self.lo, self.hi, X, deriv_order, self.const_removed)
    def hessian(self, X):
        return self.deriv(X, deriv_order=2)
'''


def key(tag, k, i, mean, lo, hi):
    return mk_ap("fitted", (sym(tag), const(k), mean, lo, hi))


def ev(I, args, kw):
    """columns k*dim+i = f_k(x_i), a different fitted function per k and coordinate"""
    tag, nc, mean, lo, hi, X, order, drop = args
    nc = int(I.num(nc).body.const())
    order = int(I.num(order).body.const())
    drop = I.num(drop).body.s == TRUE.s
    X = I.d(I.num(X))
    mean, lo, hi = (I.d(I.num(v)) for v in (mean, lo, hi))
    dim = int(X.axes[1].ext.const())
    n0 = Ax(X.axes[0].ext)
    ax = Ax(dim * (nc - (1 if drop else 0)))
    ders = [Ax(dim) for _ in range(order)]
    body = const(0)
    for k in range(1 if drop else 0, nc):
        for i in range(dim):
            at = lambda t: subst(t.body, {t.axes[0].v: const(i)})
            v = mk_ap("fapp", (key(tag.v, k, i, at(mean), at(lo), at(hi)), const(order), subst(X.body, {X.axes[0].v: n0.p(), X.axes[1].v: const(i)})))
            cnd = c_eq(ax.p(), const((k - (1 if drop else 0)) * dim + i))
            for q in ders:
                cnd = c_and(cnd, c_eq(q.p(), const(i)))
            body = mk_ite(cnd, v, body)
    return T([n0, ax] + ders, body)


def UBs(c):
    return c.I.spec(SRC, "UB", {"EVAL": Opq("EVAL", hook=("call", ev))})


def user(c, tag, nc, rc=False):
    return c.I.call(UBs(c), [K(tag), S(nc), bool_(rc)], {})


def fv(tag, k, i, n, order=0):
    """reference value of the fitted member"""
    return mk_ap("fapp", (key(tag, k, i, el("mean", const(i)), el("mn", const(i)), el("mx", const(i))), const(order), Xe(n, i)))


def first(c, t, dim):
    """the object is fitted on and evaluated for other data first"""
    c.meth(t, "fit", c.describe(dim, "0"))
    later(c, t, dim)


def later(c, t, dim, N="N0"):
    Z = c.arr("Z", sym(N), dim)
    for m in ("basis", "deriv", "hessian"):
        c.meth(t, m, Z)


def ob_tensor(n1, n2, one, rc, used=False):
    def f(c):
        N = sym("N")
        b1 = user(c, "f", n1, rc)
        if one:
            t = c.call(c.get(MD, "TensorialBasis2D"), b1)
        else:
            t = c.call(c.get(MD, "TensorialBasis2D"), b1, user(c, "g", n2, rc))
        m2 = n1 if one else n2
        tg2 = "f" if one else "g"
        if used:
            first(c, t, 2)
        r = c.meth(t, "fit", c.describe(2))
        c.eq("advertised size", c.T(c.I.getattr(t, "n_output_features_")).body, const(n1 * m2))
        if r is not None:
            c.eq("fit returns the fitted basis", c.T(c.I.getattr(r, "n_output_features_")).body, const(n1 * m2))
        X = c.arr("X", N, 2)
        n = Ax(N).p()
        for rep in ("", " again"):
            B = c.meth(t, "basis", X)
            G = c.meth(t, "deriv", X)
            H = c.meth(t, "hessian", X)
            H2 = c.meth(t, "deriv", X, deriv_order=S(2))
            if used:
                later(c, t, 2, "N")
            B, G, H, H2 = (c.T(v) for v in (B, G, H, H2))
            ok = [c.shape("values", B, N, n1 * m2), c.shape("gradient", G, N, n1 * m2, 2), c.shape("hessian", H, N, n1 * m2, 2, 2), c.shape("second derivative", H2, N, n1 * m2, 2, 2)]
            if any(x is None for x in ok):
                return
            for k in range(n1):
                for l in range(m2):
                    q = k * m2 + l
                    F = lambda o: fv("f", k, 0, n, o)
                    g_ = lambda o: fv(tg2, l, 1, n, o)
                    nm = "(%d,%d)%s" % (k, l, rep)
                    c.eq("value " + nm, c.at(B, n, q), F(0) * g_(0))
                    for i in range(2):
                        c.eq("gradient %s along %d" % (nm, i), c.at(G, n, q, i), F(1 if i == 0 else 0) * g_(1 if i == 1 else 0))
                        for j in range(2):
                            o0 = (i == 0) + (j == 0)
                            for what, h in (("hessian", H), ("second derivative", H2)):
                                c.eq("%s %s along %d,%d" % (what, nm, i, j), c.at(h, n, q, i, j), F(o0) * g_(2 - o0))
                    c.eq("index of " + nm, c.T(c.meth(t, "comb_indices", S(k), S(l))).body, const(q))
                    sp = c.meth(t, "split_index", S(q))
                    for z, w in ((0, k), (1, l)):
                        c.eq("split index %d of %s" % (z, nm), c.T(c.I.getitem(sp, S(z))).body, const(w))
        c.no_mutation("samples and description untouched")
    return f


def ob_dim(d):
    def f(c):
        t = c.call(c.get(MD, "TensorialBasis2D"), user(c, "f", 2))
        c.raises("dimension %d is rejected" % d, lambda: c.meth(t, "fit", c.describe(d)))
    return f


def ob_comb(members, dim, rc, used=False):
    """members: list of column counts; the member number rc (or none) has its constant removed"""
    def f(c):
        N = sym("N")
        us = [user(c, "f%d" % q, m, rc == q) for q, m in enumerate(members)]
        t = c.call(c.get(BF, "FeaturesCombiner"), *us)
        cr = c.T(c.I.getattr(t, "const_removed")).body
        c.eq("constant removed flag", mk_ite(cr, const(1), const(0)) if isinstance(cr, Cond) else cr, const(1 if rc is not None else 0))
        if used:
            first(c, t, dim)
        c.meth(t, "fit", c.describe(dim))
        tot = sum(members) * dim
        c.eq("advertised size", c.T(c.I.getattr(t, "n_output_features_")).body, const(tot))
        X = c.arr("X", N, dim)
        n = Ax(N).p()
        for rep in ("", " again"):
            B = c.meth(t, "basis", X)
            G = c.meth(t, "deriv", X)
            H = c.meth(t, "hessian", X)
            if used:
                later(c, t, dim, "N")
            B, G, H = (c.T(v) for v in (B, G, H))
            kept = tot - (dim if rc is not None else 0)
            ok = [c.shape("values", B, N, tot), c.shape("gradient", G, N, kept, dim), c.shape("hessian", H, N, kept, dim, dim)]
            if any(x is None for x in ok):
                return
            pb = pg = 0
            for q, m in enumerate(members):
                for k in range(m):
                    for i in range(dim):
                        nm = "member %d element %d coordinate %d%s" % (q, k, i, rep)
                        c.eq("value of " + nm, c.at(B, n, pb), fv("f%d" % q, k, i, n))
                        pb += 1
                        if k == 0 and rc == q:
                            continue
                        for a in range(dim):
                            c.eq("gradient of %s along %d" % (nm, a), c.at(G, n, pg, a), fv("f%d" % q, k, i, n, 1) if a == i else const(0))
                            for b in range(dim):
                                c.eq("hessian of %s along %d,%d" % (nm, a, b), c.at(H, n, pg, a, b), fv("f%d" % q, k, i, n, 2) if a == i == b else const(0))
                        pg += 1
        c.no_mutation("samples and description untouched")
    return f


def ob_libtensor(g1, g2):
    """with library members: product structure through the library's own columns"""
    def f(c):
        N = sym("N")
        a, b = g1.build(c), g2.build(c)
        t = c.call(c.get(MD, "TensorialBasis2D"), a, b)
        c.meth(t, "fit", c.describe(2))
        X = c.arr("X", N, 2)
        n = Ax(N).p()
        B = c.T(c.meth(t, "basis", X))
        G = c.T(c.meth(t, "deriv", X))
        H = c.T(c.meth(t, "hessian", X))
        M_ = g1.ncols * g2.ncols
        ok = [c.shape("values", B, N, M_), c.shape("gradient", G, N, M_, 2), c.shape("hessian", H, N, M_, 2, 2)]
        if any(x is None for x in ok):
            return
        xa = [as_atom(Xe(n, i)) for i in range(2)]
        for q in range(M_):
            v = c.at(B, n, q)
            for i in range(2):
                dv = diff(v, xa[i])
                c.eq("gradient of element %d along %d" % (q, i), c.at(G, n, q, i), dv)
                for j in range(2):
                    c.eq("hessian of element %d along %d,%d" % (q, i, j), c.at(H, n, q, i, j), diff(dv, xa[j]))
    return f


def obligations(tier):
    r = []
    for n1, n2 in ((2, 3), (3, 2), (1, 2)):
        r.append(("tensor product %dx%d" % (n1, n2), ob_tensor(n1, n2, False, False)))
    r.append(("tensor product 2x3, constants declared removed", ob_tensor(2, 3, False, True)))
    r.append(("tensor product of one basis", ob_tensor(2, 2, True, False)))
    r.append(("tensor product of one basis, constant declared removed", ob_tensor(3, 3, True, True)))
    r.append(("tensor product 2x3 used before", ob_tensor(2, 3, False, False, True)))
    r.append(("tensor product of one basis used before", ob_tensor(2, 2, True, True, True)))
    r.append(("combined (2, 3) dim=2 used before", ob_comb((2, 3), 2, 0, True)))
    r.append(("combined (3, 1, 2) dim=1 used before", ob_comb((3, 1, 2), 1, None, True)))
    for d in (1, 3):
        r.append(("tensor product in dimension %d" % d, ob_dim(d)))
    for dim in (1, 2):
        for mem in ((2,), (2, 3), (3, 1, 2), (1, 2, 1, 3)):
            if dim == 2 and len(mem) > 3:
                continue
            for rc in (None,) + tuple(range(len(mem))):
                if rc is not None and mem[rc] == 1:
                    continue
                r.append(("combined %s dim=%d const removed=%s" % (mem, dim, rc), ob_comb(mem, dim, rc)))
    r.append(("polynomial x Fourier", ob_libtensor(poly(1, 2, True), fourier(1, 1, True))))
    r.append(("B-spline x linear", ob_libtensor(bspline(4, 3, True), linear(1, True))))
    return r
