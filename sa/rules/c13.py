"""C13 Volterra inversion: the kernel solves the discretised equation."""
from lib import *
from rules.fref import *

RULE = ("every point of the kernel returned by an inversion routine is the unique solution of the quadrature form of the Volterra "
        "equation given the earlier points (induction over time)")


def steps():
    """symbolic times: the first point, and a generic one"""
    return 0


def setup(c, name, db, dx, Lt=None):
    Bounds.pos.add("Lt")
    L = sym("Lt") if Lt is None else const(Lt)
    env = dict(lentraj=L, dim_basis=db, dim_x=dx, dt=sym("dt"))
    facts = [(c_le(const(3), L), True)] if Lt is None else []
    r = Routine(c, name, env, facts)
    return r, L


def gen(c, lo, hi, facts):
    """generic index lo <= m < hi (as 0-based bound variable)"""
    v = fresh_iv()
    Bounds.iv[v] = (const(0), topoly(hi) - topoly(lo))
    return iv(v) + topoly(lo)


B = lambda i, k, t: el("b", const(i), const(k), t)
D = lambda i, x, t: el("dxb", const(i), const(x), t)
A = lambda t, k, x: el("A!", t, const(k), const(x))
BD = lambda i, k, t: el("bdot", const(i), const(k), t)
DD = lambda i, x, t: el("dxbdot", const(i), const(x), t)
B0 = lambda i, k: el("b0", const(i), const(k))
K0 = lambda k, x: el("k0", const(k), const(x))


def check(c, r, label, m, ref, db, dx, facts=()):
    for k in range(db):
        for x in range(dx):
            w = ref(k, x)
            v = r.value((m, k, x))
            if alg.compare(v, w, tuple(r.facts + list(facts))).status != alg.EQ:
                v = r.value((m, k, x), strict=True)
            c.eq("%s[%d,%d]" % (label, k, x), v, w, r.facts + list(facts))


def first(kind, db, dx):
    def f(c):
        name = "kernel_first_kind_" + kind
        r, L = setup(c, name, db, dx)
        dt = sym("dt")
        R = range(db)
        if kind == "rect":
            inv = inv_ref(c, db, lambda i, j: dt * B(i, j, const(1)))
            last, s0 = L, 0

            def ref(m, k, x):
                return -sum((inv[k][i] * (D(i, x, m + 1) + sum((dt * sum_(0, m, lambda j: B(i, q, m + 1 - j) * A(j, q, x)) for q in R), const(0))) for i in R), const(0))
        elif kind == "midpoint":
            inv = inv_ref(c, db, lambda i, j: 2 * dt * B(i, j, const(1)))
            last, s0 = mk_ap("floordiv", (L - 1, const(2))) + 1, 0

            def ref(m, k, x):
                return -sum((inv[k][i] * (D(i, x, 2 * m + 1) + sum((2 * dt * sum_(0, m, lambda j: B(i, q, 2 * (m - j) + 1) * A(j, q, x)) for q in R), const(0))) for i in R), const(0))
        elif kind == "trapz":
            inv = inv_ref(c, db, lambda i, j: dt * B(i, j, const(0)) / 2)
            last, s0 = L + 1, 1

            def ref(m, k, x):
                return -sum((inv[k][i] * (D(i, x, m) + sum((dt / 2 * B(i, q, m) * A(const(0), q, x) + dt * sum_(1, m, lambda j: B(i, q, m - j) * A(j, q, x)) for q in R), const(0))) for i in R), const(0))
        c.eq("number of points", c.T(r.out["kernel"]).axes[0].ext, {"rect": L + 1, "midpoint": last, "trapz": L + 1}[kind])
        if s0:
            check(c, r, "initial value", const(0), lambda k, x: K0(k, x), db, dx)
        m0 = const(s0)
        check(c, r, "first solved point", m0, lambda k, x: known0(ref(m0, k, x), s0), db, dx)
        m = gen(c, s0 + 1, last, r.facts)
        check(c, r, "every later point", m, lambda k, x: ref(m, k, x), db, dx)
        if kind == "rect":
            pass
    return f


def known0(p, s0):
    return p


def second(kind, db, dx):
    def f(c):
        r, L = setup(c, "kernel_second_kind_" + kind, db, dx)
        dt = sym("dt")
        R = range(db)
        w = {"rect": const(1), "trapz": const(1) / 2}[kind]
        inv = inv_ref(c, db, lambda i, j: B0(i, j) - (dt / 2 * BD(i, j, const(0)) if kind == "trapz" else const(0)))
        c.eq("number of points", c.T(r.out["kernel"]).axes[0].ext, L + 1)
        check(c, r, "initial value", const(0), lambda k, x: K0(k, x), db, dx)

        def ref(m, k, x):
            return sum((inv[k][i] * (DD(i, x, m) + sum((w * dt * BD(i, q, m) * A(const(0), q, x) + dt * sum_(1, m, lambda j: BD(i, q, m - j) * A(j, q, x)) for q in R), const(0))) for i in R), const(0))
        m = gen(c, 1, L + 1, r.facts)
        check(c, r, "every later point", m, lambda k, x: ref(m, k, x), db, dx)
    return f


def simpson_w(n):
    """weights (in units of dt) of points j = 0..n of the composite rule: trapezoid on the first interval when n is odd"""
    w = [const(0)] * (n + 1)
    s = 0
    if n % 2:
        w[0] += const(1) / 2
        w[1] += const(1) / 2
        s = 1
    for j in range(s, n, 2):
        w[j] += const(1) / 3
        w[j + 1] += const(4) / 3
        w[j + 2] += const(1) / 3
    return w


WEIGHTS = {
    "rect": lambda n: [const(1)] * n + [const(0)],
    "trapz": lambda n: [const(1) / 2] + [const(1)] * (n - 1) + [const(1) / 2],
    "simpson": simpson_w,
}


def small(kind, order, db, dx, N):
    """the same for a small number of points, unrolled (independent of the loop structure)"""
    def f(c):
        r, L = setup(c, "kernel_%s_kind_%s" % (order, kind), db, dx, N)
        dt = sym("dt")
        R = range(db)
        t = r.out["kernel"]
        val = lambda m, k, x: c.at(t, m, k, x)
        cache = {}

        def inverse(mat):
            key = tuple(tuple(e.s for e in row) for row in mat)
            if key not in cache:
                cache[key] = inv_ref(c, db, lambda i, j: mat[i][j])
            return cache[key]
        if order == "first" and kind == "rect":
            for m in range(N):
                iv_ = inverse([[dt * B(i, j, const(1)) for j in R] for i in R])
                for k in R:
                    for x in range(dx):
                        w = -sum((iv_[k][i] * (D(i, x, const(m + 1)) + sum((dt * B(i, q, const(m + 1 - j)) * val(j, q, x) for j in range(m) for q in R), const(0))) for i in R), const(0))
                        c.eq("point %d [%d,%d]" % (m, k, x), val(m, k, x), w)
            return
        if order == "first" and kind == "midpoint":
            for m in range((N - 1) // 2 + 1):
                iv_ = inverse([[2 * dt * B(i, j, const(1)) for j in R] for i in R])
                for k in R:
                    for x in range(dx):
                        w = -sum((iv_[k][i] * (D(i, x, const(2 * m + 1)) + sum((2 * dt * B(i, q, const(2 * (m - j) + 1)) * val(j, q, x) for j in range(m) for q in R), const(0))) for i in R), const(0))
                        c.eq("point %d [%d,%d]" % (m, k, x), val(m, k, x), w)
            return
        for k in R:
            for x in range(dx):
                c.eq("initial value[%d,%d]" % (k, x), val(0, k, x), K0(k, x))
        for m in range(1, N + 1):
            W = WEIGHTS[kind](m)
            if order == "first":
                mat = [[W[m] * dt * B(i, j, const(0)) for j in R] for i in R]
                rhs = lambda i, x: -(D(i, x, const(m)) + sum((W[j] * dt * B(i, q, const(m - j)) * val(j, q, x) for j in range(m) for q in R), const(0)))
            else:
                mat = [[B0(i, j) - W[m] * dt * BD(i, j, const(0)) for j in R] for i in R]
                rhs = lambda i, x: DD(i, x, const(m)) + sum((W[j] * dt * BD(i, q, const(m - j)) * val(j, q, x) for j in range(m) for q in R), const(0))
            iv_ = inverse(mat)
            for k in R:
                for x in range(dx):
                    c.eq("point %d [%d,%d]" % (m, k, x), val(m, k, x), sum((iv_[k][i] * rhs(i, x) for i in R), const(0)))
    return f


def obligations(tier):
    r = []
    sizes = [(1, 1), (2, 1), (2, 2)] + ([(3, 1)] if tier == "thorough" else [])
    for db, dx in sizes:
        s = " %d functions %d outputs" % (db, dx)
        for k in ("rect", "midpoint", "trapz"):
            r.append(("first kind %s%s" % (k, s), first(k, db, dx)))
        for k in ("rect", "trapz"):
            r.append(("second kind %s%s" % (k, s), second(k, db, dx)))
    for N in ((1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8)):
        for db, dx in ((1, 1), (2, 1)):
            s = " unrolled to %d points, %d functions" % (N, db)
            if db == 2 and N > 3 and tier == "quick":
                continue
            for k in ("rect", "midpoint", "trapz", "simpson"):
                if N == 1 and k == "simpson":
                    continue
                r.append(("first kind %s%s" % (k, s), small(k, "first", db, dx, N)))
            for k in ("rect", "trapz", "simpson"):
                if N == 1 and k == "simpson":
                    continue
                r.append(("second kind %s%s" % (k, s), small(k, "second", db, dx, N)))
    return r
