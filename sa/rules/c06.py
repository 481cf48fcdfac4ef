"""C06 smooth indicators: a partition of unity with the documented edges, and exact derivatives."""
from lib import *
from rules.bases import *

RULE = ("each indicator column equals, on every interval between the boundaries, the documented plateau or edge "
        "function; columns sum to one; derivatives equal the derivative of the edge function inside an edge and zero outside")


def states(n, tag=""):
    """n disjoint increasing edges [a, a+w] separated by gaps"""
    r = []
    for k in range(n):
        Bounds.pos.add("w%d" % k)
        a, w = sym("a%d" % k), sym("w%d" % k)
        r.append((a, a + w, w))
    return r


def order(st):
    """the edges are disjoint and increasing"""
    return [(c_lt(p[1], q[0]), True) for p, q in zip(st, st[1:])]


def edge(kind, u, der):
    if kind == "tricube":
        f = (1 - u * u * u).pow(3)
    elif kind == "triweight":
        f = (1 - u * u).pow(3)
    elif kind == "quartic":
        f = (1 - u * u).pow(2)
    return f


def dedge(kind, der):
    z = sym("z")
    f = edge(kind, z, 0)
    for _ in range(der):
        f = diff(f, as_atom(z))
    return lambda u: subst_atoms(f, {as_atom(z): u})


def ref(kind, st, per, j, x, der):
    """reference column j"""
    n = len(st)
    B = dedge(kind, der)
    u = [(x - a) / w for a, b, w in st]
    E = [B(u[k]) / st[k][2].pow(der) for k in range(n)]
    one = const(1) if der == 0 else const(0)
    up = [(1 - e) if der == 0 else -e for e in E]      # rising edge
    z = const(0)

    def rise(k, inner):        # 0 before edge k, rising inside, inner after
        a, b, w = st[k]
        return mk_ite(c_lt(x, a), z, mk_ite(c_lt(b, x), inner, up[k]))

    def fall(k):               # one before edge k, falling inside, 0 after
        a, b, w = st[k]
        return mk_ite(c_lt(x, a), one, mk_ite(c_lt(b, x), z, E[k]))
    if j == 0:
        f = fall(0)
        if per:
            a, b, w = st[n - 1]
            if n == 1:
                return mk_ite(c_lt(x, a), one, mk_ite(c_lt(b, x), one, up[0]))
            return mk_ite(c_lt(x, a), f, mk_ite(c_lt(b, x), one, up[n - 1]))
        return f
    if j == n:
        return rise(n - 1, one)
    return rise(j - 1, fall(j))


def build(c, kind, st, per, rev):
    items = []
    for k, (a, b, w) in enumerate(st):
        lo, hi = (S(a), S(b)) if not rev else (S(b), S(a))
        items.append(c.list([lo, hi]))
    return c.call(c.get(LF, "SmoothIndicatorFeatures"), c.list(items), boundary_type=K(kind), periodic=bool_(per))


def ob(kind, n, per, rev):
    def f(c):
        st = states(n)
        o = build(c, kind, st, per, rev)
        c.meth(o, "fit", c.describe(1))
        N = sym("N")
        X = c.arr("X", N, 1)
        nn = Ax(N).p()
        x = Xe(nn, 0)
        cols = n if per else n + 1
        c.eq("advertised size", c.T(c.I.getattr(o, "n_output_features_")).body, const(cols))
        B = c.T(c.meth(o, "basis", X))
        G = c.T(c.meth(o, "deriv", X))
        H = c.T(c.meth(o, "hessian", X))
        c.shape("values", B, N, cols)
        c.shape("gradient", G, N, cols, 1)
        c.shape("hessian", H, N, cols, 1, 1)
        if any(r[0] == "violated" for r in c.recs):
            return
        tot = const(0)
        for j in range(cols):
            b = c.at(B, nn, j)
            tot = tot + b
            if not (per and j == 0):
                c.eq("column %d" % j, b, ref(kind, st, per, j, x, 0), order(st))
                c.eq("gradient of column %d" % j, c.at(G, nn, j, 0), ref(kind, st, per, j, x, 1), order(st))
                c.eq("hessian of column %d" % j, c.at(H, nn, j, 0, 0), ref(kind, st, per, j, x, 2), order(st))
            else:
                per0(c, kind, st, j, x, b, c.at(G, nn, j, 0), c.at(H, nn, j, 0, 0))
        if not per:
            c.eq("partition of unity", tot, const(1), order(st))
        c.no_mutation("samples untouched")
    return f


def per0(c, kind, st, j, x, b, g, h):
    """first column of the periodic variant, region by region (strictly inside)"""
    n = len(st)
    a, bb, w = st[0]
    al, bl, wl = st[n - 1]
    regs = [("before the first edge", [(c_lt(x, a), True)])]
    regs.append(("after the last edge", [(c_lt(bl, x), True)]))
    if n > 1:
        regs.append(("inside the first edge", [(c_lt(a, x), True), (c_lt(x, bb), True)]))
        regs.append(("between first and last edge", [(c_lt(bb, x), True), (c_lt(x, al), True)]))
    for nm, fx in regs:
        for what, v, d in (("column 0", b, 0), ("gradient of column 0", g, 1), ("hessian of column 0", h, 2)):
            v = resolve_pos(v, kind, x)
            c.eq("%s %s" % (what, nm), v, ref(kind, st, True, 0, x, d), facts=order(st) + fx)


    if n > 1:   # rising edge: positive, with a derivative that is not zero but at isolated points
        ins = order(st) + [(c_lt(al, x), True), (c_lt(x, bl), True)]
        for what, v, d in (("column 0", b, 0), ("gradient of column 0", g, 1), ("hessian of column 0", h, 2)):
            r = ref(kind, st, True, 0, x, d)
            up = (x - al) / wl
            e = dedge(kind, d)(up) / wl.pow(d)
            e = 1 - e if d == 0 else -e
            c.eq("%s inside the last edge" % what, v, r, facts=ins + [(c_lt(const(0), e), True), (c_eq(e, const(0)), False)])
            if d == 2:
                c.eq("%s inside the last edge, bending down" % what, v, r, facts=ins + [(c_lt(e, const(0)), True), (c_lt(const(0), e), False), (c_eq(e, const(0)), False)])


def resolve_pos(v, kind, x):
    return v


def hook(I, args, kw):
    u = I.d(I.num(args[0]))
    return T(u.axes, mk_ap("fapp", (sym("edge"), I.d(I.num(args[1])).body, u.body)))


def ob_callable(der):
    """user supplied edge function receives the scaled coordinate and the derivative order"""
    def f(c):
        st = states(2)
        fn = c.I.spec("def edge(u, der=0):\n    return USER(u, der)\n", "edge", {"USER": Opq("edge", hook=("call", hook))})
        items = [c.list([S(a), S(b)]) for a, b, w in st]
        o = c.call(c.get(LF, "SmoothIndicatorFeatures"), c.list(items), boundary_type=fn)
        c.meth(o, "fit", c.describe(1))
        N = sym("N")
        X = c.arr("X", N, 1)
        nn = Ax(N).p()
        x = Xe(nn, 0)
        B = c.T(c.meth(o, "basis", X))
        G = c.T(c.meth(o, "deriv", X))
        a, b, w = st[0]
        u = (x - a) / w
        inside = [(c_lt(a, x), True), (c_lt(x, b), True)]
        c.eq("falling edge", c.at(B, nn, 0), mk_ap("fapp", (sym("edge"), const(0), u)), facts=order(st) + inside)
        c.eq("rising edge", c.at(B, nn, 1), 1 - mk_ap("fapp", (sym("edge"), const(0), u)), facts=order(st) + inside)
        c.eq("falling edge gradient", c.at(G, nn, 0, 0), mk_ap("fapp", (sym("edge"), const(1), u)) / w, facts=order(st) + inside)
    return f


def ob_dim2(c):
    st = states(2)
    o = build(c, "tricube", st, False, False)
    c.raises("more than one dimension is rejected", lambda: c.meth(o, "fit", c.describe(2)))


def ob_badkind(c):
    st = states(1)
    c.raises("unknown edge name is rejected", lambda: build(c, "nosuchedge", st, False, False))


def obligations(tier):
    r = []
    for kind in ("tricube", "triweight", "quartic"):
        for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4)):
            r.append(("%s edges=%d" % (kind, n), ob(kind, n, False, False)))
        r.append(("%s edges=2 given right to left" % kind, ob(kind, 2, False, True)))
        for n in (2, 3):
            r.append(("%s edges=%d periodic" % (kind, n), ob(kind, n, True, False)))
    r.append(("custom edge function", ob_callable(1)))
    r.append(("dimension 2", ob_dim2))
    r.append(("unknown edge", ob_badkind))
    return r
