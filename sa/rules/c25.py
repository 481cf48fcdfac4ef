"""C25 fitting of memory kernels by named functions, and evaluation of the fits."""
from fractions import Fraction
from lib import *
from models import ppow
from rules.bases import bool_

RULE = ("each named function type is fitted and evaluated with its own formula, kernels are fitted component by component and the result is "
        "stored and evaluated at the component's place, Prony series evaluate to the initial value times the (0,0) entry of exp(t A)")

FM, FP = "fit_memory", "fit_prony"


def E(c, p):
    return c.I.sc(c.I.call(Ext("numpy.exp"), [S(p)], {}))


def CH(c, p):
    return c.I.sc(c.I.call(Ext("numpy.cosh"), [S(p)], {}))


FORM = {
    "exp": (2, lambda c, t, p: p[0] * E(c, -p[1] * t)),
    "expnorm": (1, lambda c, t, p: E(c, -p[0] * t)),
    "doubleexpnorm": (3, lambda c, t, p: p[2] * E(c, -p[0] * t) + (const(1) - p[2]) * E(c, -p[1] * t)),
    "sech": (3, lambda c, t, p: p[0] * ppow(CH(c, p[1] * t), -p[2])),
    "sech_one": (2, lambda c, t, p: p[0] / CH(c, p[1] * t)),
    "sech_two": (2, lambda c, t, p: p[0] / (CH(c, p[1] * t) * CH(c, p[1] * t))),
    "gaussian": (2, lambda c, t, p: p[0] * E(c, -p[1] * t * t)),
}
ALIAS = {"exp": ("exp", "exponential"), "expnorm": ("expnorm", "exp_norm"), "doubleexpnorm": ("doubleexpnorm", "double_exp_norm"),
         "sech": ("sech",), "sech_one": ("sech_one",), "sech_two": ("sech_two",), "gaussian": ("gaussian",)}


def popt_ref(c, form, N, y, opts=(), t=None):
    """j-th parameter of the least squares fit of the formula to the series y(n) over the times"""
    n, f = FORM[form]
    a = Ax(N)
    tt = t or (lambda i: el("t", i))
    m = mk_lam([a.v], [a.ext], f(c, tt(a.p()), [sym("fitpar%d" % k) for k in range(n)]))
    b = Ax(N)
    d = mk_lam([b.v], [b.ext], y(b.p()))
    return lambda j: mk_ap("popt", (m, d) + tuple(opts), (const(j),))


def evaluate(form, name, own):
    def f(c):
        N = sym("N")
        n, g = FORM[form]
        ps = [sym("p%d" % k) for k in range(n)]
        t = c.arr("t", N)
        for cont in ("list", "array"):
            pv = c.list([S(p) for p in ps]) if cont == "list" else c.I.call(Ext("numpy.array"), [c.list([S(p) for p in ps])], {})
            r = c.call(c.get(FM, "memory_fit_eval"), t, pv, type=K(name)) if own else c.call(c.get(FM, "memory_fit_eval"), t, Tup([K(name), pv]))
            c.tens("value (%s of parameters)" % cont, r, [N], lambda i: g(c, el("t", i), ps))
        c.no_mutation("times untouched")
    return f


def fit(form, name, shape, opts):
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        n, g = FORM[form]
        t = c.arr("t", N)
        if shape == "column":
            t = c.I.call(Ext("numpy.reshape"), [t, Tup([S(N), S(1)])], {})
        if shape == "frame":
            t = c.da("t", ["time"], [N])
        d = c.arr("y", N)
        kw = dict(maxfev=S(sym("maxfev"))) if opts else {}
        r = c.call(c.get(FM, "memory_fit"), t, d, type=K(name), **kw)
        if not isinstance(r, Tup) or len(r.items) != 2:
            return c.und("result", "not a pair")
        if not isinstance(r.items[0], K):
            return c.und("type", "unknown")
        (c.ok if r.items[0].v == name else lambda l: c.bad(l, "returns %r" % r.items[0].v))("type")
        ref = popt_ref(c, form, N, lambda i: el("y", i), [mk_ap("opt:maxfev", (sym("maxfev"),))] if opts else ())
        if c.shape("parameters", r.items[1], n) is None:
            return
        for j in range(n):
            c.eq("parameter %d" % j, c.at(r.items[1], j), ref(j))
        v = c.call(c.get(FM, "memory_fit_eval"), c.arr("s", sym("M")), r)
        c.tens("evaluated fit", v, [sym("M")], lambda i: g(c, el("s", i), [ref(j) for j in range(n)]))
        c.no_mutation("times and data untouched")
    return f


def kernels(form, dimb, dimx, default):
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        n, g = FORM[form]
        t, k = c.arr("t", N), c.arr("kr", N, dimb, dimx)
        r = c.call(c.get(FM, "memory_fit_kernel"), t, k, **({} if default else dict(type=K(form))))
        if not isinstance(r, Tup) or len(r.items) != 2:
            return c.und("result", "not a pair")
        refs = {}
        for d in range(dimx):
            for b in range(dimb):
                ref = refs[b, d] = popt_ref(c, form, N, lambda i: el("kr", i, const(b), const(d)))
                p = c.I.getitem(c.I.getitem(r.items[1], S(d)), S(b))
                for j in range(n):
                    c.eq("parameter %d of function %d, component %d" % (j, b, d), c.at(p, j), ref(j))
        for how in ("pair", "own type"):
            s = c.arr("s", sym("M"))
            v = c.call(c.get(FM, "memory_kernel_eval"), s, r) if how == "pair" else c.call(c.get(FM, "memory_kernel_eval"), s, r.items[1], type=r.items[0])
            if c.shape("evaluated kernel (%s)" % how, v, sym("M"), dimb, dimx) is None:
                return
            i = Ax(sym("M")).p()
            for d in range(dimx):
                for b in range(dimb):
                    c.eq("evaluated kernel (%s) of function %d, component %d" % (how, b, d), c.at(v, i, b, d), g(c, el("s", i), [refs[b, d](j) for j in range(n)]))
        c.no_mutation("times and kernel untouched")
    return f


def rejects(c):
    N = sym("N")
    t, y = c.arr("t", N), c.arr("y", N)
    F, G, H = c.get(FM, "memory_fit"), c.get(FM, "memory_fit_eval"), c.get(FM, "memory_kernel_eval")
    Bounds.pos.add("N")
    c.raises("unknown type fitted", lambda: c.call(F, t, y, type=K("nonsense")))
    c.raises("unknown type evaluated", lambda: c.call(G, t, c.list([S(sym("p"))]), type=K("nonsense")))
    c.raises("data of two dimensions", lambda: c.call(F, t, c.arr("y", N, 2)))
    c.raises("times of two dimensions", lambda: c.call(F, c.arr("t", N, 2), y))


def prony_eval(shape, via):
    def f(c):
        N, m = sym("N") if shape != "single" else const(1), 3
        Bounds.pos.add("N")
        t = c.arr("t", N)
        if shape == "column":
            t = c.I.call(Ext("numpy.reshape"), [t, Tup([S(N), S(1)])], {})
        A = c.arr("A", m, m)
        y0 = S(sym("y0"))
        if via == "prony":
            r = c.call(c.get(FP, "prony_series_eval"), t, y0, A)
        else:
            r = c.call(c.get(FM, "memory_fit_eval"), t, Tup([K("prony"), Tup([y0, A])]))
        c.tens("value", r, [N], lambda i: sym("y0") * expm(m, "A", i, 0, 0))
        c.no_mutation("inputs untouched")
    return f


def expm(m, nm, i, b, d):
    a = [Ax(m), Ax(m)]
    pre = () if nm == "A" else (const(b), const(d))
    return mk_ap("expm", (mk_lam([x.v for x in a], [x.ext for x in a], el("t", i) * el(nm, *(pre + tuple(x.p() for x in a)))),), (const(0), const(0)))


def prony_kernel(dimb, dimx, single=False):
    def f(c):
        N, m = const(1) if single else sym("N"), 2
        Bounds.pos.add("N")
        t = c.arr("t", N)
        mats = c.arr("B", dimb, dimx, m, m)
        y0 = c.arr("y0", dimb, dimx)
        L = c.list([c.list([Tup([c.I.getitem(y0, Tup([S(b), S(d)])), c.I.getitem(mats, Tup([S(b), S(d)]))]) for b in range(dimb)]) for d in range(dimx)])
        for nm in ("prony_series_kernel_eval", "memory_kernel_eval"):
            if nm.startswith("prony"):
                r = c.call(c.get(FP, nm), t, L)
            else:
                r = c.call(c.get(FM, nm), t, Tup([K("prony"), L]))
            if c.shape(nm, r, N, dimb, dimx) is None:
                return
            i = const(0) if single else Ax(N).p()
            for b in range(dimb):
                for d in range(dimx):
                    c.eq("%s of function %d, component %d" % (nm, b, d), c.at(r, i, b, d), el("y0", const(b), const(d)) * expm(m, "B", i, b, d))
        c.no_mutation("inputs untouched")
    return f


def hankel(n):
    """rebuilding the series of an unfiltered Hankel matrix gives the series back"""
    def f(c):
        y = c.arr("y", 2 * n + 1)
        g = lambda a, b: c.I.getitem(y, Sl(NONE if a is None else S(a), S(b), NONE))
        H = c.I.call(Ext("scipy.linalg.hankel"), [g(None, n + 1), g(n, 2 * n + 1)], {})
        r = c.call(c.get(FP, "reconstruct_data"), H)
        c.tens("series", r, [2 * n + 1], lambda i: el("y", i))
    return f


def hooked(c, name, fn):
    """replace a function of the package; returns the list of its calls as {parameter: value}"""
    calls = []
    q = c.get(FP, name)
    import ast
    pos = [a.arg for a in q.node.args.args]

    def h(I, args, kw):
        d = dict(zip(pos, args))
        d.update(kw)
        d["params"] = pos
        calls.append(d)
        return fn(len(calls) - 1)
    c.I.hooks[c.I.qual(q)] = h
    return calls


def same_series(c, label, v, N, y):
    c.tens(label, v, [N], lambda i: y(topoly(i)))


def option(c, label, call, name, want):
    v = call.get(name)
    if want is None:
        if v is None or v is NONE or (isinstance(v, K) and v.v is None):
            c.ok(label)
        elif isinstance(v, Unk):
            c.und(label, "unknown")
        else:
            c.bad(label, "is %s, expected the default" % short(v))
        return
    if v is None or v is NONE:
        (c.bad if name in call["params"] else c.und)(label, "is not passed on")
        return
    c.eq(label, c.I.sc(v), want)


def prony_series_fit(opts):
    """fit of one series: normalised data in, initial value and cleaned matrix out"""
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        J, A = c.arr("J", 2, 2), c.arr("A", 2, 2)
        jc = hooked(c, "get_jacobi_matrix_reduced", lambda k: Tup([J, c.arr("H", 3, 3)]))
        cc = hooked(c, "clean_eigenvalues", lambda k: A)
        kw = dict(thres=S(sym("thr")), N_keep=S(sym("keep"))) if opts else {}
        if opts:
            kw["remove"] = bool_(False)
        r = c.call(c.get(FP, "prony_fit_times_serie"), c.arr("y", N), S(sym("dt")), **kw)
        if len(jc) != 1 or len(cc) != 1:
            return c.und("fit", "not through the known helpers")
        same_series(c, "normalised data", jc[0]["y"], N, lambda i: el("y", i) / el("y", const(0)))
        option(c, "threshold", jc[0], "thres", sym("thr") if opts else None)
        option(c, "number of terms", jc[0], "N_keep", sym("keep") if opts else None)
        c.tens("matrix to clean", cc[0]["J"], [2, 2], lambda i, j: el("J", topoly(i), topoly(j)))
        c.eq("step", c.I.sc(cc[0]["dt"]), sym("dt"))
        rm = cc[0].get("remove")
        rm = mk_ite(Cond_(c, rm), const(1), const(0)) if rm is not None else const(1)
        c.eq("removal of diverging terms", rm, const(0 if opts else 1))
        c.eq("initial value", c.I.sc(c.I.getitem(r, S(0))), el("y", const(0)))
        c.tens("fitted matrix", c.I.getitem(r, S(1)), [2, 2], lambda i, j: el("A", topoly(i), topoly(j)))
        c.no_mutation("data untouched")
    return f


def Cond_(c, v):
    b = c.I.num(v).body
    return b if isinstance(b, Cond) else c_not(c_eq(b, const(0)))


def prony_kernel_fit(dimb, dimx, opts, col):
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        res = lambda k: Tup([S(sym("y0_%d" % k)), c.arr("A%d" % k, 2, 2)])
        calls = hooked(c, "prony_fit_times_serie", res)
        t, kr = c.arr("t", N), c.arr("kr", N, dimb, dimx)
        if col:
            t = c.I.call(Ext("numpy.reshape"), [t, Tup([S(N), S(1)])], {})
        kw = dict(thres=S(sym("thr")), N_keep=S(sym("keep"))) if opts else {}
        r = c.call(c.get(FP, "prony_fit_kernel"), t, kr, **kw)
        if len(calls) != dimb * dimx:
            return c.und("fits", "%d fits for %d components" % (len(calls), dimb * dimx))
        for d in range(dimx):
            for b in range(dimb):
                y0 = c.I.sc(c.I.getitem(c.I.getitem(c.I.getitem(r, S(d)), S(b)), S(0)))
                k = [k for k in range(len(calls)) if c.I.sc(S(sym("y0_%d" % k))) == y0]
                if len(k) != 1:
                    c.und("result of function %d, component %d" % (b, d), "unknown fit")
                    continue
                q = calls[k[0]]
                lab = " of function %d, component %d" % (b, d)
                same_series(c, "series" + lab, q["data"], N, lambda i: el("kr", i, const(b), const(d)))
                c.eq("step" + lab, c.I.sc(q["dt"]), el("t", const(1)) - el("t", const(0)))
                option(c, "threshold" + lab, q, "thres", sym("thr") if opts else None)
                option(c, "number of terms" + lab, q, "N_keep", sym("keep") if opts else None)
                A = c.I.getitem(c.I.getitem(c.I.getitem(r, S(d)), S(b)), S(1))
                c.tens("matrix" + lab, A, [2, 2], lambda i, j: el("A%d" % k[0], topoly(i), topoly(j)))
        c.no_mutation("times and kernel untouched")
    return f


def prony_memory_fit(opts):
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        calls = hooked(c, "prony_fit_times_serie", lambda k: Tup([S(sym("y0_%d" % k)), c.arr("A", 2, 2)]))
        kw = dict(N_keep=S(sym("keep"))) if opts else {}
        r = c.call(c.get(FM, "memory_fit"), c.arr("t", N), c.arr("y", N), type=K("prony"), **kw)
        if len(calls) != 1:
            return c.und("fit", "%d fits" % len(calls))
        same_series(c, "series", calls[0]["data"], N, lambda i: el("y", i))
        c.eq("step", c.I.sc(calls[0]["dt"]), el("t", const(1)) - el("t", const(0)))
        option(c, "number of terms", calls[0], "N_keep", sym("keep") if opts else None)
        v = c.call(c.get(FM, "memory_fit_eval"), c.arr("t", N), r)
        c.tens("evaluated fit", v, [N], lambda i: sym("y0_0") * expm(2, "A", i, 0, 0))
        c.no_mutation("times and data untouched")
    return f


def jacobi(n, terms, given, even=False):
    """matrix of the shift in the orthogonal polynomials of the (filtered) Hankel matrix"""
    def f(c):
        m = n + 1
        lc = hooked(c, "ldl_hankel", lambda k: Tup([c.arr("L", terms, m), c.arr("D", terms, terms), c.arr("H", m, m)]))
        kw = dict(thres=S(sym("thr")), N_keep=S(sym("keep"))) if given else {}
        ny = 2 * n + 2 if given or even else 2 * n + 1
        if given:
            kw["n"] = S(n)
        r = c.call(c.get(FP, "get_jacobi_matrix_reduced"), c.arr("y", ny), **kw)
        if len(lc) != 1:
            return c.und("decomposition", "not through the known helper")
        same_series(c, "series", lc[0]["y"], const(ny), lambda i: el("y", i))
        if lc[0].get("n") is not None and lc[0]["n"] is not NONE:
            c.eq("size", c.I.sc(lc[0]["n"]), const(n))
        option(c, "threshold", lc[0], "thres", sym("thr") if given else None)
        option(c, "number of terms", lc[0], "N_keep", sym("keep") if given else None)
        M = lambda nm: (lambda i, j: el(nm, const(i), const(j)))
        L, D, H = M("L"), M("D"), M("H")
        low = [[sum((L(i, a) * H(a, b + 1) * L(j, b) for a in range(m) for b in range(m - 1)), const(0)) for j in range(terms)] for i in range(terms)]
        c.tens("matrix", c.I.getitem(r, S(0)), [terms, terms], lambda i, j: sum((low[int(topoly(i).const())][k] * D(k, int(topoly(j).const())) for k in range(terms)), const(0)))
        c.tens("filtered Hankel matrix", c.I.getitem(r, S(1)), [m, m], lambda i, j: el("H", topoly(i), topoly(j)))
        c.no_mutation("series untouched")
    return f


def ldl(n, rank, keep, even=False):
    """orthogonal polynomials of the Hankel matrix rebuilt from its largest singular values, no norm being negligible"""
    def f(c):
        m = n + 1
        I = c.I
        thr = sym("thr")
        Bounds.pos.update(["thr"] + ["g%d" % k for k in range(m)])
        sv = [thr + sum((sym("g%d" % q) for q in range(k, m)), const(0)) if k < rank else const(0) for k in range(m)]
        N = rank if keep is None else min(keep, rank)
        low = thr if keep is None else sv[N] if N < m else thr
        N = min(N, n)
        sv_args = []

        def svd(I, args, kw):
            sv_args.append(args[0])
            return Tup([c.arr("U", m, m), I.call(Ext("numpy.array"), [c.list([S(x) for x in sv])], {}), c.arr("V", m, m)])

        size = lambda x: low + mk_ap("count", (x,), ())

        def absolute(I, args, kw):
            t = I.d(I.num(args[0]))
            return T(t.axes, size(topoly(t.body))) if t.axes else S(size(topoly(t.body)))
        for nm in ("numpy.linalg.svd", "scipy.linalg.svd"):
            I.hooks[nm] = svd
        for nm in ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs"):
            I.hooks[nm] = absolute
        kw = {"thres": S(thr)}
        if keep is not None:
            kw["N_keep"] = S(keep)
        ny = 2 * n + (2 if even else 1)
        r = c.call(c.get(FP, "ldl_hankel"), c.arr("y", ny), **kw)
        if len(sv_args) != 1:
            return c.und("decomposition", "%d decompositions" % len(sv_args))
        c.tens("Hankel matrix", sv_args[0], [m, m], lambda i, j: el("y", topoly(i) + topoly(j)))
        H = [[sum((el("U", const(i), const(k)) * sv[k] * el("V", const(k), const(j)) for k in range(N)), const(0)) for j in range(m)] for i in range(m)]
        phi = lambda u, v: sum((u[i] * H[i][j] * v[j] for i in range(m) for j in range(m)), const(0))
        u, D = [], []
        for k in range(N):
            t = [const(1 if q == k else 0) for q in range(m)]
            for w, d in zip(u, D):
                p = phi(t, w)
                t = [a - p / d * b for a, b in zip(t, w)]
            u.append(t)
            D.append(phi(t, t))
        sq = lambda x: x.pow(Fraction(1, 2))
        it = lambda i: int(topoly(i).const())
        c.tens("filtered Hankel matrix", c.I.getitem(r, S(2)), [m, m], lambda i, j: H[it(i)][it(j)])
        c.tens("signs", c.I.getitem(r, S(1)), [N, N], lambda i, j: mk_ap("sign", (D[it(i)],), ()) if it(i) == it(j) else const(0))
        c.tens("normalised polynomials", c.I.getitem(r, S(0)), [N, m], lambda i, j: u[it(i)][it(j)] / sq(size(D[it(i)])))
        c.no_mutation("series untouched")
    return f


def eigen_cleaning(kinds, remove):
    """logarithm of the matrix, eigenvalue by eigenvalue; kinds: p(ositive), n(egative), d(iverging) real eigenvalues, c(omplex) ones"""
    def f(c):
        I = c.I
        m = len(kinds)
        Bounds.pos.update(["dt"] + ["l%d" % k for k in range(m)] + ["w%d" % k for k in range(m)])
        lam = [sym("l%d" % k) * (-1 if x == "n" else 1) + (sym("I") * sym("im%d" % k) if x == "c" else const(0)) for k, x in enumerate(kinds)]
        arr = lambda v: I.call(Ext("numpy.array"), [c.list([S(x) for x in v])], {})
        mat = lambda rows: I.call(Ext("numpy.array"), [c.list([c.list([S(x) for x in r]) for r in rows])], {})
        J = []

        def eig(I, args, kw):
            J.append(args[0])
            return Tup([arr(lam), c.arr("V", m, m)])

        size = {lam[k]: const(2 if x == "d" else Fraction(1, 2)) for k, x in enumerate(kinds)}
        size.update({mk_ap("imag", (x,)): const(1) for k, x in zip(kinds, lam) if k == "c"})
        lg = {lam[k]: mk_ap("log", (lam[k],), ()) if x != "n" else sym("u%d" % k) + sym("w%d" % k) * sym("I") for k, x in enumerate(kinds)}

        I.track_complex = True
        zero = mk_ap("complex", (const(0),))
        real = "c" not in kinds

        def table(d, name):
            def h(I, args, kw):
                t = I.d(I.num(args[0]))
                if not t.axes:
                    return S(d[topoly(t.body)]) if topoly(t.body) in d else None
                n = t.axes[0].ext.const()
                v = [I.sc(I.getitem(args[0], S(k))) for k in range(int(n))] if n is not None else [None]
                cx = [x is not None and zero.s in x.s for x in v]
                v = [x - zero if z else x for x, z in zip(v, cx)]
                if any(x is None or x not in d and x != const(0) for x in v):
                    return Unk(name)
                if name == "log" and real:      # the logarithm of a negative number of real type is not a number
                    return arr([d[x] if z or kinds[lam.index(x)] != "n" else sym("not_a_number") for x, z in zip(v, cx)])
                return arr([d.get(x, const(0)) for x in v])
            return h
        for nm in ("numpy.linalg.eig", "scipy.linalg.eig"):
            I.hooks[nm] = eig
        for nm in ("numpy.abs", "numpy.absolute", "builtins.abs"):
            I.hooks[nm] = table(size, "abs")
        for nm in ("numpy.log",):
            I.hooks[nm] = table(lg, "log")
        kw = {} if remove is None else {"remove": bool_(remove)}
        r = c.call(c.get(FP, "clean_eigenvalues"), c.arr("J", m, m), S(sym("dt")), **kw)
        if len(J) != 1:
            return c.und("decomposition", "%d decompositions" % len(J))
        c.tens("decomposed matrix", J[0], [m, m], lambda i, j: el("J", topoly(i), topoly(j)))
        keep = [k for k in range(m) if remove is False or kinds[k] != "d"]
        q = len(keep)
        neg = [k for k in keep if kinds[k] == "n"]
        sz = q + len(neg)
        L = [lg[lam[k]] / sym("dt") for k in keep]
        rows = [[const(0)] * sz for _ in range(sz)]
        for a in range(q):
            for b, k in enumerate(keep):
                rows[a][b] = el("V", const(a), const(k))
            for b, k in enumerate(neg):
                rows[a][q + b] = el("V", const(a), const(k))
        for a, k in enumerate(neg):
            sg = I.sc(I.call(Ext("numpy.sign"), [I.call(Ext("numpy.imag"), [S(L[keep.index(k)])], {})], {}))
            rows[q + a][keep.index(k)] = sym("I") * sg
            rows[q + a][q + a] = -sym("I") * sg
        L = L + [sym("u%d" % k) / sym("dt") - sym("w%d" % k) * sym("I") / sym("dt") for k in neg]
        M = mat(rows)
        D = mat([[L[a] if a == b else const(0) for b in range(sz)] for a in range(sz)])
        mm = lambda a, b: I.call(Ext("numpy.matmul"), [a, b], {})
        ref = I.call(Ext("numpy.real"), [mm(mm(M, D), I.call(Ext("numpy.linalg.inv"), [M], {}))], {})
        c.tens("logarithm", r, [sz, sz], lambda i, j: c.at(ref, i, j))
        c.no_mutation("matrix untouched")
    return f


def inspection(n, rank, keep):
    """the filtered data: rebuilt from the Hankel matrix of the largest singular values"""
    def f(c):
        m = n + 1
        I = c.I
        Bounds.pos.update(["thr"] + ["g%d" % k for k in range(m)])
        thr = sym("thr")
        sv = [thr + sum((sym("g%d" % q) for q in range(k, m)), const(0)) if k < rank else const(0) for k in range(m)]
        args_ = []

        def svd(I, args, kw):
            args_.append(args[0])
            return Tup([c.arr("U", m, m), I.call(Ext("numpy.array"), [c.list([S(x) for x in sv])], {}), c.arr("V", m, m)])
        for nm in ("numpy.linalg.svd", "scipy.linalg.svd"):
            I.hooks[nm] = svd
        kw = {"thres": S(thr)}
        if keep is not None:
            kw["N_keep"] = S(keep)
        N = min(rank if keep is None else min(keep, rank), n)
        r = c.call(c.get(FP, "prony_inspect_data"), c.arr("y", 2 * n + 1), **kw)
        if len(args_) != 1:
            return c.und("decomposition", "%d decompositions" % len(args_))
        y = lambda i: el("y", i)
        c.tens("Hankel matrix", args_[0], [m, m], lambda i, j: y(topoly(i) + topoly(j)) / y(const(0)))
        H = lambda i, j: sum((el("U", const(i), const(k)) * sv[k] * el("V", const(k), const(j)) for k in range(N)), const(0))
        it = lambda i: int(topoly(i).const())
        c.tens("filtered data", r, [2 * n + 1], lambda i: y(const(0)) * (H(it(i), 0) if it(i) < n else H(n, it(i) - n)))
        c.no_mutation("data untouched")
    return f


def asymptote(c):
    """the last half of the cumulative trapezoidal integral is fitted with a + b / t"""
    N = sym("N")
    Bounds.pos.add("N")
    I = c.I
    r = c.call(c.get(FM, "asymptotic_fit_integral"), c.arr("t", N), c.arr("y", N))
    h = I.sc(I.spec("def h(n):\n    return n // 2\n", "h") and I.call(I.spec("def h(n):\n    return n // 2\n", "h"), [S(N)], {}))
    a, b = Ax(N - h), Ax(N - h)
    m = mk_lam([a.v], [a.ext], sym("fitpar0") + sym("fitpar1") / el("t", a.p() + h))
    integ = lambda n: (lambda q: mk_sum(q, const(0), n, (el("t", iv(q) + 1) - el("t", iv(q))) * (el("y", iv(q) + 1) + el("y", iv(q))) / 2))(fresh_iv())
    d = mk_lam([b.v], [b.ext], integ(b.p() + h))
    if c.shape("parameters", r, 2) is None:
        return
    for j in range(2):
        c.eq("parameter %d" % j, c.at(r, j), mk_ap("popt", (m, d), (const(j),)))
    c.no_mutation("times and data untouched")


def friction(dimb, dimx):
    def f(c):
        N = sym("N")
        Bounds.pos.add("N")
        r = c.call(c.get(FM, "markovian_friction"), c.arr("t", N), c.arr("kr", N, dimb, dimx))
        v = r.items[1] if isinstance(r, Tup) else r
        for b in range(dimb):
            for d in range(dimx):
                k = c.I.getitem(c.arr("kr", N, dimb, dimx), Tup([Sl(NONE, NONE, NONE), S(b), S(d)]))
                ref = c.I.call(Ext("scipy.integrate.simpson"), [k, c.arr("t", N)], {})
                c.eq("integral of function %d, component %d" % (b, d), c.T(c.I.getitem(c.I.getitem(v, S(d)), S(b))).body, c.T(ref).body)
        c.no_mutation("inputs untouched")
    return f


def obligations(tier):
    r = []
    for form, names in ALIAS.items():
        for nm in names:
            for own in (True, False):
                r.append(("evaluate %s%s" % (nm, "" if own else ", type from the parameters"), evaluate(form, nm, own)))
            for sh in ("flat", "column", "frame"):
                r.append(("fit %s, times %s" % (nm, sh), fit(form, nm, sh, False)))
            r.append(("fit %s, options" % nm, fit(form, nm, "flat", True)))
        for b, d in ((1, 1), (2, 1), (1, 2), (2, 3)):
            r.append(("kernel %s %dx%d" % (form, b, d), kernels(form, b, d, False)))
    r.append(("kernel, default type", kernels("exp", 2, 2, True)))
    r.append(("rejections", rejects))
    for sh in ("flat", "column", "single"):
        for via in ("prony", "memory"):
            r.append(("Prony series, times %s, through %s" % (sh, via), prony_eval(sh, via)))
    for b, d in ((1, 1), (2, 1), (1, 2), (2, 3)):
        r.append(("Prony kernel %dx%d" % (b, d), prony_kernel(b, d)))
        r.append(("Prony kernel %dx%d, one time" % (b, d), prony_kernel(b, d, True)))
        r.append(("friction %dx%d" % (b, d), friction(b, d)))
    r.append(("asymptote of the integral", asymptote))
    for opts in (False, True):
        r.append(("Prony fit of a series%s" % (", options" if opts else ""), prony_series_fit(opts)))
        r.append(("Prony fit through memory_fit%s" % (", options" if opts else ""), prony_memory_fit(opts)))
        for b, d in ((1, 1), (2, 1), (1, 2), (2, 3)):
            r.append(("Prony fit of a kernel %dx%d%s" % (b, d, ", options" if opts else ""), prony_kernel_fit(b, d, opts, opts)))
        for n, m in ((1, 1), (2, 1), (2, 2), (3, 2)):
            if not opts:
                r.append(("Prony matrix of %d terms, size %d, even number of points" % (m, n), jacobi(n, m, opts, True)))
            r.append(("Prony matrix of %d terms, size %d%s" % (m, n, ", options" if opts else ""), jacobi(n, m, opts)))
    for n, rank, keep in ((1, 1, None), (2, 1, None), (2, 2, None), (2, 3, None), (2, 3, 1), (2, 3, 2), (2, 2, 2), (2, 3, 3), (2, 3, 8), (2, 1, 2), (3, 4, 2), (3, 2, 3)):
        for even in (False, True):
            r.append(("orthogonal polynomials, %d points, rank %d, %s terms kept" % (2 * n + (2 if even else 1), rank, "all" if keep is None else "at most %d" % keep), ldl(n, rank, keep, even)))
    for kinds, remove in (("p", None), ("pp", None), ("pp", False), ("pd", None), ("dp", True), ("pd", False), ("pdp", None), ("ppp", None), ("n", None), ("pn", None), ("np", None), ("nn", None), ("npd", None), ("cc", None), ("dcc", None)):
        r.append(("eigenvalues %s%s" % (kinds, "" if remove is None else ", remove=%s" % remove), eigen_cleaning(kinds, remove)))
    for n, rank, keep in ((1, 1, None), (2, 1, None), (2, 3, None), (2, 3, 1), (2, 3, 2), (2, 3, 3), (2, 3, 8), (2, 1, 2), (3, 4, 2), (3, 2, 3)):
        r.append(("inspection of %d points, rank %d, %s terms kept" % (2 * n + 1, rank, "all" if keep is None else "at most %d" % keep), inspection(n, rank, keep)))
    for n in (1, 2, 3, 5):
        r.append(("Hankel series of %d points" % (2 * n + 1), hankel(n)))
    return r
