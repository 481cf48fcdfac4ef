"""C17 evolution of the Volterra equation, memory flux, quadrature sums."""
from lib import *
from rules.modelsref import *
from rules.fref import *
from rules.c13 import simpson_w

RULE = ("the partial quadratures weight the kernel points as the rule prescribes (all but the last, implicit, point); every step of the "
        "integro-differential solver is the implicit step with the memory over the kernel window; the flux is the force term and minus the quadrature")


def explicit(kind, n):
    """weights of points 0..n-1"""
    if kind in ("rect", "midpoint"):
        return [const(1)] * n
    if kind == "trapz" or n < 2:
        return [const(1) / 2] + [const(1)] * (n - 1)
    w = simpson_w(n)
    return w[:n]


def quad(kind, do, nb, dx, n):
    def f(c):
        Bounds.pos.add("Nq")
        N = sym("Nq") if n is None else const(n)
        dt = sym("dt")
        r = Routine(c, kind + "_integral", dict(n=N, dim_basis=nb, dim_x=dx, dim_out=do, dt=dt), [])
        st = 2 if kind == "midpoint" else 1
        for o in range(do):
            for x in range(dx):
                tm = lambda j, k: el("b", const(o), const(k), (N - j) * st) * el("kernel", topoly(j), const(k), const(x))
                if n is None:
                    w = dt * sum((sum_(0, N, lambda j: tm(j, k)) - (tm(const(0), k) / 2 if kind == "trapz" else const(0)) for k in range(nb)), const(0))
                else:
                    W = explicit(kind, n)
                    w = dt * sum((W[j] * tm(const(j), k) for j in range(n) for k in range(nb)), const(0))
                c.eq("sum[%d,%d]" % (o, x), r.value((const(o), const(x)), strict=True), w)
    return f


def window(kind, i, M):
    """kernel points (index, weight) entering the explicit memory at step i, kernel points 0..M"""
    if kind == "rect":
        return [(j, const(1)) for j in range(1, min(i, M) - 1)]
    return [(j, const(1)) for j in range(1, min(i, M))]


def step_ref(c, kind, db, do, T_, M, E0, K, F, dt, val=None):
    R, O = range(db), range(do)
    w0 = const(1) if kind == "rect" else const(1) / 2
    inv = inv_ref(c, db, lambda i, j: const(1 if i == j else 0) + w0 * dt * dt * K(0, i, j))
    out = [[[E0(o, k) for k in R] for o in O]]
    for i in range(1, T_):
        pr = out[i - 1] if val is None else [[val(o, k, i - 1) for k in R] for o in O]
        old = (lambda o, k, t: out[t][o][k]) if val is None else val
        row = [[pr[o][k] - dt * dt * sum((w * old(o, q, i - j) * K(j, q, k) for j, w in window(kind, i, M) for q in R), const(0))
                + dt * sum((pr[o][q] * F(q, k) for q in R), const(0)) for k in R] for o in O]
        new = [[sum((row[o][q] * inv[q][k] for q in R), const(0)) for k in R] for o in O]
        if kind == "trapz_stab":
            new = [[mk_ap("max", (e, const(0)), ()) if False else mx(c, e) for e in r] for r in new]
            tot = sum((e for r in new for e in r), const(0))
            new = [[e / tot for e in r] for r in new]
        out.append(new)
    return out


def mx(c, e):
    return c.T(c.I.call(Ext("numpy.maximum"), [T([], e), S(0)], {})).body


def solver(kind, db, do, M, Tn):
    """any number of steps unrolled to Tn; one step from arbitrary earlier values"""
    def f(c):
        dt = sym("dt")
        r = Routine(c, "solve_ide_" + kind, dict(len_mem=M, dim_basis=db, dim_other=do, lentraj=Tn, dt=dt), [])
        t = r.out["e"]
        if c.shape("solution", t, do, db, Tn) is None:
            return
        val = lambda o, k, i: c.at(t, o, k, i)
        ref = step_ref(c, kind, db, do, Tn, M, lambda o, k: el("e0", const(o), const(k)), lambda j, a, b: el("kernel", const(j), const(a), const(b)), lambda a, b: el("f_coeff", const(a), const(b)), dt, val)
        for i in range(Tn):
            for o in range(do):
                for k in range(db):
                    c.eq("step %d [%d,%d]" % (i, o, k), val(o, k, i), ref[i][o][k])
    return f


def evolve(kind, db, do, M, Tn, trunc):
    """the model's evolve_volterra; kernel has M points"""
    def f(c):
        m = Mod(c, "Pos_gle_overdamped", 1, db, False, True)
        dt = sym("dt")
        c.I.setattr(m.m, "dim_obs", S(db))
        c.I.setattr(m.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [db, db]))
        c.I.setattr(m.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [M, db, db], coords={"time_kernel": c.arr("tker", M)}))
        G0 = c.arr("g0", do, db)
        kw = {} if trunc is None else dict(trunc_ind=S(trunc))
        if kind != "default":
            kw["method"] = K(kind)
        k_ = "trapz" if kind == "default" else kind
        pts = M if trunc is None or trunc <= 0 else min(trunc, M)
        r = c.meth(m.m, "evolve_volterra", G0, S(Tn), **kw)
        tm, E = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
        if c.shape("times", tm, Tn) is None or c.shape("solution", E, do, db, Tn) is None:
            return
        val = lambda o, k, i: c.at(E, o, k, i)
        ref = step_ref(c, k_, db, do, Tn, pts - 1, lambda o, k: el("g0", const(o), const(k)), lambda j, a, b: el("kr", const(j), const(a), const(b)), lambda a, b: el("fc", const(a), const(b)), dt, val)
        for i in range(Tn):
            c.eq("time %d" % i, c.at(tm, i), const(i) * dt)
            for o in range(do):
                for k in range(db):
                    c.eq("step %d [%d,%d]" % (i, o, k), val(o, k, i), ref[i][o][k])
    return f


def evolve_rejects(c):
    for nm, fs, ks, gs in (("force not square", (2, 1), (2, 2), (2, 2)), ("kernel not square", (2, 2), (2, 1), (2, 2)), ("initial value of another size", (2, 2), (2, 2), (3, 2))):
        m = Mod(c, "Pos_gle_overdamped", 1, 2, False, True)
        c.I.setattr(m.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], list(fs)))
        c.I.setattr(m.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [3] + list(ks), coords={"time_kernel": c.arr("tker", 3)}))
        c.raises(nm, lambda: c.meth(m.m, "evolve_volterra", c.arr("g0", *gs), S(4)))


def flux(kind, db, dx, M, Tn, own, trunc, two):
    def f(c):
        m = Mod(c, "Pos_gle_overdamped", 1, db, False, True)
        dt = sym("dt")
        kw = {}
        fn, kn = "fc", "kr"
        fc = c.da("fc", ["dim_x", "dim_basis"], [db, db])
        kr = c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [M, db, dx], coords={"time_kernel": c.arr("tker", M)})
        c.I.setattr(m.m, "force_coeff", fc)
        c.I.setattr(m.m, "kernel", kr)
        if own:
            kw["force_coeff"], kw["kernel"] = c.arr("ofc", db, db), c.arr("okr", M, db, dx)
            fn, kn = "ofc", "okr"
        if trunc:
            kw["trunc_ind"] = S(trunc)
        pts = min(trunc or M, M)
        C1 = c.arr("cf", db, db, Tn)
        args = [C1]
        ck = "cf"
        if two:
            args.append(c.arr("ck", db, db, Tn))
            ck = "ck"
        if kind != "default":
            kw["method"] = K(kind)
        k_ = "trapz" if kind == "default" else kind
        r = c.meth(m.m, "flux_from_volterra", *args, **kw)
        ft, mt = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
        if c.shape("memory flux", mt, Tn, db, dx) is None:
            return
        # the force term is the matrix product over the leading axes of the stack
        want = c.T(c.I.call(Ext("numpy.matmul"), [T([Ax(db), Ax(db)], const(0)), C1], {}))
        if len(ft.axes) != len(want.axes):
            c.bad("force term", "rank %d" % len(ft.axes))
            return
        for i in range(db):
            for k in range(db):
                t = Ax(Tn).p()
                # matmul of (db, db) with (db, db, T): contracts the second index of the force with the middle axis of the correlations
                for o in range(db):
                    c.eq("force term[%d,%d]" % (o, i), subst(ft.body, {ft.axes[0].v: const(o), ft.axes[1].v: const(i), ft.axes[2].v: t}),
                         sum((el(fn, const(i), const(q)) * el("cf", const(o), const(q), t) for q in range(db)), const(0)))
                break
        for n in range(Tn):
            L = min(n, pts)
            W = explicit(k_, L - 1) if L > 1 else ([const(1) / 2] if k_ in ("trapz", "simpson") and L == 1 else [])
            for i in range(db):
                for x in range(dx):
                    if n == 0:
                        w = const(0)
                    else:
                        w = -dt * sum((W[j] * el(ck, const(i), const(k), const(n - 1 - j)) * el(kn, const(j), const(k), const(x)) for j in range(len(W)) for k in range(db)), const(0))
                    c.eq("memory flux at step %d [%d,%d]" % (n, i, x), c.at(mt, n, i, x), w)
    return f


def obligations(tier):
    r = []
    deep = tier == "thorough"
    for kind in ("rect", "midpoint", "trapz"):
        for do, nb, dx in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (2, 2, 2)):
            r.append(("%s sum of any length, %d x %d x %d" % (kind, do, nb, dx), quad(kind, do, nb, dx, None)))
    for kind in ("rect", "midpoint", "trapz", "simpson"):
        for n in range(1, 13 if deep else 9):
            for do, nb, dx in ((1, 1, 1), (1, 2, 1), (2, 1, 2)):
                r.append(("%s sum of %d intervals, %d x %d x %d" % (kind, n, do, nb, dx), quad(kind, do, nb, dx, n)))
    for kind in ("rect", "trapz", "trapz_stab"):
        for db, do in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for M, Tn in ((1, 3), (2, 5), (3, 4), (3, 6), (5, 4)):
                if not deep and (db, do) != (1, 1) and (M, Tn) not in ((2, 5), (3, 4)):
                    continue
                if kind == "trapz_stab" and (db, do) != (1, 1):
                    M, Tn = 2, 3
                r.append(("solve_ide_%s %d functions %d rows, kernel %d, %d steps" % (kind, db, do, M + 1, Tn), solver(kind, db, do, M, Tn)))
    for kind in ("rect", "trapz", "trapz_stab", "default"):
        for db in (1, 2):
            for M, Tn, tr in ((3, 5, None), (4, 5, 2), (3, 4, -1), (3, 5, 3)):
                if kind == "trapz_stab" and db == 2:
                    Tn = 3
                r.append(("evolve_volterra %s %d functions, kernel of %d points, truncated at %s" % (kind, db, M, tr), evolve(kind, db, db, M, Tn, tr)))
    r.append(("evolve_volterra rejects inconsistent shapes", evolve_rejects))
    for kind in ("rect", "trapz", "simpson", "default"):
        for db, dx in ((1, 1), (2, 1), (2, 2)):
            for M, Tn, own, tr, two in ((3, 6, False, None, False), (4, 5, True, 2, True)):
                r.append(("flux %s %d functions %d outputs, kernel of %d points, truncated at %s%s" % (kind, db, dx, M, tr, ", own coefficients" if own else ""), flux(kind, db, dx, M, Tn, own, tr, two)))
    return r
