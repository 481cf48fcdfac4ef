"""C22 Laplace transform of the kernel and check of the inversion."""
from lib import *
from rules.estref import *
from rules.c14 import setup as esetup
from rules.fref import sum_

RULE = ("the Laplace transform integrates exp(-s t) times the kernel over the kernel's own times at the requested equidistant s values; the "
        "check of the inversion is minus the trapezoid rule of correlation times kernel over the elapsed times, and its difference to the correlation")


def simpson_ref(c, fn, N, xs):
    ax = Ax(N)
    y = T([ax], fn(ax.p()))
    ax2 = Ax(N)
    t = T([ax2], xs(ax2.p()))
    return c.T(c.I.call(Ext("scipy.integrate.simpson"), [y, t], {})).body


def laplace(nb, dx, opts, Mk=None):
    def f(c):
        Mp = sym("M") if Mk is None else const(Mk)
        m = Mod(c, "Pos_gle_overdamped", 1, nb, False, extra=dict(trunc_ind=S(sym("R"))))
        Bounds.pos.add("R")
        ker = c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [Mp, nb, dx], coords={"time_kernel": c.da("tker", ["time_kernel"], [Mp])})
        c.I.setattr(m.m, "kernel", ker)
        kw = {}
        n, s0, s1 = sym("R"), const(0), const(1) / sym("dt")
        if "n" in opts:
            kw["n_points"] = S(sym("Ns"))
            Bounds.pos.add("Ns")
            n = sym("Ns")
        if "s" in opts:
            kw["s_start"], s0 = S(sym("sa")), sym("sa")
        if "e" in opts:
            kw["s_end"], s1 = S(sym("sb")), sym("sb")
        if "3" in opts:
            kw["n_points"], n = S(3), const(3)
        for rep in ("", " again"):
            r = c.meth(m.m, "laplace_transform_kernel", **kw)
            s, l = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
            sv = lambda q: s0 + (s1 - s0) * topoly(q) / (n - 1)
            facts = [(c_le(const(2), n), True)]
            c.tens("s values" + rep, s, [n], sv, facts)

            def body(q, k, x):
                return simpson_ref(c, lambda t: mk_ap("exp", (-(sv(q) * el("tker", t)),)) * el("kr", t, const(k), const(x)), Mp, lambda t: el("tker", t))
            c.tens("transform" + rep, l, [n, nb, dx], body, facts)
        c.tens("kernel untouched", c.I.getattr(m.m, "kernel"), [Mp, nb, dx], lambda t, k, x: el("kr", topoly(t), const(k), const(x)))
        c.no_mutation("inputs untouched")
    return f


def volterra(nb, no, R, Mk, diff):
    def f(c):
        e = esetup(c, nb, no, topoly(R), True)
        ker = c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [Mk, nb, no], coords={"time_kernel": c.da("tker", ["time_kernel"], [Mk])})
        c.I.setattr(e.m, "kernel", ker)
        dt = sym("dt")
        kw = dict(return_diff=bool_(True)) if diff else {}
        for rep in ("", " again"):
            r = c.T(c.meth(e.e, "check_volterra_inversion", **kw))
            if c.shape("result" + rep, r, nb, no, topoly(R)) is None:
                continue
            for n in range(R if isinstance(R, int) else Mk):
                for i in range(nb):
                    for x in range(no):
                        v = const(0)
                        if n < Mk:
                            for j in range(n):
                                tm = lambda q: sum((el("B", const(i), const(k), const(n - q)) * el("kr", const(q), const(k), const(x)) for k in range(nb)), const(0))
                                v = v - dt * (tm(j) + tm(j + 1)) / 2
                        if diff:
                            v = mk_ap("abs", (v - el("D", const(i), const(x), const(n)),))
                            got = c.at(r, i, x, n)
                            c.eq("difference%s [%d,%d] at %d" % (rep, i, x, n), got * got, v * v) if False else c.eq("difference%s [%d,%d] at %d" % (rep, i, x, n), got, v)
                        else:
                            c.eq("integral%s [%d,%d] at %d" % (rep, i, x, n), c.at(r, i, x, n), v)
        c.no_mutation("inputs untouched")
    return f


def rejects(c):
    e = esetup(c, 1, 1, const(4), True)
    c.raises("check before the kernel is computed", lambda: c.meth(e.e, "check_volterra_inversion"))
    c.raises("Laplace transform before the kernel is computed", lambda: c.meth(e.m, "laplace_transform_kernel"))


def obligations(tier):
    r = []
    for nb, dx in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for o in ("", "n", "s", "e", "nse", "3", "3se"):
            r.append(("Laplace transform %d x %d, given %s" % (nb, dx, o or "nothing"), laplace(nb, dx, o)))
    for nb, no in ((1, 1), (2, 1), (1, 2), (2, 2)):
        for R, Mk in ((4, 4), (5, 4), (5, 2)) + (((7, 7), (8, 7)) if tier == "thorough" else ()):
            for d in (False, True):
                r.append(("inversion check %d x %d, %d lags, kernel of %d points%s" % (nb, no, R, Mk, ", difference" if d else ""), volterra(nb, no, R, Mk, d)))
    r.append(("missing kernel", rejects))
    return r
