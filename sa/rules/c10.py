"""C10 features of the models."""
from lib import *
from rules.modelsref import *

RULE = ("force features, kernel features and their time derivative equal, column by column and at every time, the "
        "documented ones; the derivative feature is the chain rule derivative of the kernel feature")


def ob(cls, dim, rc, fitted):
    def f(c):
        N = sym("N")
        m = Mod(c, cls, dim, 2, rc, fitted)
        tr = c.traj("xva", dim=dim)
        for rep in ("", " again"):
            cols(c, "force features" + rep, c.meth(m.m, "basis_vector", tr, compute_for=K("force")), N, m.force())
            r = c.meth(m.m, "basis_vector", tr)
            r2 = c.meth(m.m, "basis_vector", tr, compute_for=K("corrs"))
            E, dE = m.kern()
            for nm, x in (("", r), (" (corrs)", r2)):
                cols(c, "correlation force features" + rep + nm, c.I.getitem(x, S(0)), N, m.force())
                cols(c, "kernel features" + rep + nm, c.I.getitem(x, S(1)), N, E)
                cols(c, "kernel feature derivatives" + rep + nm, c.I.getitem(x, S(2)), N, dE)
        cols(c, "potential features", c.meth(m.m, "basis_vector", tr, compute_for=K("pmf")), N, [lambda n, k=k: m.f(k, n, -1) for k in range(m.nb)])
        t = c.T(c.meth(m.m, "basis_vector", tr, compute_for=K("kernel")))
        ke = m.keval()
        c.tens("kernel evaluation features", t, [N, len(ke), dim], lambda n, k, i: ke[k][i](topoly(n)), dims=["time", "dim_basis", "dim_x"])
        c.no_mutation("trajectory untouched")
        c.raises("unknown purpose is rejected", lambda: c.meth(m.m, "basis_vector", tr, compute_for=K("no such purpose")))
    return f


def ob_sizes(cls, dim, rc, fitted):
    def f(c):
        m = Mod(c, cls, dim, 3, rc, fitted)
        g = lambda n: c.T(c.I.getattr(m.m, n), n).body
        c.eq("number of basis elements", g("N_basis_elt"), const(m.nb))
        c.eq("number of force features", g("N_basis_elt_force"), const(len(m.force())))
        want = len(m.kern()[0])
        c.eq("number of kernel features", g("N_basis_elt_kernel"), const(want))
        rp = g("rank_projection")
        rp = mk_ite(rp, const(1), const(0)) if isinstance(rp, Cond) else rp
        c.eq("projection on the range", rp, const(1 if cls in ("Pos_gle", "Pos_gle_with_friction") and not rc else 0))
        cr = c.T(c.I.getattr(m.basis, "const_removed")).body
        cr = mk_ite(cr, const(1), const(0)) if isinstance(cr, Cond) else cr
        c.eq("constant handling of the basis", cr, const(1 if m.rc else 0))
        c.eq("step", g("dt"), sym("dt"))
        c.eq("dimension", g("dim_x"), const(dim))
        lo = c.I.getattr(m.m, "L_obs")
        want = "v" if cls == "Pos_gle_overdamped" else "a"
        (c.ok if isinstance(lo, K) and lo.v == want else (lambda l: c.bad(l, "is %s, expected %s" % (short(lo), want))))("default observable")
        for n in ("force_coeff", "kernel", "gram_force", "gram_kernel", "eff_mass", "inv_mass_coeff", "method", "P_range"):
            v = c.I.getattr(m.m, n)
            if v is NONE or (isinstance(v, K) and v.v is None):
                c.ok("%s starts empty" % n)
            else:
                c.bad("%s starts empty" % n, "is %s" % short(v))
    return f


def ob_badbasis(cls):
    def f(c):
        for nm, src in (("no derivative", "class B:\n    def basis(self, X):\n        return X\n"), ("no values", "class B:\n    def deriv(self, X):\n        return X\n"),
                        ("neither fitted nor fittable", "class B:\n    const_removed = False\n    def basis(self, X):\n        return X\n    def deriv(self, X):\n        return X\n")):
            b = c.I.call(c.I.spec(src, "B"), [], {})
            c.raises("basis with %s is rejected" % nm, lambda: c.call(c.get(MO, cls), b, S(sym("dt"))))
    return f


def obligations(tier):
    r = []
    for cls in CLASSES:
        for dim in ((1, 2) if tier == "quick" else (1, 2, 3)):
            for rc in (False, True):
                for fitted in (True, False):
                    if not fitted and (rc or dim > 1):
                        continue
                    nm = "%s dim=%d const removed=%s%s" % (cls, dim, rc, "" if fitted else " fitted by the model")
                    r.append((nm, ob(cls, dim, rc, fitted)))
                    if cls == "Pos_gle_hybrid" and dim > 1:
                        continue
                    r.append((nm + " sizes", ob_sizes(cls, dim, rc, fitted)))
        r.append((cls + " checks the basis", ob_badbasis(cls)))
    return r
