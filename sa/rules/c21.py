"""C21 saving and loading a model."""
from lib import *
from rules.estref import *
from rules import c19

RULE = ("a model loaded from the data set another one was saved to has the same coefficients, kernel, projection, step, truncation, "
        "observable, dimensions and inversion method, and evaluates identically; neither operation changes the model or the data set")


def fill(c, m, parts, dim, red=None):
    """model m with arbitrary fitted contents; returns the description attribute -> (dims, extents, name)"""
    nf = len(m.force())
    nk = len(m.kern()[0]) if m.cls != "Pos_gle_hybrid" or dim == 1 else None
    rk = nk if red is None else red
    A = {}
    if "force" in parts:
        A["force_coeff"] = (["dim_basis", "dim_x"], [nf, dim], "fc")
    if "gram" in parts:
        A["gram_force"] = (["dim_basis", "dim_basis'"], [nf, nf], "gf")
    if "kernel" in parts:
        A["kernel"] = (["time_kernel", "dim_basis", "dim_x"], [sym("M"), rk, dim], "kr")
    if "range" in parts:
        A["P_range"] = (["dim_basis", "dim_basis_old"], [rk, nk], "P")
    if "mass" in parts:
        A["eff_mass"] = (["dim_x'", "dim_x"], [dim, dim], "mass")
    if "gramk" in parts:
        A["gram_kernel"] = (["dim_basis", "dim_basis'"], [rk, rk], "gk")
    for a, (d, e, nm) in A.items():
        co = {"time_kernel": c.da("tker", ["time_kernel"], [sym("M")])} if a == "kernel" else None
        c.I.setattr(m.m, a, c.da(nm, d, e, coords=co))
    return A, rk


def ob(cls, dim, rc, parts, method, over=None, obs="v"):
    def f(c):
        m = Mod(c, cls, dim, 2, rc, L_obs=obs, extra=dict(trunc_ind=S(sym("R"))))
        red = None
        if "range" in parts:
            red = len(m.kern()[0]) - dim
        A, rk = fill(c, m, parts, dim, red)
        c.I.setattr(m.m, "rank_projection", bool_("range" in parts))
        if method:
            c.I.setattr(m.m, "method", K(method))
        ds = c.meth(m.m, "save_model")
        for a in ("force_coeff", "gram_force", "kernel", "P_range", "eff_mass", "gram_kernel"):
            v = c.I.getattr(m.m, a)
            if a in A:
                c.tens("saved model keeps %s" % a, v, A[a][1], lambda *i: el(A[a][2], *[topoly(x) for x in i]), dims=A[a][0])
        ev = len([e for e in c.I.events if e[0] == "mutate"])
        own = dsown(c, ds)
        kw = dict(over or {})
        b2 = m.basis
        n = c.I.call(c.I.getattr(c.get(MO, cls), "load_model"), [b2, ds], {k: v for k, v in kw.items()})
        g = lambda a: c.I.getattr(n, a)
        for a in ("force_coeff", "gram_force", "kernel", "P_range", "eff_mass", "gram_kernel"):
            v = g(a)
            if a in A:
                c.tens("loaded %s" % a, c.T(v, a), A[a][1], lambda *i: el(A[a][2], *[topoly(x) for x in i]), dims=A[a][0])
            elif v is NONE or (isinstance(v, K) and v.v is None):
                c.ok("%s stays empty" % a)
            else:
                c.bad("%s stays empty" % a, "is %s" % short(v))
        if "kernel" in parts:
            tk = c.T(c.I.getitem(g("kernel"), K("time_kernel")))
            c.tens("loaded kernel times", tk, [sym("M")], lambda t: el("tker", topoly(t)))
        if over and "dt" in over:
            c.eq("step overridden", c.T(g("dt")).body, sym("dt2"))
        else:
            c.eq("loaded step", c.T(g("dt")).body, sym("dt"))
        c.eq("loaded dimension", c.T(g("dim_x")).body, const(dim))
        c.eq("loaded observables", c.T(g("dim_obs")).body, const(dim))
        ti = c.T(g("trunc_ind")).body
        c.eq("loaded truncation", untr(ti), sym("R"))
        lo = g("L_obs")
        (c.ok if isinstance(lo, K) and lo.v == obs else (lambda l: c.bad(l, "is %s, expected %s" % (short(lo), obs))))("loaded observable")
        mt = g("method")
        want = method
        if isinstance(mt, K):
            (c.ok if mt.v == want else (lambda l: c.bad(l, "is %r, expected %r" % (mt.v, want))))("loaded method")
        else:
            c.und("loaded method", short(mt))
        rp = c.T(g("rank_projection")).body
        rp = mk_ite(rp, const(1), const(0)) if isinstance(rp, Cond) else rp
        old = c.T(c.I.getattr(m.m, "rank_projection")).body
        old = mk_ite(old, const(1), const(0)) if isinstance(old, Cond) else old
        c.eq("loaded projection switch", rp, old)
        for a in ("N_basis_elt", "N_basis_elt_force", "N_basis_elt_kernel"):
            c.eq("loaded %s" % a, c.T(g(a)).body, c.T(c.I.getattr(m.m, a)).body)
        cn = c.I.h(n).cls
        (c.ok if cn.name == cls else (lambda l: c.bad(l, "is %s" % cn.name)))("class of the loaded model")
        # the saved data set is as before
        aft = dsown(c, ds)
        (c.ok if aft == own else (lambda l: c.bad(l, "was %s, is %s" % (own, aft))))("loading leaves the data set alone")
        # same evaluations
        N = sym("N")
        x = c.arr("x", N, dim)
        if "force" in parts:
            same(c, "force evaluation", c.meth(n, "force_eval", x), c.meth(m.m, "force_eval", x), N)
        if "kernel" in parts and not (cls == "Pos_gle_hybrid" and dim == 2):
            same(c, "kernel evaluation", c.meth(n, "kernel_eval", x), c.meth(m.m, "kernel_eval", x), N)
        # saving the loaded model gives the same contents
        d2 = c.meth(n, "save_model")
        own2 = dsown(c, d2)
        if not over:
            k1, k2 = sorted(own[0]), sorted(own2[0])
            (c.ok if k1 == k2 else (lambda l: c.bad(l, "variables %s, then %s" % (k1, k2))))("saving again stores the same variables")
        c.no_mutation("inputs untouched")
    return f


def untr(p):
    mp = {a: a.args[0][0] for a in walk(p) if isinstance(a, Atom) and a.kind == "ap" and a.name == "trunc"}
    return subst_atoms(p, mp) if mp else p


def dsown(c, ds):
    o = c.I.h(ds)
    at = c.I.h(o.attrs)
    return (sorted(o.vars), sorted(o.coords), sorted((k.v, short(v) if not isinstance(v, T) else str(c.I.d(v).body)) for k, v in at.items))


def same(c, label, a, b, N):
    ta, tb = c.T(a), c.T(b)
    if len(ta.axes) != len(tb.axes) or ta.dims() != tb.dims():
        c.bad(label, "dimensions %s and %s" % (ta.dims(), tb.dims()))
        return
    c.tens(label, ta, [x.ext for x in tb.axes], lambda *i: c.at(tb, *i))


def obligations(tier):
    r = []
    full = ("force", "gram", "kernel", "mass", "gramk")
    for cls in CLASSES:
        for dim in (1, 2):
            if cls == "Pos_gle_hybrid" and dim == 2:
                continue
            for rc in (False, True):
                if rc and cls in FORCED:
                    continue
                s = "%s dim=%d const removed=%s" % (cls, dim, rc)
                r.append(("round trip %s" % s, ob(cls, dim, rc, full, "trapz")))
                r.append(("round trip %s without kernel" % s, ob(cls, dim, rc, ("force", "gram"), None)))
                if dim == 1:
                    r.append(("round trip %s before any fit" % s, ob(cls, dim, rc, (), None)))
                    for mt in ("rect", "second_kind_rect"):
                        r.append(("round trip %s, method %s" % (s, mt), ob(cls, dim, rc, ("force", "kernel"), mt, obs="a")))
                    r.append(("round trip %s, another step" % s, ob(cls, dim, rc, ("force", "kernel"), "rect", over=dict(dt=S(sym("dt2"))))))
                if cls in ("Pos_gle", "Pos_gle_with_friction") and not rc:
                    r.append(("round trip %s with projection on the range" % s, ob(cls, dim, rc, ("force", "gram", "kernel", "range"), "trapz")))
    return r
