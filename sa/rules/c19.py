"""C19 evaluation of the fitted force, friction, free energy, kernel and inverse mass at given points."""
from lib import *
from rules.modelsref import *

RULE = ("every evaluation method returns the features at the given points times the stored (or given) coefficients, the free energy is minus "
        "the antiderivative times the mass over kT shifted to minimum zero, and a missing or ill-shaped coefficient is rejected")


def sz(m):
    return len(m.force())


def coef(c, m, name="fc", rows=None, do=None, obsdim="dim_x"):
    return c.da(name, ["dim_basis", obsdim], [sz(m) if rows is None else rows, m.dim_obs if do is None else do])


def points(c, m, form, N):
    d = m.dim
    if form == "array":
        return c.arr("x", N, d), (lambda n, i: el("x", topoly(n), const(i)))
    if form == "flat":
        return c.arr("x", N), (lambda n, i: el("x", topoly(n)))
    if form == "frame":
        t = M.mk_ds(c.I, {"x": with_buf(c.I, c.da("x", ("time", "dim_x"), (N, d)), "x")}, {}, c.dict({}))
        return t, (lambda n, i: el("x", topoly(n), const(i)))
    raise ValueError(form)


def feat(c, m, k, xv, n, order=0):
    q, i = divmod(k, m.dim)
    key = c07.key("f", q, i, el("mean", const(i)), el("mn", const(i)), el("mx", const(i)))
    return mk_ap("fapp", (key, const(order), xv(n, i)))


def grad(c, m, k, xv, n, i):
    k = m.dk(k)
    return feat(c, m, k, xv, n, 1) if k % m.dim == i else const(0)


def S_(xs):
    return sum(xs, const(0))


def num(I, v):
    t = v
    return t


def force(cls, dim, rc, form, given, do=None):
    def f(c):
        N = sym("N")
        m = Mod(c, cls, dim, 2, rc, dim_obs=do)
        nf = m.nb if cls == "Pos_gle_with_friction" else sz(m)
        do_ = m.dim_obs
        c.I.setattr(m.m, "force_coeff", coef(c, m))
        x, xv = points(c, m, form, N)
        kw = {}
        nm = "fc"
        if given:
            kw["coeffs"] = coef(c, m, "own")
            nm = "own"
        for rep in ("", " again"):
            r = c.T(c.meth(m.m, "force_eval", x, **kw))
            c.tens("force" + rep, r, [N, do_], lambda n, o: S_(feat(c, m, k, xv, n) * el(nm, const(k), const(o)) for k in range(nf)))
        if cls == "Pos_gle_with_friction":
            g = c.T(c.meth(m.m, "friction_force_eval", x))
            c.tens("friction", g, [N, do_, dim], lambda n, o, i: S_(grad(c, m, k, xv, n, i) * el("fc", const(m.nb + k), const(o)) for k in range(m.kept)))
        c.no_mutation("inputs untouched")
    return f


def pmf(cls, dim, rc, form, given, mass, zero, kt):
    def f(c):
        N = const(4) if zero != "no" else sym("N")
        m = Mod(c, cls, dim, 2, rc)
        c.I.setattr(m.m, "force_coeff", coef(c, m))
        x, xv = points(c, m, form, N)
        kw = {}
        nm = "fc"
        if given:
            kw["coeffs"] = coef(c, m, "own", rows=m.nb)
            nm = "own"
        if mass:
            c.I.setattr(m.m, "eff_mass", c.da("mass", ["dim_x'", "dim_x"], [dim, dim]))
        if zero == "no":
            kw["set_zero"] = FALSEV_()
        elif zero == "yes":
            kw["set_zero"] = bool_(True)
        kT = const(1)
        if kt:
            kw["kT"] = S(sym("kT"))
            kT = sym("kT")

        def raw(n, o):
            G = [S_(feat(c, m, k, xv, n, -1) * el(nm, const(k), const(j)) for k in range(m.nb)) for j in range(dim)]
            if mass and cls != "Pos_gle_overdamped":
                return -S_(G[j] * el("mass", const(j), const(o)) for j in range(dim)) / kT
            return -G[o] / kT
        for rep in ("", " again"):
            r = c.T(c.meth(m.m, "pmf_eval", x, **kw))
            if zero == "no":
                c.tens("free energy" + rep, r, [N, dim], raw)
            else:
                t = c.shape("free energy" + rep, r, N, dim)
                if t is None:
                    continue
                # shifted: differences are the unshifted ones ...
                for n in range(4):
                    for o in range(dim):
                        c.eq("free energy difference%s [%d,%d]" % (rep, n, o), c.at(t, n, o) - c.at(t, 0, 0), raw(n, o) - raw(0, 0))
                # ... and the smallest value is zero
                vals = [raw(n, o) for n in range(4) for o in range(dim)]
                sh = c.T(c.I.call(Ext("numpy.min"), [c.T(c.meth(m.m, "pmf_eval", x, **dict(kw, set_zero=FALSEV_())))], {})).body
                c.eq("shift is the minimum" + rep, c.at(t, 0, 0), raw(0, 0) - sh)
        c.no_mutation("inputs untouched")
    return f


def FALSEV_():
    return bool_(False)


def kernel(cls, dim, rc, form, given, proj, M):
    def f(c):
        N = sym("N")
        m = Mod(c, cls, dim, 2, rc)
        ke = len(m.keval())
        nk = ke + (1 if cls == "Pos_gle_hybrid" else 0)
        red = nk
        off = 1 if cls == "Pos_gle_hybrid" else 0
        if proj:
            red = nk - dim
            c.I.setattr(m.m, "rank_projection", bool_(True))
            c.I.setattr(m.m, "P_range", c.da("P", ["dim_basis", "dim_basis_old"], [red, nk]))
        else:
            c.I.setattr(m.m, "rank_projection", bool_(False))
        Mp = topoly(M)
        ker = c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [Mp, red, m.dim_obs], coords={"time_kernel": c.arr("tker", Mp)})
        c.I.setattr(m.m, "kernel", ker)
        x, xv = points(c, m, form, N)
        kw = {}
        nm, Mr = "kr", Mp
        if given:
            Mr = sym("M2")
            Bounds.pos.add("M2")
            kw["coeffs_ker"] = c.da("own", ["time_kernel", "dim_basis", "dim_x"], [Mr, red, m.dim_obs])
            nm = "own"

        def ft(k, n, i):
            if cls in ("Pos_gle", "Pos_gle_with_friction"):
                return grad(c, m, k, xv, n, i)
            if cls == "Pos_gle_const_kernel":
                return const(1 if k == i else 0)
            return feat(c, m, k, xv, n)

        def body(t, o, n, i):
            if proj:
                return S_(el(nm, topoly(t), const(r), const(o)) * el("P", const(r), const(k)) * ft(k, n, i) for r in range(red) for k in range(ke))
            return S_(el(nm, topoly(t), const(k + off), const(o)) * ft(k, n, i) for k in range(ke))
        for rep in ("", " again"):
            r = c.T(c.meth(m.m, "kernel_eval", x, **kw))
            c.tens("kernel" + rep, r, [Mr, m.dim_obs, N, dim], body, dims=["time_kernel", "dim_x", "time", "dim_x'"])
        if cls == "Pos_gle_hybrid":
            k0 = c.T(c.meth(m.m, "get_const_kernel_part"))
            c.tens("position independent part", k0, [Mp, m.dim_obs], lambda t, o: el("kr", topoly(t), const(0), const(o)))
        c.no_mutation("inputs untouched")
    return f


def invmass(cls, dim, rc, form, given):
    def f(c):
        N = sym("N")
        m = Mod(c, cls, dim, 2, rc)
        nf = sz(m)
        mk = lambda nm: c.da(nm, ["dim_basis", "dim_x", "dim_x'"], [nf, dim, dim])
        c.I.setattr(m.m, "inv_mass_coeff", mk("imc"))
        nm, kw = "imc", {}
        if given:
            kw["coeffs"] = mk("own")
            nm = "own"
        x, xv = points(c, m, form, N)
        r = c.T(c.meth(m.m, "inv_mass_eval", x, **kw))
        c.tens("inverse mass", r, [N, dim, dim], lambda n, o, i: S_(feat(c, m, k, xv, n) * el(nm, const(k), const(o), const(i)) for k in range(nf)))
        c.no_mutation("inputs untouched")
    return f


def rejects(cls):
    def f(c):
        m = Mod(c, cls, 1, 2, False)
        x = c.arr("x", sym("N"), 1)
        c.raises("force before it is computed", lambda: c.meth(m.m, "force_eval", x))
        c.raises("free energy before the force is computed", lambda: c.meth(m.m, "pmf_eval", x))
        c.raises("kernel before it is computed", lambda: c.meth(m.m, "kernel_eval", x))
        c.raises("inverse mass before it is computed", lambda: c.meth(m.m, "inv_mass_eval", x))
        c.raises("Laplace transform before the kernel is computed", lambda: c.meth(m.m, "laplace_transform_kernel"))
        if cls == "Pos_gle_with_friction":
            c.raises("friction before it is computed", lambda: c.meth(m.m, "friction_force_eval", x))
        if cls == "Pos_gle_hybrid":
            c.raises("constant part before the kernel is computed", lambda: c.meth(m.m, "get_const_kernel_part"))
        tr = c.traj("xva", N="N", dim=1)
        c.raises("noise before the force is computed", lambda: c.meth(m.m, "compute_noise", tr))
        c.raises("noise correlation before the force is computed", lambda: c.meth(m.m, "compute_corrs_w_noise", tr))
        c.I.setattr(m.m, "force_coeff", coef(c, m))
        c.raises("noise correlation before the kernel is computed", lambda: c.meth(m.m, "compute_corrs_w_noise", tr))
        nf = sz(m)
        for lab, sh in (("too many functions", (nf + 1, 1, 1)), ("too many components", (nf, 2, 1)), ("too few functions", (nf - 1, 1, 1))):
            c.raises("inverse mass with " + lab, lambda: c.meth(m.m, "inv_mass_eval", x, coeffs=c.da("bad", ["dim_basis", "dim_x", "dim_x'"], sh)))
        fo = len(m.force()) if cls != "Pos_gle_hybrid" else nf
        for lab, k in (("too few", fo - 1), ("too many", fo + 1)):
            c.raises("force with %s functions" % lab, lambda: c.meth(m.m, "force_eval", x, coeffs=c.da("bad", ["dim_basis", "dim_x"], [k, 1])))
        if cls == "Pos_gle_overdamped":
            c.raises("free energy with too few functions", lambda: c.meth(m.m, "pmf_eval", x, coeffs=c.da("bad", ["dim_basis", "dim_x"], [nf - 1, 1])))
        if cls != "Pos_gle_hybrid":
            nk = len(m.kern()[0])
            c.I.setattr(m.m, "rank_projection", bool_(False))
            c.I.setattr(m.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [sym("M"), nk, 1]))
            for lab, sh in (("too many functions", (nk + 1, 1)), ("too many components", (nk, 2))):
                c.raises("kernel with " + lab, lambda: c.meth(m.m, "kernel_eval", x, coeffs_ker=c.da("bad", ["time_kernel", "dim_basis", "dim_x"], [sym("M")] + list(sh))))
    return f


def obligations(tier):
    r = []
    for cls in CLASSES:
        for dim in (1, 2):
            for rc in (False, True):
                if rc and cls in FORCED:
                    continue
                s = "%s dim=%d const removed=%s" % (cls, dim, rc)
                forms = ["array"] + (["frame"] if not rc else []) + (["flat"] if dim == 1 and not rc else [])
                for form in forms:
                    r.append(("force %s, %s" % (s, form), force(cls, dim, rc, form, False)))
                if cls != "Pos_gle_with_friction":
                    r.append(("force %s, own coefficients" % s, force(cls, dim, rc, "array", True)))
                    r.append(("inverse mass %s" % s, invmass(cls, dim, rc, "array", False)))
                if not rc:
                    r.append(("force of another observable %s" % s, force(cls, dim, rc, "array", False, 3 - dim)))
                    if cls != "Pos_gle_with_friction":
                        r.append(("inverse mass %s, own coefficients" % s, invmass(cls, dim, rc, "frame", True)))
                for form in forms:
                    r.append(("free energy %s, %s" % (s, form), pmf(cls, dim, rc, form, False, True, "no", True)))
                r.append(("free energy %s, default mass" % s, pmf(cls, dim, rc, "array", False, False, "no", False)))
                r.append(("free energy %s, own coefficients" % s, pmf(cls, dim, rc, "array", True, True, "no", True)))
                r.append(("free energy %s, zero minimum" % s, pmf(cls, dim, rc, "array", False, True, "default", True)))
                if dim == 1:
                    r.append(("free energy %s, zero minimum asked" % s, pmf(cls, dim, rc, "array", False, True, "yes", False)))
                if cls == "Pos_gle_hybrid" and dim == 2:
                    continue        # the model's kernel size is only defined for one coordinate
                for form in forms:
                    r.append(("kernel %s, %s" % (s, form), kernel(cls, dim, rc, form, False, False, sym("M"))))
                if cls != "Pos_gle_hybrid":
                    r.append(("kernel %s, own coefficients" % s, kernel(cls, dim, rc, "array", True, False, sym("M"))))
                if cls in ("Pos_gle", "Pos_gle_with_friction") and not rc:
                    r.append(("kernel %s with projection on the range" % s, kernel(cls, dim, rc, "array", False, True, sym("M"))))
        r.append(("missing and ill-shaped coefficients %s" % cls, rejects(cls)))
    return r
