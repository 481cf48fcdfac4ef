"""C15 noise and memory reconstruction."""
from lib import *
from rules.estref import *
from rules.fref import *

RULE = ("memory = minus the quadrature of kernel times past features over min(elapsed, kernel length) points, "
        "noise = observable - mean force - memory, and the noise correlations average left operator times orthogonally "
        "evolved noise over all starting points")

Ker = lambda j, k, x: el("kernel", topoly(j), const(k), const(x))
Ef = lambda n, k: el("e", topoly(n), const(k))


def mem_ref(kind, n, dt, M, E, K, nb):
    """memory at time n (a P), kernel points 0..M (M a P): list of (facts, value)"""
    R = range(nb)
    tot = lambda lo, hi: sum((sum_(lo, hi, lambda j: E(n - j, k) * K(j, k)) for k in R), const(0))
    one = lambda j: sum((E(n - j, k) * K(j, k) for k in R), const(0))
    out = []
    for last, f in ((n, c_le(n, M)), (topoly(M), c_lt(topoly(M), n))):
        v = tot(0, last + 1)
        if kind == "trapz":
            v = v - one(const(0)) / 2 - one(last) / 2
        if f.op != "false":
            out.append((f, -dt * v))
    return out


def fort(kind, nb, dx, M):
    def f(c):
        Bounds.pos.add("Lt")
        Bounds.pos.add("Lm")
        L = sym("Lt")
        LM = sym("Lm") if M is None else const(M)
        dt = sym("dt")
        r = Routine(c, "memory_" + kind, dict(lentraj=L, len_mem=LM, dim_basis=nb, dim_x=dx, dt=dt), [])
        c.eq("number of points", c.T(r.out["memory"]).axes[0].ext, L + 1)
        for x in range(dx):
            c.eq("no memory at the start[%d]" % x, r.value((const(0), x)), const(0))
            n = fresh_iv()
            Bounds.iv[n] = (const(0), L)
            n = iv(n) + 1
            for fact, w in mem_ref(kind, n, dt, LM,  lambda t, k: el("e", t, const(k)), lambda j, k: el("kernel", topoly(j), const(k), const(x)), nb):
                v = r.value((n, x), strict=True)
                c.eq("memory at a later time, %s[%d]" % (fact, x), v, w, [(fact, True)])
    return f


def corrs(kind, nb, dx, do, M):
    """noise correlations unrolled over M+1 kernel points, any trajectory length"""
    def f(c):
        Bounds.pos.add("Lt")
        L = sym("Lt")
        dt = sym("dt")
        r = Routine(c, "corrs_" + kind, dict(lentraj=L, len_mem=M, dim_basis=nb, dim_x=dx, dim_obs=do, dt=dt), [(c_le(const(M), L), True)])
        npt = M + 1 if kind == "rect" else M
        c.shape("correlation", r.out["corrs"], npt, do, dx)
        for n in range(npt):
            for o in range(do):
                for x in range(dx):
                    c.eq("point %d [%d,%d]" % (n, o, x), r.value((const(n), o, x)), corr_ref(kind, n, L + 1, dt, lambda t: el("left_op", t, const(o)), lambda t: el("noise_init", t, const(x)), lambda t, k: el("e", t, const(k)), lambda j, k: el("kernel", topoly(j), const(k), const(x)), nb), r.facts)
    return f


def corr_ref(kind, n, N, dt, left, noise, E, K, nb):
    """average over start t of left(t) * noise after n steps; N samples"""
    def evolved(t):
        v = noise(t + n)
        for m in range(n):
            for k in range(nb):
                if kind == "rect":
                    v = v + dt * E(t + (n - m), k) * K(m, k)
                else:
                    v = v + dt / 2 * (E(t + (n - m), k) * K(m, k) + E(t + (n - m - 1), k) * K(m + 1, k))
        return v
    return sum_(0, N - n, lambda t: left(t) * evolved(t)) / (N - n)


METHODS = [("rect", "rect"), ("rectangular", "rect"), ("second_kind_rect", "rect"), (None, "rect"), ("trapz", "trapz"), ("second_kind_trapz", "trapz")]


def prepared(c, cls, dim, rc, M, rp=False, L_obs=None, method=None):
    """model with given mean force and kernel coefficients"""
    m = Mod(c, cls, dim, 1 if cls == "Pos_gle_with_friction" and dim == 2 else 2, rc, True, L_obs=L_obs)
    nf, nk = len(m.force()), len(m.kern()[0])
    obsdim = "dim_x"
    fc = c.da("fc", ["dim_basis", obsdim], [nf, dim])
    c.I.setattr(m.m, "force_coeff", fc)
    nk_ = nk
    if rp:
        nk_ = nk - 1
        c.I.setattr(m.m, "P_range", c.da("prange", ["dim_basis", "dim_basis_old"], [nk_, nk]))
        c.I.setattr(m.m, "rank_projection", bool_(True))
    else:
        c.I.setattr(m.m, "rank_projection", bool_(False))
    ker = c.da("kr", ["time_kernel", "dim_basis", obsdim], [M, nk_, dim], coords={"time_kernel": c.arr("tker", M)})
    c.I.setattr(m.m, "kernel", ker)
    c.I.setattr(m.m, "method", K(method))
    E = m.kern()[0]
    if rp:
        E0 = E
        E = [lambda n, l=l: sum((el("prange", const(l), const(k)) * E0[k](n) for k in range(nk)), const(0)) for l in range(nk_)]
    return m, E


def noise(cls, dim, rc, M, method, kind, rp=False, L_obs=None, trunc=None, window=False):
    def f(c):
        N = sym("N")
        m, E = prepared(c, cls, dim, rc, M, rp, L_obs, method)
        tr = c.traj("xva", dim=dim)
        kw = {}
        npt = M
        if trunc == "arg":
            kw["trunc_kernel"] = S(M - 1)
            npt = M - 1
        elif trunc == "model":
            c.I.setattr(m.m, "trunc_ind", S(M - 1))
            npt = M - 1
        else:
            c.I.setattr(m.m, "trunc_ind", S(M))
        off, num = const(0), N
        facts = [(c_le(const(3), N), True)]
        if window:
            s, e = sym("Start"), sym("End")
            facts += [(c_le(const(0), s), True), (c_le(s + 3, e), True), (c_le(e, N), True)]
            kw["start_point"], kw["end_point"] = S(s), S(e)
            off, num = s, e - s
        c.I.fkfacts = list(facts)
        r = c.meth(m.m, "compute_noise", tr, **kw)
        time, ns, obs, force, mem = [c.T(c.I.getitem(r, S(i))) for i in range(5)]
        n = Ax(num).p()
        at = lambda t, i=None: subst(t.body, {t.axes[0].v: n, **({t.axes[1].v: const(i)} if i is not None else {})})
        tm = lambda q: el("t", q)
        for nm, t in (("time", time), ("noise", ns), ("observable", obs), ("force", force), ("memory", mem)):
            c.eq("%s: number of samples" % nm, t.axes[0].ext, num, facts)
        c.eq("time starts at the first sample of the trajectory", at(time), tm(off + n) - tm(const(0)), facts)
        dt = tm(off + 1) - tm(off)
        ob = m.L_obs if hasattr(m, "L_obs") else (L_obs or OBS_(m.cls))
        for x in range(dim):
            O = el(ob, off + n, const(x))
            F = sum((h(off + n) * el("fc", const(k), const(x)) for k, h in enumerate(m.force())), const(0))
            c.eq("observable[%d]" % x, at(obs, x), O, facts)
            if len(force.axes) != 2:
                c.bad("mean force[%d]" % x, "the force has dimensions %s, expected one value per time and component" % (force.dims(),))
            else:
                c.eq("mean force[%d]" % x, at(force, x), F, facts)
            rd = lambda p: subst(mem.body, {mem.axes[0].v: p, mem.axes[1].v: const(x)})
            c.eq("no memory at the start[%d]" % x, rd(const(0)), const(0), facts)
            q = fresh_iv()
            Bounds.iv[q] = (const(0), num - 1)
            p = iv(q) + 1
            for fact, w in mem_ref(kind, p, dt, const(npt - 1), lambda t, k: E[k](off + t), lambda j, k: el("kr", topoly(j), const(k), const(x)), len(E)):
                ff = facts + [(fact, True)]
                c.eq("memory %s[%d]" % (fact, x), rd(p), w, ff)
                nv = subst(ns.body, {ns.axes[0].v: p, ns.axes[1].v: const(x)})
                c.eq("noise %s[%d]" % (fact, x), nv, subst(O - F, {n_id(n): p}) - w, ff)
        c.no_mutation("trajectory untouched")
    return f


def n_id(p):
    (m, _), = p.t.items()
    return m[0][0].name


def OBS_(cls):
    return "v" if cls == "Pos_gle_overdamped" else "a"


def pcorr(cls, dim, rc, M, method, kind, rp=False, left="none"):
    def f(c):
        N = sym("N")
        m, E = prepared(c, cls, dim, rc, M, rp, None, method)
        tr = c.traj("xva", dim=dim)
        facts = [(c_le(const(M + 2), N), True)]
        c.I.fkfacts = list(facts)
        dt = el("t", const(1)) - el("t", const(0))
        ob = OBS_(cls)
        F = lambda n, x: sum((h(n) * el("fc", const(k), const(x)) for k, h in enumerate(m.force())), const(0))
        noise0 = lambda n, x: el(ob, n, const(x)) - F(n, x)
        do = dim
        if left == "none":
            lf, kw = noise0, {}
        elif left == "name":
            lf, kw = (lambda n, x: el("v", n, const(x))), dict(left_op=K("v"))
        elif left == "array":
            do = 2
            lf, kw = (lambda n, x: el("lo", n, const(x))), dict(left_op=c.arr("lo", N, 2))
        else:
            lf = lambda n, x: el("x", n, const(x)) * 2
            kw = dict(left_op=c.I.spec("def lop(xva):\n    return 2 * xva['x']\n", "lop"))
        r = c.meth(m.m, "compute_corrs_w_noise", tr, **kw)
        tk, cr = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
        npt = M if kind == "rect" else M - 1
        c.shape("times", tk, npt)
        if c.shape("correlation", cr, npt, do, dim) is None:
            return
        for n in range(npt):
            c.eq("time %d" % n, c.at(tk, n), el("tker", const(n)))
            for o in range(do):
                for x in range(dim):
                    c.eq("point %d [%d,%d]" % (n, o, x), c.at(cr, n, o, x), corr_ref(kind, n, N, dt, lambda t: lf(t, o), lambda t: noise0(t, x), lambda t, k: E[k](t), lambda j, k: el("kr", topoly(j), const(k), const(x)), len(E)), facts)
        c.no_mutation("trajectory untouched")
    return f


def pooled(cls, dim, M, method, kind, n_jobs, ntraj=2, rp=False, left="none"):
    """the estimator's average of the correlations over trajectories of different lengths"""
    def f(c):
        e = Est(c, cls, dim, 2, False, ntraj, n_jobs)
        nf, nk = len(e.force()), len(e.kern(e.tags[0])[0])
        c.I.setattr(e.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [nf, dim]))
        np_ = nk
        if rp:
            np_ = nk - 1
            c.I.setattr(e.m, "P_range", c.da("prange", ["dim_basis", "dim_basis_old"], [np_, nk]))
        c.I.setattr(e.m, "rank_projection", bool_(rp))
        c.I.setattr(e.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [M, np_, dim], coords={"time_kernel": c.arr("tker", M)}))
        c.I.setattr(e.m, "method", K(method))
        facts = [(c_le(const(M + 2), L), True) for L in e.lens]
        c.I.fkfacts = list(facts)
        kw = {} if left == "none" else dict(left_op=K(left))
        r = c.meth(e.e, "compute_projected_corrs", **kw)
        c.eq("number of results", c.I.seqlen(r), const(2))
        tk, cr = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
        npt = M if kind == "rect" else M - 1
        c.shape("times", tk, npt)
        if c.shape("correlation", cr, npt, dim, dim) is None:
            return
        ob = OBS_(cls)

        def one(tag, L, n, o, x):
            fo = e.force(tag)
            E = e.kern(tag)[0]
            if rp:
                E0 = E
                E = [lambda t, l=l: sum((el("prange", const(l), const(k)) * E0[k](t) for k in range(nk)), const(0)) for l in range(np_)]
            noise0 = lambda t, y: el(ob + tag, t, const(y)) - sum((h(t) * el("fc", const(k), const(y)) for k, h in enumerate(fo)), const(0))
            lf = (lambda t: noise0(t, o)) if left == "none" else (lambda t: el(left + tag, t, const(o)))
            dt = el("t" + tag, const(1)) - el("t" + tag, const(0))
            return corr_ref(kind, n, L, dt, lf, lambda t: noise0(t, x), lambda t, k: E[k](t), lambda j, k: el("kr", topoly(j), const(k), const(x)), len(E))

        for n in range(npt):
            c.eq("time %d" % n, c.at(tk, n), el("tker", const(n)), facts)
            for o in range(dim):
                for x in range(dim):
                    c.eq("point %d [%d,%d]" % (n, o, x), c.at(cr, n, o, x), sum((one(t, L, n, o, x) * L for t, L in zip(e.tags, e.lens)), const(0)) / e.tot, facts)
        c.no_mutation("trajectories untouched")
    return f


def rejects(method):
    def f(c):
        m, E = prepared(c, "Pos_gle", 1, False, 3, False, None, method)
        tr = c.traj("xva", dim=1)
        if method in ("midpoint", "midpoint_w_richardson", "other"):
            c.raises("noise", lambda: c.meth(m.m, "compute_noise", tr))
            c.raises("noise correlation", lambda: c.meth(m.m, "compute_corrs_w_noise", tr))
        for what in ("force_coeff", "kernel"):
            m, E = prepared(c, "Pos_gle", 1, False, 3, False, None, "rect")
            c.I.setattr(m.m, what, NONE)
            if what == "force_coeff":
                c.raises("noise without %s" % what, lambda: c.meth(m.m, "compute_noise", tr))
            c.raises("noise correlation without %s" % what, lambda: c.meth(m.m, "compute_corrs_w_noise", tr))
    return f


def obligations(tier):
    r = []
    for kind in ("rect", "trapz"):
        for nb, dx in ((1, 1), (2, 1), (1, 2), (2, 2)):
            for M in (None, 0, 1, 2, 3) if kind == "rect" else (None, 1, 2, 3):
                r.append(("memory_%s %d functions %d outputs, kernel %s" % (kind, nb, dx, "of any length" if M is None else "of %d points" % (M + 1)), fort(kind, nb, dx, M)))
        for nb, dx, do in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (1, 1, 2), (1, 2, 1)):
            for M in ((0, 1, 2, 3) if tier == "quick" else (0, 1, 2, 3, 4, 5)):
                if (kind == "trapz" and M == 0) or (M == 3 and (nb, dx, do) != (1, 1, 1) and tier == "quick"):
                    continue
                r.append(("corrs_%s %d functions %d outputs %d left, %d kernel points" % (kind, nb, dx, do, M + 1), corrs(kind, nb, dx, do, M)))
    for method, kind in METHODS:
        r.append(("noise, method %s" % method, noise("Pos_gle", 1, False, 3, method, kind)))
        r.append(("noise correlation, method %s" % method, pcorr("Pos_gle", 1, False, 3, method, kind)))
    for kind in ("rect", "trapz"):
        for cls in CLASSES:
            for dim in (1, 2):
                if cls == "Pos_gle_hybrid" and dim == 2:
                    continue
                r.append(("noise of %s dim=%d, %s" % (cls, dim, kind), noise(cls, dim, False, 2, kind, kind)))
                r.append(("noise correlation of %s dim=%d, %s" % (cls, dim, kind), pcorr(cls, dim, False, 3, kind, kind)))
        r.append(("noise with projection on the range, %s" % kind, noise("Pos_gle", 1, False, 2, kind, kind, rp=True)))
        r.append(("noise correlation with projection on the range, %s" % kind, pcorr("Pos_gle", 1, False, 3, kind, kind, rp=True)))
        r.append(("noise with another observable, %s" % kind, noise("Pos_gle", 1, False, 2, kind, kind, L_obs="v")))
        for t in ("arg", "model"):
            r.append(("noise with truncated kernel (%s), %s" % (t, kind), noise("Pos_gle", 1, False, 3, kind, kind, trunc=t)))
        r.append(("noise on part of the trajectory, %s" % kind, noise("Pos_gle", 1, False, 2, kind, kind, window=True)))
        for left in ("name", "array", "function"):
            r.append(("correlation of noise and %s, %s" % (left, kind), pcorr("Pos_gle", 1 if left == "array" else 2, False, 3, kind, kind, left=left)))
    for j in (1, 2):
        for kind in ("rect", "trapz"):
            r.append(("average noise correlation, %s n_jobs=%d" % (kind, j), pooled("Pos_gle", 1, 3, kind, kind, j)))
            r.append(("average noise correlation with velocities, %s n_jobs=%d" % (kind, j), pooled("Pos_gle", 1, 2, kind, kind, j, left="v")))
            r.append(("average noise correlation with projection, %s n_jobs=%d" % (kind, j), pooled("Pos_gle", 1, 2, kind, kind, j, rp=True)))
        r.append(("average noise correlation of three trajectories n_jobs=%d" % j, pooled("Pos_gle_const_kernel", 1, 2, "trapz", "trapz", j, ntraj=3)))
        r.append(("average noise correlation in two dimensions n_jobs=%d" % j, pooled("Pos_gle_const_kernel", 2, 2, "rect", "rect", j)))
        r.append(("average noise correlation of one trajectory n_jobs=%d" % j, pooled("Pos_gle", 1, 2, "trapz", "trapz", j, ntraj=1)))
    for mt in ("midpoint", "midpoint_w_richardson", "other"):
        r.append(("rejections, method %s" % mt, rejects(mt)))
    return r
