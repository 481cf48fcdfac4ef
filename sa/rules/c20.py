"""C20 what the estimator derives from the trajectories before anything is computed."""
from lib import *
from rules.estref import *

RULE = ("the data description pools all samples (count, extremes, weighted mean), the basis is fitted with it, step, weights and dimensions "
        "come from the trajectories, the truncation counts the samples up to the shorter of trunc and the shortest trajectory, bad data is rejected")


def mm_(kind, xs):
    r = xs[0]
    for x in xs[1:]:
        r = mk_ap(kind, (r, x))
    return r


def build(c, cls, dim, tags, single=False, n_jobs=1, L_obs=None, fitted=False, trunc=True, vars_="xva"):
    Ns, trs = [], []
    for t in tags:
        Bounds.pos.add("N" + t)
        Ns.append(sym("N" + t))
        trs.append(c.traj(vars_, N="N" + t, dim=dim, tag=t))
    basis = user(c, "f", 2, False)
    if fitted:
        c.meth(basis, "fit", c.describe(dim))
    a = dict(saveall=FALSEV_(), verbose=FALSEV_(), n_jobs=S(n_jobs))
    if trunc:
        a["trunc"] = S(sym("trunc"))
    if L_obs:
        a["L_obs"] = K(L_obs)
    e = c.call(c.get(GE, "Estimator_gle"), trs[0] if single else c.list(trs), c.get(MO, cls), basis, **a)
    return e, Ns, trs, basis



def ob(cls, dim, tags, single, n_jobs, L_obs, trunc):
    def f(c):
        e, Ns, trs, basis = build(c, cls, dim, tags, single, n_jobs, L_obs, False, trunc)
        g = lambda o, n: c.I.getattr(o, n)
        tot = sum(Ns, const(0))
        m = g(e, "model")
        for who in ("stored", "returned"):
            d = g(e, "data_describe") if who == "stored" else c.meth(e, "describe_data")
            c.eq("%s count" % who, c.T(g(d, "nobs")).body, tot)
            mn, mx = c.I.getitem(g(d, "minmax"), S(0)), c.I.getitem(g(d, "minmax"), S(1))
            mean = g(d, "mean")
            for i in range(dim):
                col = []
                for tg, N in zip(tags, Ns):
                    x = c.I.getitem(c.I.getitem(trs[tags.index(tg)], K("x")), Tup([Sl(NONE, NONE, NONE), S(i)]))
                    col.append((c.T(c.I.call(Ext("numpy.min"), [x], {})).body, c.T(c.I.call(Ext("numpy.max"), [x], {})).body))
                c.eq("%s minimum %d" % (who, i), c.at(mn, i), mm_("min", [a for a, _ in col]))
                c.eq("%s maximum %d" % (who, i), c.at(mx, i), mm_("max", [b for _, b in col]))
                s = sum((sum_(const(0), N, lambda n: el("x" + tg, n, const(i))) for tg, N in zip(tags, Ns)), const(0))
                c.eq("%s mean %d" % (who, i), c.at(mean, i), s / tot)
                if who == "stored":
                    b = g(m, "basis")
                    c.eq("basis fitted mean %d" % i, c.at(g(b, "mean"), i), s / tot)
                    c.eq("basis fitted minimum %d" % i, c.at(g(b, "lo"), i), mm_("min", [a for a, _ in col]))
                    c.eq("basis fitted maximum %d" % i, c.at(g(b, "hi"), i), mm_("max", [b for _, b in col]))
        w = c.shape("weights", c.T(g(e, "weights")), len(tags))
        if w is not None:
            for k, N in enumerate(Ns):
                c.eq("weight %d" % k, c.at(w, k), N)
        c.eq("total weight", c.T(g(e, "weightsum")).body, tot)
        c.eq("step", c.T(g(e, "dt")).body, sym("dt" + tags[0]))
        c.eq("model step", c.T(g(m, "dt")).body, sym("dt" + tags[0]))
        c.eq("model dimension", c.T(g(m, "dim_x")).body, const(dim))
        c.eq("model observables", c.T(g(m, "dim_obs")).body, const(dim))
        want = L_obs or {"Pos_gle_no_vel_basis": "v", "Pos_gle_overdamped": "v"}.get(cls, "a")
        lo = g(m, "L_obs")
        (c.ok if isinstance(lo, K) and lo.v == want else (lambda l: c.bad(l, "is %s, expected %s" % (short(lo), want))))("observable")
        T0 = sym("trunc") if trunc else const(1)
        last = mm_("min", [el("t" + tg, N - 1) for tg, N in zip(tags, Ns)])
        lim = mk_ite(c_lt(last, T0), last, T0)
        n = sum_(const(0), Ns[0], lambda n: mk_ite(c_le(el("t" + tags[0], n), lim), const(1), const(0)))
        c.eq("truncation", c.T(g(e, "trunc_ind")).body, n)
        ti = c.T(g(m, "trunc_ind")).body
        c.eq("model truncation", untrunc(ti), n)
        c.no_mutation("trajectories untouched")
    return f


def untrunc(p):
    """int() of a count"""
    mp = {}
    for a in walk(p):
        if isinstance(a, Atom) and a.kind == "ap" and a.name == "trunc":
            mp[a] = a.args[0][0]
    return subst_atoms(p, mp) if mp else p


def sum_(lo, hi, fn):
    v = fresh_iv()
    Bounds.iv[v] = (topoly(lo), topoly(hi))
    return mk_sum(v, topoly(lo), topoly(hi), fn(iv(v)))


def shared(cls):
    """the estimator offers the model's own evaluation methods"""
    def f(c):
        e, Ns, trs, basis = build(c, cls, 1, ["0", "1"])
        m = c.I.getattr(e, "model")
        nf = 4 if cls == "Pos_gle_with_friction" else 2
        c.I.setattr(m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [nf, 1]))
        x = c.arr("x", sym("N"), 1)
        a, b = c.T(c.meth(e, "force_eval", x)), c.T(c.meth(m, "force_eval", x))
        n = Ax(sym("N")).p()
        c.eq("force evaluation through the estimator", c.at(a, n, 0), c.at(b, n, 0))
        r, q = c.meth(e, "basis_vector", trs[0], compute_for=K("force")), c.meth(m, "basis_vector", trs[0], compute_for=K("force"))
        n = Ax(sym("N0")).p()
        tr, tq = c.T(r), c.T(q)
        if c.eq("number of features", tr.axes[1].ext, tq.axes[1].ext):
            for k in range(2):
                c.eq("feature %d through the estimator" % k, c.at(tr, n, k), c.at(tq, n, k))
    return f


def prefit(cls):
    """a basis that is already fitted is used as it is"""
    def f(c):
        e, Ns, trs, basis = build(c, cls, 2, ["0", "1"], fitted=True)
        b = c.I.getattr(c.I.getattr(e, "model"), "basis")
        for i in range(2):
            c.eq("mean %d" % i, c.at(c.I.getattr(b, "mean"), i), el("mean", const(i)))
    return f


def describe(n, dim):
    """pooling of descriptions"""
    def f(c):
        DM = "basis._data_describe"
        cls = c.get(DM, "DescribeResult")
        ds = []
        for k in range(n):
            A = lambda nm: c.arr(nm + str(k), dim)
            ds.append(c.I.instantiate(cls, [S(sym("N%d" % k)), Tup([A("mn"), A("mx")]), A("mean"), A("var"), A("sk"), A("ku")], {}))
            Bounds.pos.add("N%d" % k)
        r = ds[0]
        for d in ds[1:]:
            r = c.call(c.get(DM, "sum_describe"), r, d)
        g = lambda nm: c.I.getattr(r, nm)
        tot = sum((sym("N%d" % k) for k in range(n)), const(0))
        c.eq("count", c.T(g("nobs")).body, tot)
        for i in range(dim):
            c.eq("minimum %d" % i, c.at(c.I.getitem(g("minmax"), S(0)), i), mm_("min", [el("mn%d" % k, const(i)) for k in range(n)]))
            c.eq("maximum %d" % i, c.at(c.I.getitem(g("minmax"), S(1)), i), mm_("max", [el("mx%d" % k, const(i)) for k in range(n)]))
            c.eq("mean %d" % i, c.at(g("mean"), i), sum((el("mean%d" % k, const(i)) * sym("N%d" % k) for k in range(n)), const(0)) / tot)
        c.no_mutation("descriptions untouched")
    return f


def minimal(dim):
    def f(c):
        DM = "basis._data_describe"
        x = c.arr("x", sym("N"), dim)
        for nm in ("minimal_describe", "quick_describe", "describe_from_dim"):
            r = c.call(c.get(DM, nm), S(dim) if nm == "describe_from_dim" else x)
            g = lambda n: c.I.getattr(r, n)
            if nm != "describe_from_dim":
                c.eq("%s count" % nm, c.T(g("nobs")).body, sym("N"))
            for i in range(dim):
                col = c.I.getitem(x, Tup([Sl(NONE, NONE, NONE), S(i)]))
                k = nm == "minimal_describe"
                mn, mx = [c.T(c.I.call(Ext("numpy." + q), [col], {})).body if k else const(0) for q in ("min", "max")]
                s = sum_(const(0), sym("N"), lambda n: el("x", n, const(i))) / sym("N") if k else const(0)
                c.eq("%s minimum %d" % (nm, i), c.at(c.I.getitem(g("minmax"), S(0)), i), mn)
                c.eq("%s maximum %d" % (nm, i), c.at(c.I.getitem(g("minmax"), S(1)), i), mx)
                c.eq("%s mean %d" % (nm, i), c.at(g("mean"), i), s)
            for q in ("variance", "skewness", "kurtosis"):
                c.shape("%s %s" % (nm, q), c.T(g(q)), dim)
        c.no_mutation("data untouched")
    return f


def bad(c):
    EG, basis = c.get(GE, "Estimator_gle"), None
    mk = lambda arg, cls, **kw: (lambda: c.call(EG, arg, c.get(MO, cls), user(c, "f", 2, False), saveall=FALSEV_(), verbose=FALSEV_(), trunc=S(sym("trunc")), **kw))
    good = c.traj("xva", N="N0", dim=1, tag="0")
    Bounds.pos.add("N0")
    Bounds.pos.add("N1")
    t = lambda vs, dims=("time", "dim_x"), attrs=True, tag="1": M.mk_ds(c.I, {v: c.da(v + tag, dims, (sym("N" + tag), 1)) for v in vs}, {dims[0]: c.da("t" + tag, (dims[0],), (sym("N" + tag),))} , c.dict({"dt": S(sym("dt" + tag))} if attrs else {}))
    for cls in CLASSES:
        need = "xv" if cls in ("Pos_gle_no_vel_basis", "Pos_gle_overdamped") else "xva"
        for v in need:
            if v == "x":
                continue        # without positions the description of the data already fails
            have = need.replace(v, "")
            c.raises("%s without %s" % (cls, v), mk(t(have), cls))
            c.raises("%s second trajectory without %s" % (cls, v), mk(c.list([good, t(have)]), cls))
        c.raises("%s without the requested observable" % cls, mk(c.list([good, t(need)]), cls, L_obs=K("w")))
        c.raises("%s second trajectory without the requested observable" % cls,
                 mk(c.list([M.mk_ds(c.I, {v: c.da(v + "0", ("time", "dim_x"), (sym("N0"), 1)) for v in need + "w"}, {"time": c.da("t0", ("time",), (sym("N0"),))}, c.dict({"dt": S(sym("dt0"))})), t(need)]), cls, L_obs=K("w")))
    c.raises("no time dimension", mk(t("xva", ("frame", "dim_x")), "Pos_gle"))
    c.raises("second trajectory without time dimension", mk(c.list([good, t("xva", ("frame", "dim_x"))]), "Pos_gle"))
    c.raises("no step", mk(t("xva", attrs=False), "Pos_gle"))
    c.raises("second trajectory without step", mk(c.list([good, t("xva", attrs=False)]), "Pos_gle"))


def obligations(tier):
    r = []
    for cls in CLASSES:
        for dim in (1, 2):
            for tags, single, nj in ((["0"], True, 1), (["0", "1"], False, 1), (["0", "1", "2"], False, 2)):
                r.append(("%s dim=%d %d trajectories%s" % (cls, dim, len(tags), " (bare)" if single else ""), ob(cls, dim, tags, single, nj, None, True)))
        r.append(("%s default truncation" % cls, ob(cls, 1, ["0", "1"], False, 1, None, False)))
        r.append(("%s own observable" % cls, ob(cls, 2, ["0", "1"], False, 1, "v", True)))
        r.append(("%s methods of the model" % cls, shared(cls)))
        r.append(("%s fitted basis" % cls, prefit(cls)))
    for n in (2, 3):
        for dim in (1, 2, 3):
            r.append(("pooling %d descriptions of dimension %d" % (n, dim), describe(n, dim)))
    for dim in (1, 2, 3):
        r.append(("description of one sample set of dimension %d" % dim, minimal(dim)))
    r.append(("bad data", bad))
    return r
