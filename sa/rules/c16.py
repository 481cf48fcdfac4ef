"""C16 projection on the range of the kernel basis."""
from lib import *
from rules.c11 import *
from rules.c15 import prepared
from rules.c10 import cols

AGED = 4
REUSED = 4
RULE = ("with projection on, correlations, kernel features and Gram matrix are all expressed in the same reduced basis: rows of P "
        "applied once to every feature index; P consists of the leading left singular vectors of the lag-zero correlation")


def ob(cls, dim, second=True, dims_dep=1, n_jobs=1):
    def f(c):
        nc = 2
        q = Corr(c, cls, dim, False, 2, n_jobs, nc=nc)
        nk, nr = q.nk, max(1, q.nk - dims_dep)
        P_ = c.da("prange", ["dim_basis", "dim_basis_old"], [nr, nk])
        seen = []

        def setp(I, args, kw):
            seen.append((args, kw))
            I.setattr(q.e.m, "P_range", P_)
            return P_
        c.I.setattr(q.e.m, "rank_projection", bool_(True))
        c.I.setattr(q.e.m, "_set_range_projection", Opq("_set_range_projection", hook=("call", setp)))
        c.on_before = seen.clear
        kw = {} if second else dict(second_order_method=bool_(False))
        c.meth(q.e.e, "compute_corrs", rank_tol=S(sym("tol")), **kw)
        if len(seen) != 1:
            c.bad("projection computed once", "%d times" % len(seen))
            return
        a, k = seen[0]
        vals = list(a) + list(k.values())
        c.eq("tolerance handed on", c.I.num(vals[0]).body, sym("tol"))
        b0 = c.T(vals[1])
        if len(b0.axes) == 2:
            for i in range(nk):
                for j in range(nk):
                    c.eq("projection from the lag zero correlation[%d,%d]" % (i, j), c.at(b0, i, j), q.bkbk(i, j, const(0)), q.facts)
        else:
            c.bad("projection from the lag zero correlation", "rank %d" % len(b0.axes))
        p = lambda r, k: el("prange", const(r), const(k))
        one = lambda fn: (lambda r, x, lag: sum((p(r, k) * fn(k, x, lag) for k in range(nk)), const(0)))
        two = lambda fn: (lambda r, s, lag: sum((p(r, k) * p(s, l) * fn(k, l, lag) for k in range(nk) for l in range(nk)), const(0)))
        v = fresh_iv()
        Bounds.iv[v] = (const(0), q.R)
        ls = [("any lag", iv(v))]
        chk(c, q, "bkdxcorrw", one(q.bkdx), [nr, dim], ls)
        chk(c, q, "bkbkcorrw", two(q.bkbk), [nr, nr], ls)
        if second:
            chk(c, q, "dotbkdxcorrw", one(q.dbkdx), [nr, dim], ls)
            chk(c, q, "dotbkbkcorrw", two(q.dbkbk), [nr, nr], ls)
        else:
            t = c.T(c.I.getattr(q.e.e, "dotbkdxcorrw"))
            z = c.T(c.I.call(c.I.getattr(t, "isel"), [], dict(time_trunc=S(0))))
            c.tens("derivative correlation at lag zero", z, [nr, dim], lambda r, x: one(q.dbkdx)(r, x, const(0)), dims=["dim_basis", "dim_x"])
    return f


def ob_set(nk, tol):
    """the projection matrix itself"""
    def f(c):
        m = Mod(c, "Pos_gle", 1, nk, False, True)
        B0 = c.da("b0", ["dim_basis'", "dim_basis"], [nk, nk])
        kw = [S(sym("tol"))] if tol else [NONE]
        svd = c.I.call(Ext("numpy.linalg.svd"), [B0], {})
        U, S_ = c.T(c.I.getitem(svd, S(0))), c.T(c.I.getitem(svd, S(1)))
        t = sym("tol")
        if not tol:
            mx = c.T(c.I.call(Ext("numpy.max"), [S_], {})).body
            t = mx * nk * c.I.num(c.I.getattr(c.I.call(Ext("numpy.finfo"), [Ext("numpy.float64")], {}), "eps")).body
        rank = sum((mk_ite(c_lt(t, c.at(S_, i)), const(1), const(0)) for i in range(nk)), const(0))
        for r in range(1, nk + 1):
            # assume the rank
            c.I.pc = [c_lt(t, c.at(S_, i)) if i < r else c_le(c.at(S_, i), t) for i in range(nk)]
            facts = [(x, True) for x in c.I.pc]
            v = c.T(c.meth(m.m, "_set_range_projection", *(kw + [B0])))
            st = c.T(c.I.getattr(m.m, "P_range"))
            for nm, w in (("returned", v), ("kept by the model", st)):
                if tuple(w.dims()) != ("dim_basis", "dim_basis_old"):
                    c.bad("rank %d %s dimensions" % (r, nm), str(w.dims()))
                    continue
                c.eq("rank %d %s rows" % (r, nm), w.axes[0].ext, const(r), facts)
                c.eq("rank %d %s columns" % (r, nm), w.axes[1].ext, const(nk), facts)
                for i in range(r):
                    for j in range(nk):
                        c.eq("rank %d %s[%d,%d]" % (r, nm, i, j), c.at(w, i, j), const(1 if i == j else 0) if r == nk else c.at(U, j, i), facts)
            c.I.pc = []
    return f


def ob_features(cls, dim):
    """kernel evaluation and noise use the features of the reduced basis"""
    def f(c):
        m, E = prepared(c, cls, dim, False, 2, True, None, "rect")
        N = sym("N")
        nk = len(m.kern()[0])
        x = c.da("xe", ["time", "dim_x"], [N, dim])
        e = c.call(c.get(MO, "matmulPrange"), c.da("prange", ["dim_basis", "dim_basis_old"], [nk - 1, nk]), c.da("ee", ["time", "dim_basis"], [N, nk]))
        t = c.T(e)
        if sorted(map(str, t.dims())) != ["dim_basis", "time"]:
            c.bad("reduced features", "dimensions %s" % (t.dims(),))
            return
        n = Ax(N).p()
        d = list(t.dims())
        for r in range(nk - 1):
            c.eq("reduced feature %d" % r, subst(t.body, {t.axes[d.index("time")].v: n, t.axes[d.index("dim_basis")].v: const(r)}),
                 sum((el("prange", const(r), const(k)) * el("ee", n, const(k)) for k in range(nk)), const(0)))
    return f


def ob_gram(cls, dim):
    def f(c):
        q = Corr(c, cls, dim, False, 2, nc=2)
        keval = {t: q.e.keval_tag(t) for t in q.e.tags}
        nk = len(keval[q.e.tags[0]])
        c.I.setattr(q.e.m, "rank_projection", bool_(True))
        c.I.setattr(q.e.m, "P_range", c.da("prange", ["dim_basis", "dim_basis_old"], [nk - 1, nk]))
        c.meth(q.e.e, "compute_gram_kernel")
        g = c.T(c.I.getattr(q.e.m, "gram_kernel"))
        p = lambda r, k: el("prange", const(r), const(k))
        gram = lambda k, l: q.e.mean(lambda n, t: sum((keval[t][k][i](n) * keval[t][l][i](n) for i in range(dim)), const(0)))
        c.tens("reduced Gram matrix", g, [nk - 1, nk - 1], lambda r, s: sum((p(r, k) * p(s, l) * gram(k, l) for k in range(nk) for l in range(nk)), const(0)))
    return f


def obligations(tier):
    r = []
    for cls in ("Pos_gle", "Pos_gle_with_friction", "Pos_gle_no_vel_basis", "Pos_gle_overdamped"):
        for dim in (1, 2) if cls == "Pos_gle" or tier == "thorough" else (1,):
            r.append(("correlations %s dim=%d" % (cls, dim), ob(cls, dim)))
        r.append(("correlations %s without second order" % cls, ob(cls, 1, False)))
        r.append(("reduced features %s" % cls, ob_features(cls, 1)))
        r.append(("reduced Gram matrix %s" % cls, ob_gram(cls, 1)))
    r.append(("correlations Pos_gle two jobs", ob("Pos_gle", 1, True, 1, 2)))
    for nk in (2, 3):
        for tol in (True, False):
            r.append(("projection matrix of %d functions, %s" % (nk, "given tolerance" if tol else "default tolerance"), ob_set(nk, tol)))
    return r
