"""C26 free energy and binned averages from trajectories."""
from lib import *
from rules.bases import bool_

RULE = ("every frame of every trajectory falls in exactly one of the requested equal bins between the smallest and largest position; histogram, "
        "averages per bin, free energy, force and mass are computed from the pooled bins")

TAIL = '''
def tail(xfa, cnt, sa, sv2, total, tv2, kT):
    pf = cnt / total
    nz = np.nonzero(pf)
    x = xfa[nz]
    p = pf[nz]
    fe = -np.log(p)
    fe = fe - np.min(fe)
    s = scipy.interpolate.splrep(x, fe, s=0)
    f = -kT * scipy.interpolate.splev(x, s, der=1) / (tv2 / total)
    m = (sv2 / cnt)[nz]
    t = scipy.interpolate.splev(x, scipy.interpolate.splrep(x, m * p, s=0), der=1) / p
    return x, fe, f, (sa / cnt)[nz], t, m
'''


def edges_of(c, nt, B, Ns):
    """symbolic edges of B equal bins"""
    I = c.I
    mn = [I.call(Ext("numpy.min"), [T_([Ns[k]], lambda t, k=k: el("x%d" % k, t, const(0)))], {}) for k in range(nt)]
    mx = [I.call(Ext("numpy.max"), [T_([Ns[k]], lambda t, k=k: el("x%d" % k, t, const(0)))], {}) for k in range(nt)]
    lo = I.sc(I.call(Ext("numpy.min"), [c.list(mn)], {}))
    hi = I.sc(I.call(Ext("numpy.max"), [c.list(mx)], {}))
    return lambda k: lo + (hi - lo) * topoly(k) / B


def T_(ns, f):
    axs = [Ax(n) for n in ns]
    return T(axs, f(*[a.p() for a in axs]))


def histogram(nt, B, hist, kind="int"):
    def f(c):
        I = c.I
        sym("nan")
        Ns = [sym("N%d" % k) for k in range(nt)]
        for n in Ns:
            Bounds.pos.add(n)
        Bp = sym("B") if B is None else const(B)
        Bounds.pos.add("B")
        trajs = [c.traj("xva", "N%d" % k, 1, tag=str(k)) for k in range(nt)]
        fn = c.get("", "compute_1d_fe")
        kw = {}
        if hist:
            kw["hist"] = bool_(True)
        kT = const(2494) / 1000
        if not hist:
            kw["kT"] = S(sym("kT"))
            kT = sym("kT")
        if kind == "str":
            cat = I.call(Ext("numpy.concatenate"), [c.list([T_([Ns[k], 1], lambda t, d, k=k: el("x%d" % k, t, d)) for k in range(nt)])], {})
            E = I.d(I.call(Ext("numpy.histogram_bin_edges"), [cat], {"bins": K("auto")}))
            e = lambda k: subst(E.body, {E.axes[0].v: topoly(k)})
            Bp = E.axes[0].ext - 1
            kw["bins"] = K("auto")
        else:
            e = edges_of(c, nt, Bp, Ns)
            kw["bins"] = S(Bp)
        r = c.call(fn, c.list(trajs), **kw)
        if not isinstance(r, Tup):
            return c.und("result", "not a tuple")

        def total(v, b=None):
            s = const(0)
            for k in range(nt):
                j = fresh_iv()
                Bounds.iv[j] = (const(0), Ns[k])
                x = el("x%d" % k, iv(j), const(0))
                w = v(k, iv(j))
                if b is not None:
                    first = c_and(c_eq(topoly(b), const(0)), c_eq(x, e(b)))
                    w = mk_ite(c_and(c_or(c_lt(e(b), x), first), c_le(x, e(topoly(b) + 1))), w, const(0))
                s = s + mk_sum(j, const(0), Ns[k], w)
            return s
        one = lambda k, t: const(1)
        v2 = lambda k, t: el("v%d" % k, t, const(0)) * el("v%d" % k, t, const(0))
        ac = lambda k, t: el("a%d" % k, t, const(0))
        over = lambda g: (lambda j: mk_sum(j, const(0), Bp, g(iv(j))))(fresh_iv())
        cnt = lambda b: total(one, b)
        # every frame is in exactly one bin: sums over the bins and over the frames are the same
        nall = sum(Ns, const(0))
        mid = lambda b: (e(b) + e(topoly(b) + 1)) / 2
        if hist:
            if len(r.items) != 2:
                return c.bad("result", "%d values" % len(r.items))
            c.tens("bin centres", r.items[0], [Bp], mid)
            c.any_of(*[lambda n=n: c.tens("share of the frames", r.items[1], [Bp], lambda b: cnt(b) / n) for n in (over(cnt), nall)])
        else:
            if len(r.items) != 6:
                return c.bad("result", "%d values" % len(r.items))
            A = lambda g: T_([Bp], g)
            tl = I.spec(TAIL, "tail")
            refs = [I.call(tl, [A(mid), A(cnt), A(lambda b: total(ac, b)), A(lambda b: total(v2, b)), S(n), S(v), S(kT)], {})
                    for n, v in ((over(cnt), over(lambda b: total(v2, b))), (nall, total(v2)), (over(cnt), total(v2) * over(cnt) / nall))]
            for k, nm in enumerate(("bin centres", "free energy", "force", "mean acceleration", "total force", "mean square velocity")):
                g = c.T(r.items[k])
                ws = [I.d(ref.items[k]) for ref in refs]
                c.any_of(*[lambda w=w: c.tens(nm, g, [w.axes[0].ext], lambda i: subst(w.body, {w.axes[0].v: topoly(i)})) for w in ws])
        c.no_mutation("trajectories untouched")
    return f


def obligations(tier):
    out = []
    for nt in (1, 2):
        for kind in ("int", "str"):
            for hist in (True, False):
                out.append(("%s of %d trajectories, bins %s" % ("histogram" if hist else "free energy", nt, "automatic" if kind == "str" else "given"), histogram(nt, None, hist, kind)))
    return out
