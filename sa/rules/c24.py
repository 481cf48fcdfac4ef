"""C24 coloured noise: spectral square root of the symmetrised kernel, Karhunen-Loeve factor, covariance matrices."""
from lib import *
from models import ppow
from rules.bases import bool_

RULE = ("the generated noise is white noise convolved with the inverse transform of the square root of the transform of the even kernel (scaled by sqrt(dt)), "
        "or, from a covariance matrix, the eigenvectors times the root eigenvalues times white noise")
GI = "gle_integrate"


def rng(I, args, kw):
    n = kw.get("size", args[0] if args else None)
    a = Ax(I.sc(n))
    return I.mkbuf(T([a], el("white", a.p())))


def RNG():
    return Opq("rng", hook=("call", rng))


def white(ext):
    a = Ax(ext)
    return T([a], el("white", a.p()))


def spec_filter(c, kern, M):
    """kern(i) -> P for i=0..M-1 concrete; result: tensor of 2M-1 values"""
    n = 2 * M - 1
    ks = c.I.call(Ext("numpy.array"), [c.list([S(kern(abs(i - (M - 1)))) for i in range(n)])], {})
    f = c.I.spec("""
import numpy as np
def filt(ks, n, dt, t0):
    w = 2 * np.pi * np.fft.fftfreq(n) / dt
    root = np.sqrt(np.fft.fft(ks) * dt * np.exp(-1j * w * t0))
    return np.fft.ifft(root * np.exp(1j * w * t0)).real / dt
""", "filt", {})
    dt = sym("dt")
    return c.I.call(f, [ks, S(n), S(dt), S(-dt * (M - 1))], {})


def conv_same(c, a, b):
    return c.T(c.I.call(Ext("numpy.convolve"), [a, b], {"mode": K("same")}))


def colored(M, dim, size, col=False):
    def f(c):
        kr = c.arr("kr", M, dim, dim)
        tk = c.I.mkbuf(tax(M, sym("dt")))
        if col:
            tk = c.I.call(Ext("numpy.reshape"), [tk, Tup([S(M), S(1)])], {})
        g = c.call(c.get(GI, "ColoredNoiseGenerator"), kr, tk, rng=RNG())
        n = max(size, 2 * M - 1)
        for rep in ("", " again"):
            w = c.meth(g, "generate", S(size))
            if c.shape("noise" + rep, w, size, dim) is None:
                return
            for d in range(dim):
                flt = spec_filter(c, lambda i: el("kr", const(i), const(d), const(d)), M)
                ref = conv_same(c, white(size), flt)
                for i in range(min(size, 3)):
                    c.eq("sample%s %d of component %d" % (rep, i, d), c.at(w, i, d), c.at(ref, i) * ppow(sym("dt"), const(1) / 2))
        c.no_mutation("kernel and times untouched")
    return f


def kl(nsize):
    def f(c):
        Bounds.pos.add("L")
        kr = c.arr("kr", sym("L"), sym("L"))
        g = c.call(c.get(GI, "KarhunenLoeveNoiseGenerator"), kr, S(sym("dt")), rng=RNG())
        L = sym("L")
        size = None if nsize is None else (L - 1 if nsize == "less" else L if nsize == "same" else L + 1)
        if nsize == "more":
            c.raises("longer than the kernel", lambda: c.meth(g, "generate", S(size)))
            return
        e = c.I.call(Ext("numpy.linalg.eig"), [kr], {})
        lam, vec = e.items
        lam, vec = c.T(lam), c.T(vec)
        for rep in ("", " again"):
            w = c.meth(g, "generate", *([] if size is None else [S(size)]))
            n = L if size is None else size
            if c.shape("noise" + rep, w, n) is None:
                return
            w = c.T(w)
            j = fresh_iv()
            Bounds.iv[j] = (const(0), L)
            i = w.axes[0].p()
            ref = mk_sum(j, const(0), L, c.at(vec, i, iv(j)) * ppow(c.at(lam, iv(j)), const(1) / 2) * el("white", iv(j)))
            c.eq("noise is root of the covariance times white noise" + rep, w.body, ref * ppow(sym("dt"), const(1) / 2))
        c.no_mutation("kernel untouched")
    return f


def cov(n, back):
    def f(c):
        kr = c.arr("kr", n)
        G = c.get(GI, "KarhunenLoeveNoiseGenerator")
        a = [kr] + ([c.arr("bk", n - 1)] if back else [])
        m = c.I.call(c.I.getattr(G, "generate_stationary_covariancematrix"), a, {})
        if c.shape("covariance", m, n, n) is None:
            return
        for i in range(n):
            for j in range(n):
                want = el("kr", const(i - j)) if i >= j else el("bk", const(n - 1 - (j - i))) if back else el("kr", const(j - i))
                c.eq("covariance(%d,%d)" % (i, j), c.at(m, i, j), want)
        c.no_mutation("kernel untouched")
    return f


def wired(cls, dim, md):
    """integrators hand the FDT kernel and the kernel times to the generator"""
    def f(c):
        from rules import c23
        M = 3
        s = c23.Sys(c, cls, dim, 1, M)
        c.I.setattr(s.m.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [M, s.red, dim], coords={"time_kernel": times(M)}))
        nm = "Integrator_gle" if cls == "Pos_gle" else "Integrator_gle_const_kernel"
        cn = c.arr("cn", s.red, dim)
        kw = dict(coeffs_noise_kernel=cn, verbose=bool_(False), rng=RNG())
        G = c.get(GI, nm)
        if md == "coefficients":
            ig = c.call(G, NONE, basis=s.m.basis, force_coeff=c.arr("fc", s.nb, dim), kernel=c.arr("kr", M, s.red, dim), dt=S(sym("dt")), **kw)
        else:
            if md == "default coefficients":
                kw.pop("coeffs_noise_kernel")
                c.I.setattr(s.m.m, "inv_mass_coeff", cn)
            ig = c.call(G, s.m.m, **kw)
        n = 2 * M - 1
        w = c.meth(c.I.getattr(ig, "noise_generator"), "generate", S(n))
        if c.shape("noise", w, n, dim) is None:
            return
        for d in range(dim):
            K_ = lambda i: sum((el("cn", const(k), const(d)) * el("kr", const(i), const(k), const(d)) for k in range(s.red)), const(0))
            ref = conv_same(c, white(n), spec_filter(c, K_, M))
            for i in range(2):
                c.eq("sample %d of component %d" % (i, d), c.at(w, i, d), c.at(ref, i) * ppow(sym("dt"), const(1) / 2))
        c.no_mutation("model and coefficients untouched")
    return f


def times(M):
    a = Ax(M, "time_kernel")
    return T([a], a.p() * sym("dt"), True)


def tax(M, dt):
    a = Ax(M)
    return T([a], a.p() * dt)


def obligations(tier):
    r = []
    deep = tier == "thorough"
    for M in (2, 3) + ((4, 5) if deep else ()):
        for dim in (1, 2):
            for size in (1, 2, 2 * M - 1, 2 * M, 2 * M + 3):
                r.append(("coloured noise, kernel of %d points, dim=%d, %d samples" % (M, dim, size), colored(M, dim, size)))
    r.append(("coloured noise, column of times", colored(3, 1, 5, True)))
    for q in (None, "less", "same", "more"):
        r.append(("Karhunen-Loeve %s" % q, kl(q)))
    for n in (1, 2, 3, 4, 5):
        r.append(("stationary covariance of %d points" % n, cov(n, False)))
        r.append(("covariance of %d points with backward kernel" % n, cov(n, True)))
    for cls in ("Pos_gle", "Pos_gle_const_kernel"):
        for dim in (1, 2):
            for md in ("model", "coefficients", "default coefficients"):
                r.append(("noise of the integrator %s dim=%d %s" % (cls, dim, md), wired(cls, dim, md)))
    return r
