"""C14 compute_kernel: inputs, post-processing and time axis of every inversion method."""
from lib import *
from rules.estref import *
from rules.c09 import inv_matrix
from rules.c12 import same
import fk

RULE = ("every method hands the stored correlations, the step and the initial value to its inversion routine in the right places, combines "
        "the result as documented, and labels kernel point j with its time; the k-th kernel point and its label have the same count")

ROUT = {"rect": "kernel_first_kind_rect", "rectangular": "kernel_first_kind_rect", "midpoint": "kernel_first_kind_midpoint",
        "midpoint_w_richardson": "kernel_first_kind_midpoint", "trapz": "kernel_first_kind_trapz",
        "second_kind_rect": "kernel_second_kind_rect", "second_kind_trapz": "kernel_second_kind_trapz"}
NEEDK0 = ("trapz", "second_kind_rect", "second_kind_trapz")


class Calls:
    def __init__(self, c):
        self.c, self.calls = c, []
        c.I.fortran = self.hook
        c.on_before = self.calls.clear

    def hook(self, I, name, full):
        un, _ = fk.unit(I, name)
        req, opt, auto, outs = __import__("fortran").f2py_signature(un)
        self.n = getattr(self, "n", -1) + 1
        k = self.n
        self.calls.append((name, {a: (I.num(v) if v is not NONE else v) for a, v in full.items()}, k))
        o = list(outs)[0]
        v = un.vars[o]
        exts = [fk.ev(I, un, full, ub) - fk.ev(I, un, full, lb) + 1 for lb, ub in v.dims]
        nm = "out%d" % k
        alg.INPUTS.add(nm)
        axes = [Ax(e) for e in exts]
        return I.mkbuf(T(axes, el(nm, *[a.p() for a in axes])))


def setup(c, nb, no, R, derivs=True, obsdim="dim_x", short=False):
    e = Est(c, "Pos_gle_overdamped", 1, nb, False, 1)
    c.I.setattr(e.m, "trunc_ind", S(R))
    correlations(c, e, nb, no, R, derivs, obsdim, short)
    return e


def correlations(c, e, nb, no, R, derivs=True, obsdim="dim_x", short=False):
    c.I.setattr(e.e, "dt", S(sym("dt")))
    B = c.da("B", ["dim_basis'", "dim_basis", "time_trunc"], [nb, nb, R])
    D = c.da("D", ["dim_basis", obsdim, "time_trunc"], [nb, no, R])
    c.I.setattr(e.e, "bkbkcorrw", B)
    c.I.setattr(e.e, "bkdxcorrw", D)
    if derivs:
        c.I.setattr(e.e, "dotbkbkcorrw", c.da("dB", ["dim_basis'", "dim_basis", "time_trunc"], [nb, nb, R]))
        if short:
            c.I.setattr(e.e, "dotbkdxcorrw", c.da("dD0", ["time_trunc", "dim_basis", obsdim], [1, nb, no]))
        else:
            c.I.setattr(e.e, "dotbkdxcorrw", c.da("dD", ["dim_basis", obsdim, "time_trunc"], [nb, no, R]))
    else:
        c.I.setattr(e.e, "dotbkdxcorrw", NONE)
        c.I.setattr(e.e, "dotbkbkcorrw", NONE)


def argcheck(c, label, t, exts, body):
    c.tens(label, t, exts, body)


def ob(method, nb, no, R, k0="none", derivs=True, obsdim="dim_x", short=False, default=False, prior=None):
    def f(c):
        Bounds.pos.add("R")
        Rp = topoly(R)
        if Rp.const() is None:
            c.I.pc.append(c_le(const(4), Rp))
        facts = [(x, True) for x in c.I.pc]
        e = setup(c, nb, no, Rp, derivs, obsdim, short)
        dt = sym("dt")
        cl = Calls(c)
        if prior:     # the same estimator used for other correlations and another method before
            PAST[0] = "_old"
            try:
                correlations(c, e, nb, no, Rp, derivs, obsdim, short)
                c.meth(e.e, "compute_kernel", method=K(prior))
            finally:
                PAST[0] = ""
            correlations(c, e, nb, no, Rp, derivs, obsdim, short)
            del cl.calls[:]
        kw = {} if default else dict(method=K(method))
        if k0 == "given":
            kw["k0"] = c.arr("k0", nb, no)
            k0v = lambda i, x: el("k0", topoly(i), topoly(x))
        else:
            inv = inv_matrix(c, nb, lambda i, j: el("B", const(i), const(j), const(0)))
            d0 = (lambda k, x: el("dD0", const(0), topoly(k), topoly(x))) if short else (lambda k, x: el("dD", topoly(k), topoly(x), const(0)))
            k0v = lambda i, x: sum((c.at(inv, i, k) * d0(const(k), x) for k in range(nb)), const(0))
        r = c.meth(e.e, "compute_kernel", **kw)
        same(c, "the model is returned", r, e.m)
        mt = c.I.getattr(e.m, "method")
        (c.ok if isinstance(mt, K) and mt.v == method else (lambda l: c.bad(l, "is %s" % short_(mt))))("method recorded")
        want = 2 if method == "midpoint_w_richardson" else 1
        mine = [k for k in cl.calls if k[0] == ROUT[method]]
        if len(mine) < want:
            if len(mine) < len(cl.calls) or mine:
                c.bad("inversion routine", "calls %s, expected %d of %s" % ([k[0] for k in cl.calls], want, ROUT[method]))
            else:
                c.und("inversion routine", "no compiled routine is called")
            return
        if len(mine) > want or len(mine) != len(cl.calls):
            c.und("inversion routine", "calls %s" % [k[0] for k in cl.calls])
            return
        c.ok("inversion routine")
        if want == 2 and compare(mine[0][1]["dt"].body, 3 * dt).status == alg.EQ:
            mine.reverse()
        for q, (nm, a, _) in enumerate(mine):
            s = 3 if (q == 1) else 1
            st = " (coarse)" if q else ""
            n = mk_ap("floordiv", (Rp + s - 1, const(s))) if s > 1 else Rp
            c.eq("time step" + st, a["dt"].body, s * dt, facts)
            if nm.startswith("kernel_first"):
                argcheck(c, "correlation of the features" + st, a["b"], [nb, nb, n], lambda i, j, t: el("B", i_(i), i_(j), s * i_(t)))
                argcheck(c, "correlation with the observable" + st, a["dxb"], [nb, no, n], lambda i, j, t: el("D", i_(i), i_(j), s * i_(t)))
            else:
                argcheck(c, "correlation of the features at lag zero", a["b0"], [nb, nb], lambda i, j: el("B", i_(i), i_(j), const(0)))
                argcheck(c, "correlation of the derivatives", a["bdot"], [nb, nb, n], lambda i, j, t: el("dB", i_(i), i_(j), i_(t)))
                argcheck(c, "derivative correlation with the observable", a["dxbdot"], [nb, no, n], lambda i, j, t: el("dD", i_(i), i_(j), i_(t)))
            if method in NEEDK0:
                argcheck(c, "initial value", a["k0"], [nb, no], lambda i, x: k0v(i, x))
        ker = c.T(c.I.getattr(e.m, "kernel"))
        if tuple(ker.dims()) != ("time_kernel", "dim_basis", obsdim):
            c.bad("kernel dimensions", str(ker.dims()))
            return
        tk = c.T(c.I.call(c.I.getattr(ker, "__getitem__"), [K("time_kernel")], {})) if False else c.T(c.I.getitem(ker, K("time_kernel")))
        O = lambda q, t, i, x: el("out%d" % mine[q][2], topoly(t), const(i), const(x))
        if method in ("rect", "rectangular", "second_kind_rect", "second_kind_trapz"):
            npt, body, tm = Rp, (lambda t, i, x: O(0, t, i, x)), 1
        elif method == "midpoint":
            npt, body, tm = mk_ap("floordiv", (Rp, const(2))), (lambda t, i, x: O(0, t, i, x)), 2
        elif method == "trapz":
            npt, body, tm = Rp - 1, (lambda t, i, x: (O(0, t - 1, i, x) + 2 * O(0, t, i, x) + O(0, t + 1, i, x)) / 4), 1
        else:
            n3 = mk_ap("floordiv", (mk_ap("floordiv", (Rp + 2, const(3))), const(2)))
            npt, body, tm = n3, (lambda t, i, x: (9 * O(0, 3 * t, i, x) - O(1, t, i, x)) / 8), 6
        c.eq("number of kernel points", ker.axes[0].ext, npt, facts)
        c.eq("number of kernel times", tk.axes[0].ext, npt, facts)
        v = fresh_iv()
        first = 1 if method == "trapz" else 0
        Bounds.iv[v] = (const(first), npt)
        t = iv(v)
        pts = [("any point", t)]
        if npt.const() is not None:
            pts = [("point %d" % p, const(p)) for p in range(first, int(npt.const()))]
        for i in range(nb):
            for x in range(no):
                if method == "trapz":
                    c.eq("kernel[%d,%d] starts at the initial value" % (i, x), c.at(ker, 0, i, x), k0v(const(i), const(x)), facts)
                for lab, p in pts:
                    c.eq("kernel[%d,%d] at %s" % (i, x, lab), c.at(ker, p, i, x), body(p, i, x), facts)
        for lab, p in pts + ([("point 0", const(0))] if first else []):
            c.eq("time of %s" % lab, c.at(tk, p), tm * p * dt, facts)
    return f


def i_(x):
    return topoly(x)


def short_(v):
    return short(v)


def rejects(c):
    e = setup(c, 1, 1, const(8), False)
    Calls(c)
    for m in NEEDK0:
        c.raises("%s without derivative correlations nor initial value" % m, lambda: c.meth(e.e, "compute_kernel", method=K(m)))
    for m in NEEDK0[1:]:
        c.raises("%s without derivative correlations" % m, lambda: c.meth(e.e, "compute_kernel", method=K(m), k0=c.arr("k0", 1, 1)))
    c.raises("unknown method", lambda: c.meth(e.e, "compute_kernel", method=K("no such method")))
    for a in ("bkbkcorrw", "bkdxcorrw"):
        e = setup(c, 1, 1, const(8), True)
        c.I.setattr(e.e, a, NONE)
        c.raises("without %s" % a, lambda: c.meth(e.e, "compute_kernel"))


def obligations(tier):
    r = []
    sizes = [(1, 1), (2, 1), (2, 2)]
    for m in ROUT:
        for nb, no in sizes:
            r.append(("%s %d functions %d observables, any length" % (m, nb, no), ob(m, nb, no, sym("R"))))
            for R in (7, 8) if tier == "quick" else (6, 7, 8, 9, 10, 11, 12, 13):
                r.append(("%s %d functions %d observables, %d points" % (m, nb, no, R), ob(m, nb, no, R)))
        for R in range(9, 15):
            if m.startswith("midpoint"):
                r.append(("%s 1 functions 1 observables, %d points" % (m, R), ob(m, 1, 1, R)))
        if m in NEEDK0:
            r.append(("%s own initial value" % m, ob(m, 2, 1, sym("R"), "given")))
        r.append(("%s observables of another name" % m, ob(m, 2, 3, sym("R"), obsdim="dim_dE")))
    for m, p in (("rect", "trapz"), ("trapz", "rect"), ("trapz", "trapz"), ("second_kind_trapz", "second_kind_rect"), ("midpoint", "midpoint_w_richardson"), ("midpoint_w_richardson", "midpoint")):
        r.append(("%s after %s on other correlations" % (m, p), ob(m, 2, 1, sym("R"), prior=p)))
    r.append(("trapz own initial value without derivatives", ob("trapz", 1, 1, sym("R"), "given", derivs=False)))
    r.append(("trapz with the derivative correlation at lag zero only", ob("trapz", 2, 1, sym("R"), short=True)))
    for m in ("rect", "midpoint", "midpoint_w_richardson"):
        r.append(("%s without derivatives" % m, ob(m, 1, 1, sym("R"), derivs=False)))
    r.append(("default method", ob("rectangular", 1, 1, sym("R"), default=True)))
    r.append(("rejections", rejects))
    return r
