"""C23 the generalised Langevin integrator: one Runge-Kutta step with trapezoidal memory."""
from lib import *
from rules.modelsref import *

RULE = ("from any history the next positions and velocities are one fourth-order Runge-Kutta step of x' = v, v' = force + noise - memory, "
        "with the memory trapezoidal over the (truncated) kernel and interpolated between its values at both ends of the step")

GI = "gle_integrate"
LIN = '''
class LIN:
    """identity features"""
    def __init__(self, dim):
        self.const_removed = True
        self.n_output_features_ = 2 * dim
    def fit(self, d):
        return self
    def basis(self, X):
        return ONE(X)
    def deriv(self, X):
        return DONE(X)
'''


def num_(I, v):
    t = I.d(I.num(v))
    if t.xr:
        t = M.strip(I, t)
    return t


class Sys:
    """reference of the dynamics; vectors are lists of P"""

    def __init__(self, c, cls, dim, nc, Mk, proj=False, lin=False, trunc=None):
        self.c, self.cls, self.dim, self.lin = c, cls, dim, lin
        self.dt = sym("dt")
        rc = cls == "Pos_gle" and not proj and not lin
        if lin:
            c_ = c
            self.m = Lin(c, cls, dim)
        else:
            self.m = Mod(c, cls, dim, nc, False)
        m = self.m
        self.nb = m.nb
        self.nk = m.nb if cls == "Pos_gle" else dim
        self.red = self.nk
        if proj:
            self.red = self.nk - 1
            c.I.setattr(m.m, "P_range", c.da("P", ["dim_basis", "dim_basis_old"], [self.red, self.nk]))
        self.proj = proj
        c.I.setattr(m.m, "rank_projection", bool_(proj))
        c.I.setattr(m.m, "force_coeff", c.da("fc", ["dim_basis", "dim_x"], [self.nb, dim]))
        self.M = Mk
        c.I.setattr(m.m, "kernel", c.da("kr", ["time_kernel", "dim_basis", "dim_x"], [Mk, self.red, dim], coords={"time_kernel": c.da("tker", ["time_kernel"], [Mk])}))
        c.I.setattr(m.m, "trunc_ind", S(Mk + 1))
        self.tr = Mk if trunc is None else min(trunc, Mk)

    def feats(self, x, v):
        """(force features, kernel features) at one point"""
        m = self.m
        b = [m.fx(k, x, 0) for k in range(self.nb)] if self.lin else [fx(m, k, x, 0) for k in range(self.nb)]
        if self.cls != "Pos_gle":
            E = list(v)
        elif self.lin:
            E = [sum((m.gx(k, x, i) * v[i] for i in range(self.dim)), const(0)) for k in range(self.nb)]
        else:
            E = [fx(m, k, x, 1) * v[k % self.dim] for k in range(self.nb)]
        if self.proj:
            E = [sum((el("P", const(r), const(k)) * E[k] for k in range(self.nk)), const(0)) for r in range(self.red)]
        return b, E

    def K(self, j, k, o):
        return el("kr", const(j), const(k), const(o))

    def contract(self, E, j):
        return [sum((E[k] * self.K(j, k, o) for k in range(self.red)), const(0)) for o in range(self.dim)]

    def memory(self, Es, ind):
        """memory at time ind without the newest term; Es[0..ind-1]"""
        L = min(ind, self.tr - 1)
        r = [const(0)] * self.dim
        for j in range(1, L):
            r = add(r, scale(self.contract(Es[ind - j], j), self.dt))
        return add(r, scale(self.contract(Es[ind - L], L), self.dt / 2))

    def rhs(self, x, v, fr, alpha, rmi, lastE, lastrmi):
        b, E = self.feats(x, v)
        F = [sum((b[k] * el("fc", const(k), const(o)) for k in range(self.nb)), const(0)) for o in range(self.dim)]
        a0 = add(lastrmi, scale(self.contract(lastE, 0), self.dt / 2))
        a1 = add(rmi, scale(self.contract(E, 0), self.dt / 2))
        mem = add(scale(a0, alpha), scale(a1, const(1) - alpha))
        return list(v), [F[o] + fr[o] - mem[o] for o in range(self.dim)]

    def step(self, x, v, fr, rmi, lastE, lastrmi):
        dt, h = self.dt, const(1) / 2
        k1 = self.rhs(x, v, fr, const(1), rmi, lastE, lastrmi)
        k2 = self.rhs(add(x, scale(k1[0], dt * h)), add(v, scale(k1[1], dt * h)), fr, h, rmi, lastE, lastrmi)
        k3 = self.rhs(add(x, scale(k2[0], dt * h)), add(v, scale(k2[1], dt * h)), fr, h, rmi, lastE, lastrmi)
        k4 = self.rhs(add(x, scale(k3[0], dt)), add(v, scale(k3[1], dt)), fr, const(0), rmi, lastE, lastrmi)
        w = lambda a, i: add(a, scale(add(add(k1[i], scale(k2[i], const(2))), add(scale(k3[i], const(2)), k4[i])), dt / 6))
        return w(x, 0), w(v, 1)

    def run(self, n, hist, noise):
        xs, vs = [h[0] for h in hist], [h[1] for h in hist]
        Es = [self.feats(x, v)[1] for x, v in zip(xs, vs)]
        n0 = len(hist)
        rmi = self.memory(Es[:n0 - 1], n0 - 1) if n0 > 1 else [const(0)] * self.dim
        for ind in range(n0, n):
            last = rmi
            rmi = self.memory(Es[:ind], ind)
            x, v = self.step(xs[-1], vs[-1], noise(ind), rmi, Es[ind - 1], last)
            xs.append(x)
            vs.append(v)
            Es.append(self.feats(x, v)[1])
        return xs, vs


def fx(m, k, x, order):
    q, i = divmod(k, m.dim)
    return mk_ap("fapp", (c07.key("f", q, i, el("mean", const(i)), el("mn", const(i)), el("mx", const(i))), const(order), x[i]))


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def scale(a, s):
    return [x * s for x in a]


class Lin:
    """model over the features x and (second set) constant one: values 2*dim, gradient exact"""

    def __init__(self, c, cls, dim):
        self.dim, self.nb = dim, dim

        def one(I, args, kw):
            return num_(I, args[0])

        def done(I, args, kw):
            t = num_(I, args[0])
            n, k, i = t.axes[0].clone(), Ax(dim), Ax(dim)
            return I.mkbuf(T([n, k, i], mk_ite(c_eq(k.p(), i.p()), const(1), const(0))))
        src = LIN.replace("2 * dim", "dim")
        B = c.I.spec(src, "LIN", {"ONE": Opq("ONE", hook=("call", one)), "DONE": Opq("DONE", hook=("call", done))})
        self.basis = c.I.call(B, [S(dim)], {})
        self.m = c.call(c.get(MO, cls), self.basis, S(sym("dt")), dim_x=S(dim), dim_obs=S(dim))

    def fx(self, k, x, order):
        return x[k]

    def gx(self, k, x, i):
        return const(1 if k == i else 0)


def start(c, n0, dim, dt):
    tx = Ax(n0, "time")
    vs = {q: with_buf(c.I, c.da(q + "0", ("time", "dim_x"), (n0, dim)), q + "0") for q in "xv"}
    return M.mk_ds(c.I, vs, {"time": T([tx], tx.p() * dt, True)}, c.dict({"dt": S(dt)}))


def ob(cls, dim, nc, Mk, n0, steps, proj=False, lin=False, trunc=None, noise=False, nox0=False, nomodel=False):
    def f(c):
        s = Sys(c, cls, dim, nc, Mk, proj, lin, trunc)
        nm = "Integrator_gle" if cls == "Pos_gle" else "Integrator_gle_const_kernel"
        rows = dim
        cn = c.arr("cn", s.red, rows)
        kw = dict(coeffs_noise_kernel=cn, verbose=bool_(False))
        if trunc:
            kw["trunc_kernel"] = S(trunc)
        G = c.get(GI, nm)
        if nomodel:
            g = lambda a: c.I.getattr(s.m.m, a)
            args = dict(basis=s.m.basis, force_coeff=c.arr("fc", s.nb, dim), kernel=c.arr("kr", Mk, s.red, dim), dt=S(s.dt))
            ig = c.call(G, NONE, **dict(kw, **args))
        else:
            ig = c.call(G, s.m.m, **kw)
        if noise:
            if isinstance(c.I.getattr(ig, "noise_generator"), Unk):
                return c.und("noise", "no noise generator to replace")
            c.I.setattr(ig, "noise_generator", stub(c, dim))
        n = n0 + steps
        rk = {} if noise else dict(set_noise_to_zero=bool_(True))
        V = lambda nm_, t, i: el(nm_ + "0", const(t), const(i)) if not nox0 else const(0)
        hist = [([V("x", t, i) for i in range(dim)], [V("v", t, i) for i in range(dim)]) for t in range(n0)]
        nz = lambda ind: [const(0)] * dim
        if noise:
            nz = noise_ref(c, s, dim, n)
        for rep in ("", " again"):
            args = [S(n)] + ([] if nox0 else [start(c, n0, dim, s.dt)])
            r = c.meth(ig, "run", *args, **rk)
            X, Vv = c.T(c.I.getitem(r, K("x"))), c.T(c.I.getitem(r, K("v")))
            if c.shape("positions" + rep, X, n, dim) is None or c.shape("velocities" + rep, Vv, n, dim) is None:
                return
            xs, vs = s.run(n, hist, nz)
            for t in range(n):
                for i in range(dim):
                    c.eq("position%s %d[%d]" % (rep, t, i), c.at(X, t, i), xs[t][i])
                    c.eq("velocity%s %d[%d]" % (rep, t, i), c.at(Vv, t, i), vs[t][i])
            tm = c.T(c.I.getitem(r, K("time")))
            for t in range(n - 1):
                c.eq("time spacing%s %d" % (rep, t), c.at(tm, t + 1) - c.at(tm, t), s.dt)
            if n0 == 1:
                c.eq("first time" + rep, c.at(tm, 0), const(0))
            at = c.I.getitem(c.I.getattr(r, "attrs"), K("dt"))
            c.eq("step of the trajectory" + rep, c.T(at).body, s.dt)
            if noise or steps > 1 or lin:
                break
        c.no_mutation("inputs untouched")
    return f


def noise_ref(c, s, dim, n):
    return lambda ind: [el("noise", const(ind), const(i)) for i in range(dim)]


def stub(c, dim):
    def gen(I, args, kw):
        n = I.sc(args[0] if args else kw["size"])
        a = [Ax(n), Ax(dim)]
        return I.mkbuf(T(a, el("noise", *[x.p() for x in a])))
    cls = c.I.spec("class NG:\n    def generate(self, size):\n        return GEN(size)\n", "NG", {"GEN": Opq("GEN", hook=("call", gen))})
    return c.I.call(cls, [], {})


def span(p):
    """range [lo, hi) of an index drawn at random: it is one random number plus an offset"""
    if not p.fv:
        return p, p + 1
    (v,) = p.fv
    lo, hi = Bounds.iv[v]
    return lo + (p - iv(v)), hi + (p - iv(v))


def first_index(p):
    a = as_atom(p)
    return a.args[1][0] if a is not None and a.kind == "ap" and a.name == "x0" else None


def initial(dim, nmem, many):
    """random window of a trajectory"""
    def f(c):
        s = Sys(c, "Pos_gle", dim, 1, 2)
        ig = c.call(c.get(GI, "Integrator_gle"), s.m.m, coeffs_noise_kernel=c.arr("cn", s.red, dim), verbose=bool_(False))
        Bounds.pos.add("N0")
        tr = c.traj("xva", N="N0", dim=dim, tag="0")
        r = c.meth(ig, "initial_conditions", c.list([tr]) if many else tr, **({} if nmem == 0 else dict(n_mem=S(nmem))))
        X, V = c.T(c.I.getitem(r, K("x"))), c.T(c.I.getitem(r, K("v")))
        if c.shape("positions", X, nmem + 1, dim) is None or c.shape("velocities", V, nmem + 1, dim) is None:
            return
        p0 = first_index(c.at(X, 0, 0))
        if p0 is None:
            return c.und("start of the window", "not a single row of the trajectory")
        lo, hi = span(p0)
        c.eq("first possible window", lo, const(0))
        c.eq("last possible window", hi + nmem, sym("N0"))
        for t in range(nmem + 1):
            for i in range(dim):
                c.eq("position %d[%d]" % (t, i), c.at(X, t, i), el("x0", p0 + t, const(i)))
                c.eq("velocity %d[%d]" % (t, i), c.at(V, t, i), el("v0", p0 + t, const(i)))
        tm = c.T(c.I.getitem(r, K("time")))
        for t in range(nmem + 1):
            c.eq("time %d" % t, c.at(tm, t), const(t) * sym("dt"))
        c.no_mutation("trajectories untouched")
    return f


def obligations(tier):
    r = []
    deep = tier == "thorough"
    for cls in ("Pos_gle", "Pos_gle_const_kernel"):
        for dim, nc in ((1, 1), (1, 2), (2, 1)) + (((2, 2),) if deep else ()):
            for Mk, n0 in ((2, 1), (3, 1), (3, 2), (2, 3), (3, 3), (4, 3), (3, 4), (5, 3)):
                if (dim, nc) != (1, 1) and (Mk, n0) not in ((3, 2), (3, 4)) and not deep:
                    continue
                r.append(("one step, %s, dim=%d, %d functions, kernel of %d points, history of %d" % (cls, dim, nc, Mk, n0), ob(cls, dim, nc, Mk, n0, 1)))
        for Mk, n0, st in ((2, 1, 2), (3, 1, 2), (3, 2, 2)) + (((3, 1, 3),) if deep else ()):
            r.append(("%d steps, identity features, %s, kernel of %d points, history of %d" % (st, cls, Mk, n0), ob(cls, 1, 1, Mk, n0, st, lin=True)))
        r.append(("start at rest, %s" % cls, ob(cls, 1, 1, 3, 1, 1, nox0=True)))
        r.append(("truncated kernel, %s" % cls, ob(cls, 1, 1, 4, 4, 1, trunc=3)))
        r.append(("truncation beyond the kernel, %s" % cls, ob(cls, 1, 1, 3, 4, 1, trunc=7)))
        r.append(("with noise, %s" % cls, ob(cls, 1, 1, 3, 1, 1, noise=True)))
        r.append(("with noise and truncated kernel, %s" % cls, ob(cls, 1, 1, 4, 2, 1, noise=True, trunc=3)))
        r.append(("given coefficients instead of a model, %s" % cls, ob(cls, 1, 1, 3, 2, 1, nomodel=True)))
    r.append(("with noise, two components", ob("Pos_gle", 2, 1, 3, 1, 1, noise=True)))
    r.append(("projection on the range", ob("Pos_gle", 1, 2, 2, 1, 1, proj=True)))
    r.append(("projection on the range, history", ob("Pos_gle", 1, 2, 2, 2, 1, proj=True)))
    r.append(("projection on the range, three functions", ob("Pos_gle", 1, 3, 2, 1, 1, proj=True)))
    r.append(("projection on the range, constant kernel, three components", ob("Pos_gle_const_kernel", 3, 1, 2, 2, 1, proj=True)))
    r.append(("projection on the range, constant kernel", ob("Pos_gle_const_kernel", 2, 1, 2, 2, 1, proj=True)))
    for dim in (1, 2):
        for nmem in (0, 1, 3):
            r.append(("starting window dim=%d memory=%d" % (dim, nmem), initial(dim, nmem, False)))
    return r
