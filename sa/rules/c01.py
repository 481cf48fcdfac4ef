"""C01 finite-difference kinematics."""
from lib import *

RULE = ("velocity/acceleration columns, kept instants and untouched positions equal the documented "
        "finite-difference stencils for every trajectory length, every data value and every weight")


def _ds(c, r):
    I = c.I
    if isinstance(r, Unk) or not isinstance(r, Ref):
        raise Stop("result %s" % short(r))
    o = I.h(r)
    if not isinstance(o, HDs):
        raise Stop("result is not a dataset")
    return o


def _jump(d):
    """the documented periodic correction of one displacement (two successive corrections)"""
    J, thr = sym("J"), sym("thr")
    d1 = mk_ite(c_lt(-thr, d), d, d + J)
    return mk_ite(c_lt(d1, thr), d1, d1 - J)


def check_ds(c, r, dim, var_bodies, off, n, extra=()):
    """variables of the result at (t,k); t counts kept instants, original instant is t+off"""
    o = _ds(c, r)
    for name, body in var_bodies.items():
        if name not in o.vars:
            c.bad("column " + name, "the result has no column %s (has %s)" % (name, sorted(o.vars)))
            continue
        c.tens("column " + name, o.vars[name], (n, dim), body, dims=("time", "dim_x"))
    if "time" not in o.coords:
        c.bad("time axis", "result has no time coordinate")
    else:
        c.tens("time axis", o.coords["time"], (n,), lambda t: el("t", t + off))
    a = c.I.h(o.attrs) if isinstance(o.attrs, Ref) else None
    if a is None:
        c.und("dt attribute", "unknown attrs")
    else:
        dt = a.get("dt") if hasattr(a, "get") else next((v for k, v in a.items if isinstance(k, K) and k.v == "dt"), None)
        if dt is None:
            c.bad("dt attribute", "the result lost the time step attribute")
        else:
            c.const("dt attribute", dt, sym("dt"))


def X(t, k):
    return el("x", t, k)


def ob_va(dim, jumps, lam, vars_="x"):
    def f(c):
        f = c.get("", "compute_va")
        ds = c.traj(vars_, dim=dim)
        kw = {}
        if lam is not None:
            kw["lamb_finite_diff"] = S(lam)
        l = const(1) / const(2) if lam is None else topoly(lam)
        if jumps:
            kw.update(correct_jumps=T((), TRUE), jump=S(sym("J")), jump_thr=S(sym("thr")))
        dt = sym("dt")
        D = (lambda t, k: _jump(X(t + 1, k) - X(t, k))) if jumps else (lambda t, k: X(t + 1, k) - X(t, k))
        for again in (0, 1):
            r = c.call(f, ds, **kw)
            check_ds(c, r, dim, {
                "x": lambda t, k: X(t + 1, k),
                "v": lambda t, k: (l * D(t + 1, k) + (1 - l) * D(t, k)) / dt,
                "a": lambda t, k: (D(t + 1, k) - D(t, k)) / (dt * dt),
            }, 1, sym("N") - 2)
        c.no_mutation("input trajectory untouched")
    return f


def ob_gjf(dim, jumps):
    def f(c):
        f = c.get("", "compute_va_gjf")
        ds = c.traj("x", dim=dim)
        kw = {}
        if jumps:
            kw.update(correct_jumps=T((), TRUE), jump=S(sym("J")), jump_thr=S(sym("thr")))
        dt = sym("dt")
        D = (lambda t, k: _jump(X(t + 1, k) - X(t, k))) if jumps else (lambda t, k: X(t + 1, k) - X(t, k))
        r = c.call(f, ds, **kw)
        check_ds(c, r, dim, {
            "x": lambda t, k: X(t + 1, k),
            "v": lambda t, k: D(t, k) / dt,
            "a": lambda t, k: (D(t + 1, k) - D(t, k)) / (dt * dt),
        }, 1, sym("N") - 2)
        c.no_mutation("input trajectory untouched")
    return f


def ob_a(dim):
    def f(c):
        f = c.get("", "compute_a")
        ds = c.traj("xv", dim=dim)
        dt = sym("dt")
        r = c.call(f, ds)
        check_ds(c, r, dim, {
            "x": lambda t, k: X(t + 1, k),
            "v": lambda t, k: el("v", t + 1, k),
            "a": lambda t, k: (X(t + 2, k) - 2 * X(t + 1, k) + X(t, k)) / (dt * dt),
        }, 1, sym("N") - 2)
        c.no_mutation("input trajectory untouched")
    return f


def ob_av(dim):
    def f(c):
        f = c.get("", "compute_a_from_vel")
        ds = c.traj("xv", dim=dim)
        dt = sym("dt")
        r = c.call(f, ds)
        check_ds(c, r, dim, {
            "x": lambda t, k: X(t + 1, k),
            "v": lambda t, k: el("v", t + 1, k),
            "a": lambda t, k: (el("v", t + 2, k) - el("v", t, k)) / (2 * dt),
        }, 1, sym("N") - 2)
        c.no_mutation("input trajectory untouched")
    return f


def obligations(tier):
    dims = (1, 2) if tier == "quick" else (1, 2, 3)
    r = []
    for d in dims:
        r.append(("compute_va dim=%d default weight" % d, ob_va(d, False, None)))
        r.append(("compute_va dim=%d any weight" % d, ob_va(d, False, sym("lam"))))
        r.append(("compute_va dim=%d periodic jumps" % d, ob_va(d, True, sym("lam"))))
        r.append(("compute_va_gjf dim=%d" % d, ob_gjf(d, False)))
        r.append(("compute_va_gjf dim=%d periodic jumps" % d, ob_gjf(d, True)))
        r.append(("compute_a dim=%d" % d, ob_a(d)))
        r.append(("compute_a_from_vel dim=%d" % d, ob_av(d)))
    return r
