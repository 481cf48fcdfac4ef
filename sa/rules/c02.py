"""C02 trajectory framing."""
from lib import *
from rules.c01 import _ds

RULE = ("a framed trajectory holds exactly the given samples as (time, component) columns, the given "
        "(or regularised) instants and their time step; doubling the state space stacks the columns in order")


def frame(c, r, dim, cols, time, dt):
    o = _ds(c, r)
    N = sym("N")
    for n, b in cols.items():
        if n not in o.vars:
            c.bad("column " + n, "missing column %s" % n)
            continue
        c.tens("column " + n, o.vars[n], (N, dim), b, dims=("time", "dim_x"))
    for n in o.vars:
        if n not in cols:
            c.bad("column " + n, "unexpected column %s" % n)
    if "time" not in o.coords:
        c.bad("time axis", "no time coordinate")
    else:
        c.tens("time axis", o.coords["time"], (N,), time)
    a = c.I.h(o.attrs)
    d = next((v for k, v in a.items if isinstance(k, K) and k.v == "dt"), None)
    if d is None:
        c.bad("dt attribute", "no dt attribute")
    else:
        c.const("dt attribute", d, dt)


def ob(ndim, have, fix, userdt):
    def f(c):
        f = c.get("", "xframe")
        N = sym("N")
        Bounds.pos.add("N")
        dim = 1 if ndim == 1 else ndim
        mk = (lambda n: c.arr(n, N)) if ndim == 1 else (lambda n: c.arr(n, N, dim))
        val = (lambda n: (lambda t, k: el(n, t))) if ndim == 1 else (lambda n: (lambda t, k: el(n, t, k)))
        kw, cols = {}, {"x": val("x")}
        for n in have:
            kw[n] = mk(n)
            cols[n] = val(n)
        tm = c.arr("t", N)
        dt = el("t", 1) - el("t", 0)
        time = lambda i: el("t", i)
        if fix:
            kw["fix_time"] = T((), TRUE)
            kw["round_time"] = S(sym("rt"))
            Bounds.pos.add("rt")
            if userdt:
                kw["dt"] = S(sym("h"))
                Bounds.pos.add("h")
                dt = sym("h")
            else:
                dt = mk_ap("round", (dt / sym("rt"),)) * sym("rt")
            time = lambda i: i * dt
        for again in (0, 1):
            r = c.call(f, mk("x"), tm, **kw)
            frame(c, r, dim, cols, time, dt)
        c.no_mutation("inputs untouched")
    return f


def ob_concat(dim):
    def f(c):
        f = c.get("", "concat_underdamped")
        ds = c.traj("xva", dim=dim)
        r = c.call(f, ds)
        N = sym("N")
        o = _ds(c, r)
        pick = lambda p, q: (lambda t, k: el(p if k < dim else q, t, k % dim))
        c.tens("x", o.vars["x"], (N, 2 * dim), pick("x", "v"), dims=("time", "dim_x"))
        c.tens("v", o.vars["v"], (N, 2 * dim), pick("v", "a"), dims=("time", "dim_x"))
        if "time" in o.coords:
            c.tens("time axis", o.coords["time"], (N,), lambda t: el("t", t))
        else:
            c.bad("time axis", "no time coordinate")
        a = c.I.h(o.attrs)
        d = next((v for k, v in a.items if isinstance(k, K) and k.v == "dt"), None)
        if d is None:
            c.bad("dt attribute", "no dt attribute")
        else:
            c.const("dt attribute", d, sym("dt"))
        c.no_mutation("inputs untouched")
    return f


def obligations(tier):
    r = []
    for nd in ((1, 2) if tier == "quick" else (1, 2, 3)):
        for have in ("", "v", "va"):
            r.append(("xframe ndim=%d columns=x%s" % (nd, have), ob(nd, have, False, False)))
        r.append(("xframe ndim=%d regularised times" % nd, ob(nd, "v", True, False)))
        r.append(("xframe ndim=%d regularised times, given step" % nd, ob(nd, "", True, True)))
        r.append(("concat_underdamped dim=%d" % nd, ob_concat(nd)))
    return r
