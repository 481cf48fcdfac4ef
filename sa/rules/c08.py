"""C08 correlation estimators."""
from lib import *
from rules.bases import *

RULE = ("every estimator returns at lag n < min(length, trunc) the unbiased average over the available origins of "
        "first(t)*second(t+n), for every pair of components; the FFT variants carry no circular wrap-around")
ASSUME = ["the discrete Fourier transform satisfies the correlation theorem"]
CO = "correlation"


def avg(f, L, n, facts=()):
    t = fresh_iv()
    return mk_sum(t, const(0), L - n, f(iv(t), iv(t) + n)) / (L - n)


def lens(c, trunc):
    """(kwargs, length) pairs: no truncation, shorter, longer than the data"""
    L = sym("L")
    if trunc == "none":
        return {}, L, []
    R = sym("R")
    Bounds.pos.add("R")
    if trunc == "short":
        return {"trunc": S(R)}, R, [(c_le(R, L), True)]
    return {"trunc": S(R)}, L, [(c_le(L, R), True)]


def chk(c, r, exts, body, facts, L):
    t = c.T(r)
    c.shape("result", t, *exts, facts=facts)
    if len(t.axes) != len(exts):
        return
    lag = Ax(exts[-1])
    fx = list(facts) + [(c_lt(lag.p(), L), True)]
    idx = [[]]
    for e in exts[:-1]:
        idx = [q + [j] for q in idx for j in range(int(topoly(e).const()))]
    for q in idx:
        c.eq("element %s at any lag" % (q,), c.at(t, *(q + [lag.p()])), avg(lambda s, u: body(q, s, u), L, lag.p()), fx)
        c.eq("element %s at lag zero" % (q,), c.at(t, *(q + [const(0)])), avg(lambda s, u: body(q, s, u), L, const(0)), facts)


def ob1(fn, with_b, trunc):
    def f(c):
        L = sym("L")
        Bounds.pos.add("L")
        kw, n, fx = lens(c, trunc)
        a = c.arr("a", L)
        b = c.arr("b", L) if with_b else None
        r = c.call(c.get(CO, fn), *([a] + ([b] if with_b else [])), **kw)
        nb = "b" if with_b else "a"
        chk(c, r, [n], lambda q, s, u: el("a", s) * el(nb, u), fx, L)
        c.no_mutation("data untouched")
    return f


def obN(fn, na, nb, trunc):
    def f(c):
        L = sym("L")
        kw, n, fx = lens(c, trunc)
        if nb is None:
            a = c.arr("a", na, L)
            r = c.call(c.get(CO, fn), a, **kw)
            chk(c, r, [na, na, n], lambda q, s, u: el("a", const(q[1]), s) * el("a", const(q[0]), u), fx, L)
        else:
            a = c.arr("a", na, 1, L)
            b = c.arr("b", nb, L)
            r = c.call(c.get(CO, fn), a, b, **kw)
            chk(c, r, [na, nb, n], lambda q, s, u: el("a", const(q[0]), const(0), s) * el("b", const(q[1]), u), fx, L)
        c.no_mutation("data untouched")
    return f


def ob_public(name, other):
    """the public aliases are the multi-component estimators"""
    def f(c):
        L = sym("L")
        r = c.call(c.get("", name), c.arr("a", 1, L))
        chk(c, r, [1, 1, L], lambda q, s, u: el("a", const(0), s) * el("a", const(0), u), [], L)
    return f


def obligations(tier):
    r = []
    for tr in ("none", "short", "long"):
        for fn in ("correlation_1D", "correlation_direct_1D"):
            for wb in (False, True):
                r.append(("%s %s trunc=%s" % (fn, "cross" if wb else "auto", tr), ob1(fn, wb, tr)))
        for fn in ("correlation_ND", "correlation_direct_ND"):
            for na, nb in ((1, None), (2, None), (3, None), (1, 1), (2, 1), (2, 3)):
                r.append(("%s %s x %s trunc=%s" % (fn, na, nb, tr), obN(fn, na, nb, tr)))
    for n in ("correlation_fft", "correlation_direct"):
        r.append((n, ob_public(n, None)))
    return r
