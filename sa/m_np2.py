"""numpy structural functions, fft, random, scipy helpers"""
import ast
from values import *
import tops
import alg
from tops import pbody, ewise, unary
import models
from models import NP, METH, arg, isnone, raises, islist, isds, to_array, ppow
from m_np import reg, regnp, arr, tocond, shape_of, strkw, np_sum


@regnp("reshape")
def np_reshape(I, args, kw):
    t = arr(I, args[0])
    sh = arg(args, kw, 1, "newshape", kw.get("shape"))
    return do_reshape(I, t, sh, kw)


def do_reshape(I, t, sh, kw):
    s = shape_of(I, sh)
    if s is None:
        return Unk("reshape")
    o = kw.get("order")
    return tops.reshape(I, t, s, strkw(o, "C"))


@regnp("ravel")
def np_ravel(I, args, kw):
    t = arr(I, args[0])
    o = strkw(arg(args, kw, 1, "order"), "C")
    if len(t.axes) == 1:
        return t
    return tops.reshape(I, t, [const(-1)], o)


@regnp("squeeze")
def np_squeeze(I, args, kw):
    t = arr(I, args[0]) if not (isinstance(args[0], T) and args[0].xr) else args[0]
    ax = arg(args, kw, 1, "axis")
    if isnone(ax):
        ks = [k for k, a in enumerate(t.axes) if a.ext == const(1)]
    else:
        ks = tops.axis_list(I, t, ax)
        for k in ks:
            c = t.axes[k].ext.const()
            if c is not None and c != 1:
                raise raises(I, "ValueError: cannot squeeze axis of size %s" % c)
    idx = [S(0) if k in ks else Sl(NONE, NONE, NONE) for k in range(len(t.axes))]
    return tops.index(I, t, Tup(idx))


@regnp("transpose", "permute_dims")
def np_transpose(I, args, kw):
    t = arr(I, args[0])
    ax = arg(args, kw, 1, "axes")
    if isnone(ax):
        return tops.transpose(I, t, list(range(len(t.axes)))[::-1])
    p = [x.intval() for x in shape_of(I, ax)]
    return tops.transpose(I, t, [k % len(t.axes) for k in p])


@regnp("swapaxes")
def np_swapaxes(I, args, kw):
    t = arr(I, args[0])
    a, b = tops.axis_list(I, t, args[1])[0], tops.axis_list(I, t, args[2])[0]
    p = list(range(len(t.axes)))
    p[a], p[b] = p[b], p[a]
    return tops.transpose(I, t, p)


@regnp("moveaxis", "rollaxis")
def np_moveaxis(I, args, kw):
    t = arr(I, args[0])
    src, dst = args[1], args[2]
    g = lambda v: tops.axis_list(I, t, v)
    s, d = g(src), g(dst)
    order = [k for k in range(len(t.axes)) if k not in s]
    for x, y in sorted(zip(d, s)):
        order.insert(x, y)
    return tops.transpose(I, t, order)


@regnp("expand_dims")
def np_expand(I, args, kw):
    t = arr(I, args[0])
    ax = arg(args, kw, 1, "axis")
    ks = [x.intval() for x in shape_of(I, ax)]
    n = len(t.axes) + len(ks)
    ks = [k % n for k in ks]
    idx = [NONE if k in ks else Sl(NONE, NONE, NONE) for k in range(n)]
    return tops.index(I, t, Tup(idx))


@regnp("broadcast")
def np_broadcast(I, args, kw):
    """only the shape of the result is meaningful"""
    ts = [T(t.axes, t.body) for t in (I.d(arr(I, a)) for a in args)]
    axes, bodies, xr, co = tops.broadcast(I, ts)
    return T(axes, const(0))


@regnp("broadcast_arrays")
def np_broadcast_arrays(I, args, kw):
    ts = [T(t.axes, t.body) for t in (I.d(arr(I, a)) for a in args)]
    axes, bodies, xr, co = tops.broadcast(I, ts)
    return Tup([T(axes, b) for b in bodies])


@regnp("broadcast_shapes")
def np_broadcast_shapes(I, args, kw):
    ts = []
    for a in args:
        sh = I.seq_items(a) if hasattr(I, "seq_items") else list(a.items)
        ts.append(T([Ax(I.sc(x)) for x in sh], const(0)))
    axes, bodies, xr, co = tops.broadcast(I, ts)
    return Tup([S(x.ext) for x in axes])


@regnp("broadcast_to")
def np_bto(I, args, kw):
    t = I.d(arr(I, args[0]))
    s = shape_of(I, args[1])
    axes = [Ax(x) for x in s]
    b = tops.broadcast_body(I, t, axes)
    return T(axes, b) if b is not None else Unk("broadcast_to")


def seq_items(I, v):
    """list of tensors of a concatenation argument; ('m', ...) sequences give None"""
    if isinstance(v, T):
        it = I.iterate(v)
    else:
        it = I.iterate(v)
    if it[0] != "c":
        return None
    return [arr(I, x) for x in it[1]]


@regnp("concatenate")
def np_concat(I, args, kw):
    items = seq_items(I, args[0])
    ax = arg(args, kw, 1, "axis", S(0))
    if items is None:
        # concatenation of a mapped list: flatten the two leading axes when pieces have equal length
        t = to_array(I, args[0])
        if t is None or (t.body.unk if isinstance(t.body, Node) else True):
            return ragged(I, args[0], ax)
        k = I.sc(ax).intval()
        if k == 0:
            return tops.reshape(I, t, [t.axes[0].ext * t.axes[1].ext] + [a.ext for a in t.axes[2:]])
        return Unk("concatenation of a symbolic number of arrays")
    if not items:
        raise raises(I, "ValueError: need at least one array to concatenate")
    if isnone(ax):
        items = [np_ravel(I, [x], {}) for x in items]
        k = 0
    else:
        k = I.sc(ax).intval()
        if k is None:
            return Unk("axis")
        if not -len(items[0].axes) <= k < len(items[0].axes):
            tops.loose(items[0])
            raise raises(I, "AxisError: axis %d" % k)
    return tops.concat(I, items, k)


def ragged(I, lst, ax):
    """pieces whose length depends on the piece: opaque tensor keyed by its generator"""
    if not islist(I, lst):
        return Unk("concatenate")
    its = I.h(lst).items
    if len(its) != 1 or its[0][0] != "m" or not isinstance(its[0][3], T):
        return Unk("concatenate")
    _, i, n, val = its[0]
    t = I.d(val)
    if I.sc(ax).intval() != 0 or not t.axes:
        return Unk("concatenate")
    tot = mk_sum(i, const(0), n, t.axes[0].ext)
    lam = mk_lam([i], [n], mk_lam([a.v for a in t.axes], [a.ext for a in t.axes], pbody(t.body)))
    r = Ax(tot)
    rest = [Ax(a.ext) for a in t.axes[1:]]
    return T([r] + rest, ap("rcat", (lam,), [r.p()] + [a.p() for a in rest]))


@regnp("stack")
def np_stack(I, args, kw):
    ax = arg(args, kw, 1, "axis", S(0))
    t = to_array(I, args[0])
    if t is None:
        return Unk("stack")
    k = I.sc(ax).intval()
    n = len(t.axes)
    k %= n
    order = list(range(1, n))
    order.insert(k, 0)
    return tops.transpose(I, t, order)


@regnp("vstack", "row_stack")
def np_vstack(I, args, kw):
    items = seq_items(I, args[0])
    if items is None:
        return Unk("vstack")
    return tops.concat(I, [NP["numpy.atleast_2d"](I, [x], {}) for x in items], 0)


@regnp("hstack")
def np_hstack(I, args, kw):
    items = seq_items(I, args[0])
    if items is None:
        return Unk("hstack")
    items = [NP["numpy.atleast_1d"](I, [x], {}) for x in items]
    return tops.concat(I, items, 0 if len(items[0].axes) == 1 else 1)


@regnp("column_stack")
def np_cstack(I, args, kw):
    items = seq_items(I, args[0])
    if items is None:
        return Unk("column_stack")
    items = [tops.index(I, x, Tup([Sl(NONE, NONE, NONE), NONE])) if len(x.axes) == 1 else x for x in items]
    return tops.concat(I, items, 1)


@regnp("append")
def np_append(I, args, kw):
    ax = arg(args, kw, 2, "axis")
    a, b = arr(I, args[0]), arr(I, args[1])
    if isnone(ax):
        a, b = np_ravel(I, [a], {}), np_ravel(I, [NP["numpy.atleast_1d"](I, [b], {})], {})
        return tops.concat(I, [NP["numpy.atleast_1d"](I, [a], {}), b], 0)
    return tops.concat(I, [a, b], I.sc(ax).intval())


@regnp("insert")
def np_insert(I, args, kw):
    a = arr(I, args[0])
    obj, val = args[1], args[2]
    ax = arg(args, kw, 3, "axis")
    if isnone(ax):
        a = np_ravel(I, [a], {})
        k = 0
    else:
        k = tops.axis_list(I, a, ax)[0]
    p = I.sc(obj)
    ext = a.axes[k].ext
    p = tops.norm_index(I, p, ext) if p.const() is None or p.const() < 0 else p
    full = Sl(NONE, NONE, NONE)
    left = tops.index(I, a, Tup([full] * k + [Sl(NONE, S(p), NONE)]))
    right = tops.index(I, a, Tup([full] * k + [Sl(S(p), NONE, NONE)]))
    vt = I.d(arr(I, val))
    axes = [Ax(1) if j == k else Ax(x.ext) for j, x in enumerate(a.axes)]
    if len(vt.axes) == len(a.axes) and vt.axes[k].ext != const(1):
        return Unk("insert of several")
    if len(vt.axes) < len(axes):
        # scalar position: value broadcasts to the remaining axes
        sub = [x for j, x in enumerate(axes) if j != k]
        b = tops.broadcast_body(I, vt, sub)
    else:
        b = tops.broadcast_body(I, vt, axes)
    if b is None:
        return Unk("insert")
    return tops.concat(I, [left, T(axes, pbody(b)), right], k)


@regnp("delete")
def np_delete(I, args, kw):
    a = arr(I, args[0])
    ax = arg(args, kw, 2, "axis")
    if isnone(ax):
        a = np_ravel(I, [a], {})
        k = 0
    else:
        k = tops.axis_list(I, a, ax)[0]
    if not isinstance(args[1], T) or args[1].axes:
        return Unk("delete of several")
    p = I.sc(args[1])
    p = tops.norm_index(I, p, a.axes[k].ext)
    full = Sl(NONE, NONE, NONE)
    left = tops.index(I, a, Tup([full] * k + [Sl(NONE, S(p), NONE)]))
    right = tops.index(I, a, Tup([full] * k + [Sl(S(p + 1), NONE, NONE)]))
    return tops.concat(I, [left, right], k)


@regnp("flip", "flipud", "fliplr")
def np_flip(I, args, kw):
    t = arr(I, args[0])
    axl = tops.axis_list(I, t, arg(args, kw, 1, "axis"))
    idx = [Sl(NONE, NONE, S(-1)) if k in axl else Sl(NONE, NONE, NONE) for k in range(len(t.axes))]
    return tops.index(I, t, Tup(idx))


NP["numpy.flipud"] = lambda I, a, k: np_flip(I, [a[0], S(0)], {})
NP["numpy.fliplr"] = lambda I, a, k: np_flip(I, [a[0], S(1)], {})


@regnp("roll")
def np_roll(I, args, kw):
    t = I.d(arr(I, args[0]))
    sh = I.sc(args[1])
    ax = arg(args, kw, 2, "axis")
    if isnone(ax) and len(t.axes) != 1:
        return Unk("roll")
    a = t.axes[0 if isnone(ax) else tops.axis_list(I, t, ax)[0]]
    c = sh.intval()
    if c is None:
        j = mk_ap("mod", (a.p() - sh, a.ext))
    elif c > 0:
        j = mk_ite(c_lt(a.p(), const(c)), a.p() - c + a.ext, a.p() - c)
    else:
        j = mk_ite(c_lt(a.p() - c, a.ext), a.p() - c, a.p() - c - a.ext)
    if c is not None:
        f = lambda p: subst(pbody(t.body), {a.v: p})
        at = [x for x in j.t] if False else None
        if c > 0:
            body = mk_ite(c_lt(a.p(), const(c)), f(a.p() - c + a.ext), f(a.p() - c))
        elif c < 0:
            body = mk_ite(c_lt(a.p() - c, a.ext), f(a.p() - c), f(a.p() - c - a.ext))
        else:
            body = pbody(t.body)
        return T(t.axes, body)
    return T(t.axes, subst(pbody(t.body), {a.v: j}))


@regnp("tile")
def np_tile(I, args, kw):
    t = arr(I, args[0])
    reps = shape_of(I, arg(args, kw, 1, "reps"))
    if reps is None:
        return Unk("tile")
    t = I.d(t)
    while len(t.axes) < len(reps):
        t = T([Ax(1)] + list(t.axes), t.body)
    reps = [const(1)] * (len(t.axes) - len(reps)) + reps
    axes, mp = [], {}
    for a, r in zip(t.axes, reps):
        n = Ax(a.ext * r)
        if r == const(1):
            mp[a.v] = n.p()
        elif a.ext == const(1):
            mp[a.v] = const(0)
        else:
            mp[a.v] = mk_ap("mod", (n.p(), a.ext))
        axes.append(n)
    return T(axes, subst(pbody(t.body), mp))


@regnp("repeat")
def np_repeat(I, args, kw):
    t = I.d(arr(I, args[0]))
    r = I.d(I.num(arg(args, kw, 1, "repeats")))
    if r.axes:
        return Unk("repeat by array")
    rp = pbody(r.body)
    ax = arg(args, kw, 2, "axis")
    if isnone(ax):
        t = I.d(np_ravel(I, [t], {})) if len(t.axes) != 1 else t
        if not t.axes:
            n = Ax(rp)
            return T([n], pbody(t.body))
        k = 0
    else:
        k = tops.axis_list(I, t, ax)[0]
    a = t.axes[k]
    n = Ax(a.ext * rp)
    mp = {a.v: const(0) if a.ext == const(1) else (n.p() if rp == const(1) else mk_ap("floordiv", (n.p(), rp)))}
    axes = list(t.axes)
    axes[k] = n
    return T(axes, subst(pbody(t.body), mp))


@regnp("meshgrid")
def np_meshgrid(I, args, kw):
    ij = strkw(kw.get("indexing"), "xy")
    ts = [I.d(arr(I, a)) for a in args]
    axes = [Ax(t.axes[0].ext) for t in ts]
    order = list(axes)
    if ij == "xy" and len(order) >= 2:
        order[0], order[1] = order[1], order[0]
    return I.ref(HList([("i", T(order, subst(pbody(t.body), {t.axes[0].v: a.p()}))) for t, a in zip(ts, axes)]))


@regnp("ravel_multi_index")
def np_rmi(I, args, kw):
    it = I.iterate(args[0])
    if it[0] != "c":
        return Unk("ravel_multi_index")
    dims = shape_of(I, arg(args, kw, 1, "dims"))
    order = strkw(kw.get("order"), "C")
    idxs = it[1]
    if dims is None or len(dims) != len(idxs):
        raise raises(I, "ValueError: ravel_multi_index parameter count")
    if order == "F":
        dims, idxs = dims[::-1], idxs[::-1]

    def f(*bs):
        r = const(0)
        for b, d in zip(bs, dims):
            r = r * d + pbody(b)
        return r
    return ewise(I, f, *idxs)


@regnp("unravel_index")
def np_uri(I, args, kw):
    dims = shape_of(I, arg(args, kw, 1, "shape"))
    t = I.d(I.num(args[0]))
    order = strkw(kw.get("order"), "C")
    if dims is None:
        return Unk("unravel_index")
    ds = dims[::-1] if order == "F" else dims
    axes = [Ax(d) for d in ds]
    mp = {}
    tops.split(axes, pbody(t.body), mp)
    out = [T(t.axes, mp[a.v]) for a in axes]
    if order == "F":
        out.reverse()
    return Tup(out)


@regnp("convolve")
def np_convolve(I, args, kw):
    """every mode is a window of the full convolution"""
    a, v = I.d(arr(I, arg(args, kw, 0, "a"))), I.d(arr(I, arg(args, kw, 1, "v")))
    mode = arg(args, kw, 2, "mode")
    mode = "full" if isnone(mode) else mode.v if isinstance(mode, K) else None
    if len(a.axes) != 1 or len(v.axes) != 1 or mode not in ("full", "same", "valid"):
        return Unk("convolve")
    la, lv = (mk_lam([t.axes[0].v], [t.axes[0].ext], pbody(t.body)) for t in (a, v))
    if (len(lv.s), lv.s) < (len(la.s), la.s):
        la, lv = lv, la
    m, n = a.axes[0].ext, v.axes[0].ext
    big, small = (m, n) if prove_le(n, m) else (n, m) if prove_le(m, n) else (mk_ap("max", (m, n)), mk_ap("min", (m, n)))
    if mode == "full":
        ext, off = m + n - 1, const(0)
    elif mode == "same":
        ext, off = big, mk_ap("floordiv", (small - 1, const(2)))
    else:
        ext, off = big - small + 1, small - 1
    k = Ax(ext)
    return T([k], ap("convolve", (la, lv), (k.p() + off,)))


@regnp("searchsorted", "digitize")
def np_search(I, args, kw):
    return Unk("bin search")


@regnp("sort", "unique")
def np_sort(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 1:
        return Unk("sort")
    lam = mk_lam([t.axes[0].v], [t.axes[0].ext], pbody(t.body))
    i = Ax(t.axes[0].ext)
    return T([i], ap("sort", (lam,), (i.p(),)))


@regnp("argsort")
def np_argsort(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 1:
        return Unk("argsort")
    lam = mk_lam([t.axes[0].v], [t.axes[0].ext], pbody(t.body))
    i = Ax(t.axes[0].ext)
    return T([i], ap("argsort", (lam,), (i.p(),)))


@regnp("cross")
def np_cross(I, args, kw):
    return Unk("cross")


@regnp("triu", "tril")
def np_tri(I, args, kw):
    return Unk("tri")


@regnp("finfo")
def np_finfo(I, args, kw):
    return Opq("finfo", attrs={"eps": S(sym("eps")), "tiny": S(sym("tiny"))})


@regnp("ndim")
def np_ndim(I, args, kw):
    return S(len(I.num(args[0]).axes))


@regnp("shape")
def np_shape(I, args, kw):
    return models.arr_attr(I, I.num(args[0]), "shape")


@regnp("size")
def np_size(I, args, kw):
    return models.arr_attr(I, I.num(args[0]), "size")


@regnp("array_equal")
def np_array_equal(I, args, kw):
    return S(Cond("unk", ("equal#%d" % next(I._ids),)))


@regnp("isclose")
def np_isclose(I, args, kw):
    """|a - b| <= atol + rtol |b|"""
    a, b = args[0], args[1]
    rtol, atol = arg(args, kw, 2, "rtol", S(const(Fraction(1, 10 ** 5)))), arg(args, kw, 3, "atol", S(const(Fraction(1, 10 ** 8))))
    ab = lambda v: models.call(I, Ext("numpy.abs"), [v], {})  # noqa: E731
    lim = models.binop(I, ast.Add(), atol, models.binop(I, ast.Mult(), rtol, ab(b)))
    return models.compare(I, ast.LtE(), ab(models.binop(I, ast.Sub(), a, b)), lim)


@regnp("allclose")
def np_allclose(I, args, kw):
    return models.call(I, Ext("numpy.all"), [np_isclose(I, args, kw)], {})


@regnp("vectorize")
def np_vectorize(I, args, kw):
    return Unk("vectorize")


@regnp("shares_memory", "may_share_memory")
def np_sm(I, args, kw):
    return S(Cond("unk", ("mem#%d" % next(I._ids),)))


@regnp("trapz", "trapezoid")
@reg("scipy.integrate.trapezoid", "scipy.integrate.trapz")
def np_trapz(I, args, kw):
    y = I.d(arr(I, args[0]))
    x = arg(args, kw, 1, "x")
    dx = arg(args, kw, 2, "dx")
    dx = const(1) if isnone(dx) else I.sc(dx)
    ax = arg(args, kw, 3, "axis", S(-1))
    k = tops.axis_list(I, y, ax)[0]
    a = y.axes[k]
    if not isnone(x):
        xt = I.d(arr(I, x))
        if len(xt.axes) != 1:
            return Unk("trapezoid")
        fx = lambda p: subst(pbody(xt.body), {xt.axes[0].v: p})
        j = fresh_iv()
        Bounds.iv[j] = (const(0), a.ext - 1)
        f = lambda p: subst(pbody(y.body), {a.v: p})
        body = mk_sum(j, const(0), a.ext - 1, (f(iv(j)) + f(iv(j) + 1)) * (fx(iv(j) + 1) - fx(iv(j))) / 2)
        return T([b for b in y.axes if b is not a], body)
    f = lambda p: subst(pbody(y.body), {a.v: p})
    s = mk_sum(a.v, const(0), a.ext, pbody(y.body))
    n1 = a.ext
    body = (s - f(const(0)) / 2 - f(n1 - 1) / 2) * dx
    if n1.const() is None and prove_neg(const(1) - n1) is not True:
        # one sample integrates to zero
        body = mk_ite(c_lt(const(1), n1), body, const(0))
    elif n1 == const(1):
        body = const(0)
    return T([b for b in y.axes if b is not a], body)


@reg("scipy.integrate.simpson", "scipy.integrate.simps")
def sp_simpson(I, args, kw):
    y = I.d(arr(I, args[0]))
    x = arg(args, kw, 1, "x")
    dx = arg(args, kw, 2, "dx")
    dx = const(1) if isnone(dx) else I.sc(dx)
    ax = arg(args, kw, 3, "axis", S(-1))
    k = tops.axis_list(I, y, ax)[0]
    a = y.axes[k]
    if not isnone(x):
        xt = I.d(arr(I, x))
        dep = [b for b in xt.axes]
        if len(dep) != 1:
            return Unk("simpson")
        lx = mk_lam([dep[0].v], [dep[0].ext], pbody(xt.body))
        return T([b for b in y.axes if b is not a], ap("simpson_x", (mk_lam([a.v], [a.ext], pbody(y.body)), lx)))
    return T([b for b in y.axes if b is not a], ap("simpson", (mk_lam([a.v], [a.ext], pbody(y.body)),)) * dx)


@reg("scipy.integrate.cumulative_trapezoid", "scipy.integrate.cumtrapz")
def sp_cumtrapz(I, args, kw):
    y = I.d(arr(I, args[0]))
    x = arg(args, kw, 1, "x")
    dx = arg(args, kw, 2, "dx")
    dx = const(1) if isnone(dx) else I.sc(dx)
    ax = arg(args, kw, 3, "axis", S(-1))
    ini = arg(args, kw, 4, "initial")
    k = tops.axis_list(I, y, ax)[0]
    a = y.axes[k]
    f = lambda p: subst(pbody(y.body), {a.v: p})
    if not isnone(x):
        xt = I.d(arr(I, x))
        if len(xt.axes) != 1:
            return Unk("cumulative_trapezoid")
        h = lambda p: subst(pbody(xt.body), {xt.axes[0].v: p + 1}) - subst(pbody(xt.body), {xt.axes[0].v: p})
    else:
        h = lambda p: dx
    n = Ax(a.ext - 1 if isnone(ini) else a.ext)
    j = fresh_iv()
    top = n.p() + 1 if isnone(ini) else n.p()
    Bounds.iv[j] = (const(0), top)
    body = mk_sum(j, const(0), top, (f(iv(j)) + f(iv(j) + 1)) / 2 * h(iv(j)))
    if not isnone(ini):
        i0 = I.sc(ini)
        if not i0.iszero():
            body = mk_ite(c_eq(n.p(), const(0)), i0, body)
    axes = [n if b is a else b for b in y.axes]
    return T(axes, body)


# ------------------------------------------------------------------------ fft
def strip_zero_tail(lam):
    """effective length of a 1-d signal that ends in explicit zeros: (Lam, length)"""
    (i,), (e,), body = open_fresh(lam)
    at = as_atom(body)
    if at is not None and at.kind == "cat" and at.args[0] == iv(i):
        ps = list(at.args[1])
        while ps:
            (j,), (ee,), b = open_fresh(ps[-1][1])
            if isinstance(b, P) and b.iszero():
                ps.pop()
            else:
                break
        if len(ps) < len(at.args[1]):
            n = const(0)
            for ext, _ in ps:
                n = n + ext
            nv = fresh_iv()
            Bounds.iv[nv] = (const(0), n)
            if len(ps) == 1:
                nb = open_lam(ps[0][1], [iv(nv)])
            else:
                nb = mk_cat(iv(nv), tuple(ps))
            return mk_lam([nv], [n], nb), n
    return lam, e


def linear_in_cat(body):
    return body


@reg("numpy.fft.rfft", "scipy.fft.rfft")
def fft_rfft(I, args, kw):
    return fft_fft(I, args, kw, True)


@reg("numpy.fft.fft", "scipy.fft.fft")
def fft_fft(I, args, kw, half=False):
    t = I.d(arr(I, args[0]))
    n = arg(args, kw, 1, "n")
    ax = arg(args, kw, 2, "axis", S(-1))
    k = tops.axis_list(I, t, ax)[0]
    a = t.axes[k]
    N = a.ext if isnone(n) else I.sc(n)
    f = Ax(N) if not half else Ax(mk_ap("floordiv", (N, const(2))) + 1)
    lam = mk_lam([a.v], [a.ext], pbody(t.body))
    lam, eff = strip_zero_tail(lam)
    axes = list(t.axes)
    axes[k] = f
    if prove_neg(N - eff) is True:
        # the signal is cropped
        (i,), _, b = open_fresh(lam)
        lam = mk_lam([i], [N], b)
    return T(axes, ap("fft", (lam, N), (f.p(),)))


@reg("numpy.fft.irfft", "scipy.fft.irfft")
def fft_irfft(I, args, kw):
    return fft_ifft(I, args, kw, True)


@reg("numpy.fft.ifft", "scipy.fft.ifft")
def fft_ifft(I, args, kw, half=False):
    t = I.d(arr(I, args[0]))
    n = arg(args, kw, 1, "n")
    ax = arg(args, kw, 2, "axis", S(-1))
    k = tops.axis_list(I, t, ax)[0]
    a = t.axes[k]
    if half:
        N = 2 * (a.ext - 1) if isnone(n) else I.sc(n)
        if a.ext != mk_ap("floordiv", (N, const(2))) + 1:
            return Unk("resized irfft")
    else:
        N = a.ext
        if not isnone(n) and I.sc(n) != a.ext:
            return Unk("resized ifft")
    m = Ax(N)
    axes = list(t.axes)
    axes[k] = m
    body = const(0)
    for mono, c in pbody(t.body).t.items():
        dep = [(at, e) for at, e in mono if a.v in at.fv]
        co = P({tuple((at, e) for at, e in mono if a.v not in at.fv): c})
        r = None
        if len(dep) == 2 and all(e == 1 for _, e in dep):
            names = {dep[0][0].name: dep[0][0], dep[1][0].name: dep[1][0]}
            if set(names) == {"fft", "cfft"}:
                r = cross_corr(names["cfft"], names["fft"], a, m)
                if r is None and half:
                    return Unk("irfft")
        elif len(dep) == 1 and dep[0][1] == 1 and dep[0][0].name == "fft" and dep[0][0].args[1] == (a.p(),):
            lam, N = dep[0][0].args[0]
            r = open_lam(lam, [m.p()])
        if r is None:
            if half:
                return Unk("irfft")
            lam = mk_lam([a.v], [a.ext], P({tuple(dep): Fraction(1)}))
            r = ap("ifft", (lam,), (m.p(),))
        body = body + co * r
    return T(axes, body)


def cross_corr(A, B, a, m):
    """inverse transform of conj(F[x]) F[y] for real signals: circular correlation of period N"""
    if A.args[1] != (a.p(),) or B.args[1] != (a.p(),):
        return None
    la, NA = A.args[0]
    lb, NB = B.args[0]
    if NA != NB or NA != m.ext:
        return None
    N = NA
    (i,), (ea,), ba = open_fresh(la)
    (j,), (eb,), bb = open_fresh(lb)
    Bounds.iv[i] = (const(0), ea)
    lag = m.p()
    # sum over t of x[t] y[t+lag]
    if ea == eb:
        top = ea - lag
    else:
        top = mk_ap("min", (ea, eb - lag))
    t = fresh_iv()
    Bounds.iv[t] = (const(0), top)
    lin = mk_sum(t, const(0), top, subst(ba, {i: iv(t)}) * subst(bb, {j: iv(t) + lag}))
    pos = c_lt(lag, eb)
    rest = ap("neglag", (la, lb, N), (lag,))
    # aliasing: terms y[t + lag - N] exist when N < ea + lag ; lag < eb
    if prove_le(ea + eb - 1, N) or prove_le(ea + eb, N):
        return mk_ite(pos, lin, rest)
    if prove_neg(N - (ea + eb - 1)) is True or _short_pad(N, ea):
        return mk_ite(pos, lin + ap("alias", (la, lb), (lag,)), rest)
    return mk_ite(pos, unk("padding length %s" % N), rest)


def _short_pad(N, e):
    """N is smaller than 2 e - 1 for some length e.  A power of two (or fast length) chosen at or above q comes arbitrarily
    close to q from above for suitable lengths, so its lower bound decides."""
    p = N - 2 * e + 1
    for m, c in list(p.t.items()):
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ap":
            lo, hi = alg._bounds_of(m[0][0])
            b = (lo if m[0][0].name in ("pow", "nextfast") else hi) if c > 0 else lo
            if b is None or (m[0][0].name in ("pow", "nextfast") and c < 0):
                return False
            p = p - P({m: c}) + b * const(c)
    lin = [(m[0][0], c) for m, c in p.t.items() if m]
    return len(lin) == 1 and all(len(m) <= 1 and all(e == 1 for _, e in m) for m in p.t) and lin[0][0].kind == "sym" and lin[0][1] < 0


def pow2_lower(at):
    """lower bound of 2**ceil(log(L)/log(2))"""
    b, e = at.args[0]
    if b.const() == 2:
        c = as_atom(e)
        if c is not None and c.kind == "ap" and c.name == "ceil":
            q = c.args[0][0] * mk_ap("log", (const(2),))
            l = as_atom(q)
            if l is not None and l.kind == "ap" and l.name == "log":
                return l.args[0][0]
    return None


@reg("scipy.fft.next_fast_len", "scipy.fftpack.next_fast_len")
def next_fast(I, args, kw):
    return S(mk_ap("nextfast", (I.sc(args[0]),)))


@reg("numpy.fft.fftfreq")
def fftfreq(I, args, kw):
    n = I.sc(args[0])
    d = arg(args, kw, 1, "d")
    d = const(1) if isnone(d) else I.sc(d)
    i = Ax(n)
    half = mk_ap("floordiv", (n + 1, const(2)))
    return T([i], mk_ite(c_lt(i.p(), half), i.p(), i.p() - n) / (n * d))


# --------------------------------------------------------------------- random
def rnd(name):
    def g(I, args, kw):
        I.event("global-random", name)
        if name == "randint" and args and set(kw) <= {"high"} and len(args) <= 2:
            lo, hi = I.sc(args[0]), arg(args, kw, 1, "high")
            lo, hi = (const(0), lo) if isnone(hi) else (lo, I.sc(hi))
            if (hi - lo).const() == 1:
                return S(lo)
            v = fresh_iv()
            Bounds.iv[v] = (lo, hi)
            return S(iv(v))
        return Unk("random")
    return g


for _n in ("rand", "randn", "normal", "uniform", "randint", "random", "standard_normal", "seed", "choice", "multivariate_normal", "permutation", "shuffle"):
    NP["numpy.random." + _n] = rnd(_n)


@reg("numpy.random.default_rng", "numpy.random.RandomState")
def rng_new(I, args, kw):
    I.event("global-random", "generator")
    return Unk("generator")
