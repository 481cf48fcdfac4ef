"""numpy / scipy models"""
import alg
from values import *
import tops
from tops import pbody, ewise, unary
import models
from models import NP, arg, isnone, raises, islist, isds, to_array, mkrange, ppow, METH


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


def regnp(*names):
    return reg(*["numpy." + n for n in names])


def arr(I, v):
    """np.asarray semantics (shares memory)"""
    if isinstance(v, T):
        return models.strip(I, v) if v.xr else v
    if isds(I, v):
        return T([Ax(1)], unk("array of dataset"))
    t = I.num(v)
    return t


def strkw(v, default):
    return v.v if isinstance(v, K) and isinstance(v.v, str) else default


# ------------------------------------------------------------- constructors
def shape_of(I, v):
    """list of P"""
    if isinstance(v, T) and not v.axes:
        return [I.sc(v)]
    if isinstance(v, Opq):
        return None
    it = I.iterate(v)
    if it[0] != "c":
        return None
    return [I.sc(x) for x in it[1]]


def filled(f):
    def g(I, args, kw):
        sh = shape_of(I, arg(args, kw, 0, "shape"))
        if sh is None:
            return Unk("array of unknown shape")
        for s in sh:
            c = s.const()
            if c is not None and c < 0:
                raise raises(I, "ValueError: negative dimensions")
        return T([Ax(s) for s in sh], f(), name=kept(arg(args, kw, 1, "dtype")))
    return g


def kept(dtype):
    """mark of an array that keeps fewer digits"""
    return "@f32" if dtype is not None and dtype_name(dtype) in NARROW else None


NP["numpy.zeros"] = filled(lambda: const(0))
NP["numpy.ones"] = filled(lambda: const(1))


@regnp("empty")
def np_empty(I, args, kw):
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    if sh is None:
        return Unk("array of unknown shape")
    axes = [Ax(s) for s in sh]
    return T(axes, ap("@uninit", (), [a.p() for a in axes]), name=kept(arg(args, kw, 1, "dtype")))


@regnp("full")
def np_full(I, args, kw):
    sh = shape_of(I, arg(args, kw, 0, "shape"))
    if sh is None:
        return Unk("array of unknown shape")
    axes = [Ax(s) for s in sh]
    b = tops.broadcast_body(I, I.d(I.num(arg(args, kw, 1, "fill_value"))), axes)
    return T(axes, b if b is not None else unk("full"))


def like(c):
    def g(I, args, kw):
        t = I.num(args[0])
        if "shape" in kw:
            return NP["numpy.zeros" if c == 0 else "numpy.ones"](I, [kw["shape"]], {})
        return T([Ax(a.ext, a.label) for a in t.axes], const(c), t.xr, t.coords, name=kept(arg(args, kw, 1, "dtype")))
    return g


NP["numpy.zeros_like"] = like(0)
NP["numpy.ones_like"] = like(1)
NP["xarray.zeros_like"] = like(0)
NP["xarray.ones_like"] = like(1)
NP["numpy.empty_like"] = lambda I, a, k: np_empty(I, [models.arr_attr(I, I.num(a[0]), "shape")], {})


@regnp("full_like")
def np_full_like(I, args, kw):
    return np_full(I, [models.arr_attr(I, I.num(args[0]), "shape"), arg(args, kw, 1, "fill_value")], {})


@regnp("eye", "identity")
def np_eye(I, args, kw):
    n = I.sc(args[0])
    m = arg(args, kw, 1, "M")
    m = n if isnone(m) else I.sc(m)
    k = arg(args, kw, 2, "k")
    k = const(0) if isnone(k) else I.sc(k)
    i, j = Ax(n), Ax(m)
    return T([i, j], mk_delta(j.p() - i.p() - k))


@regnp("arange")
def np_arange(I, args, kw):
    a = [x for x in args]
    lo, hi, st = const(0), None, const(1)
    if len(a) == 1 and "stop" not in kw:
        hi = I.sc(a[0])
    else:
        lo = I.sc(arg(args, kw, 0, "start", S(0)))
        hi = I.sc(arg(args, kw, 1, "stop"))
        s = arg(args, kw, 2, "step")
        if not isnone(s):
            st = I.sc(s)
    if st.intval() is None:
        n = mk_ap("ceil", ((hi - lo) / st,))
        i = Ax(n)
        return T([i], lo + i.p() * st)
    s = mkrange(I, lo, hi, st)
    return to_array(I, s)


@regnp("linspace")
def np_linspace(I, args, kw):
    a, b = I.d(I.num(arg(args, kw, 0, "start"))), I.d(I.num(arg(args, kw, 1, "stop")))
    n = arg(args, kw, 2, "num")
    n = const(50) if isnone(n) else I.sc(n)
    ep = arg(args, kw, 3, "endpoint")
    div = n - 1
    if ep is not None:
        c = I.truth(ep)
        if c.op == "false":
            div = n
        elif c.op != "true":
            return Unk("linspace endpoint")
    if a.axes or b.axes:
        ax = arg(args, kw, None, "axis")
        r = ewise(I, lambda x, y: (pbody(x), pbody(y)) and pbody(y) - pbody(x), a, b)
        axes, bodies, xr, co = tops.broadcast(I, [a, b])
        i = Ax(n)
        body = pbody(bodies[0]) + i.p() * (pbody(bodies[1]) - pbody(bodies[0])) / div
        k = 0
        if not isnone(ax):
            k = I.sc(ax).intval()
            if k is not None and k < 0:
                k += len(axes) + 1
        na = list(axes)
        na.insert(k, i)
        return T(na, body)
    i = Ax(n)
    if div.iszero():
        return T([i], pbody(a.body))
    r = T([i], pbody(a.body) + i.p() * (pbody(b.body) - pbody(a.body)) / div)
    rs = arg(args, kw, None, "retstep")
    if rs is not None:
        return Tup([r, S((pbody(b.body) - pbody(a.body)) / div)])
    return r


@regnp("array", "asarray", "ascontiguousarray", "asfortranarray", "atleast_1d", "copy", "asanyarray", "float64", "squeeze", "ravel", "matrix")
def np_array(I, args, kw):
    return complexed(I, arr(I, args[0]), arg(args, kw, 1, "dtype"))


@regnp("float32", "float16", "single", "half")
def np_f32(I, args, kw):
    return narrowed(I.d(arr(I, args[0])), K("float32"))


@regnp("int64", "int32", "int_", "intp")
def np_int(I, args, kw):
    return narrowed(I.d(arr(I, args[0])), K("int"))


@regnp("complex128", "complex64", "cdouble", "csingle")
def np_complex(I, args, kw):
    return complexed(I, arr(I, args[0]), K("complex"))


NARROW = {"float32", "float16", "single", "half", "f4", "f2", "<f4", "<f2", "=f4", "e", "f", "complex64", "csingle", "c8"}
INTEGER = {"int", "int64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "uint64", "intp", "intc", "i8", "i4", "i2", "i", "int_", "integer", "bool", "bool_"}


def dtype_name(dtype):
    n = dtype.name if isinstance(dtype, Ext) else dtype.v if isinstance(dtype, K) else ""
    return str(n).split(".")[-1]


def whole(b):
    """made of integers only, through case distinctions"""
    if isinstance(b, alg.Lam):
        return whole(alg.open_fresh(b)[2])
    if isinstance(b, (tuple, list)):
        return all(whole(x) for x in b)
    if not isinstance(b, P):
        return True
    for m, c in b.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e.denominator != 1 or e < 0:
                return False
            if not (alg._intatom(a) or a.kind in ("ite", "cat", "sum", "delta", "pw") and whole(a.args)):
                return False
    return True


def narrowed(t, dtype):
    """values kept with fewer digits than they have"""
    n = dtype_name(dtype)
    b = t.body
    if not isinstance(b, P):
        return t
    if n in NARROW and not whole(b):
        return T(t.axes, mk_ap("f32", (b,)), t.xr, t.coords, name=t.name)
    if n in INTEGER and not n.startswith("bool") and not whole(b):
        return T(t.axes, mk_ap("trunc", (b,)), t.xr, t.coords, name=t.name)
    return t


def complexed(I, t, dtype):
    """conversion to complex numbers, tracked on request by adding the complex zero"""
    if dtype_name(dtype) in NARROW | INTEGER:
        return narrowed(I.d(t), dtype)
    if not getattr(I, "track_complex", False) or dtype is None:
        return t
    n = dtype.name if isinstance(dtype, Ext) else dtype.v if isinstance(dtype, K) else ""
    if "complex" not in str(n).lower():
        return t
    t = I.d(t)
    return T(t.axes, pbody(t.body) + mk_ap("complex", (const(0),)))


@regnp("array")
def np_array_(I, args, kw):
    t = complexed(I, arr(I, args[0]), arg(args, kw, 1, "dtype"))
    nd = kw.get("ndmin")
    t = I.d(t)
    t = T(t.axes, t.body)
    if nd is not None:
        k = I.sc(nd).intval()
        while k is not None and len(t.axes) < k:
            t = T([Ax(1)] + list(t.axes), t.body)
    return t


NP["numpy.copy"] = lambda I, a, k: models.strip(I, I.d(arr(I, a[0])))


@regnp("atleast_1d")
def np_atl1(I, args, kw):
    t = arr(I, args[0])
    return t if t.axes else T([Ax(1)], I.d(t).body)


@regnp("atleast_2d")
def np_atl2(I, args, kw):
    t = arr(I, args[0])
    d = I.d(t)
    if len(t.axes) >= 2:
        return t
    if len(t.axes) == 1:
        return tops.index(I, t, Tup([NONE, Sl(NONE, NONE, NONE)]))
    return T([Ax(1), Ax(1)], d.body)


# -------------------------------------------------------------- elementwise
def fn1(name):
    return lambda I, a, k: map1(I, a[0], lambda p: mk_ap(name, (p,)))


def map1(I, v, f):
    if isds(I, v):
        return models.ds_map(I, v, lambda t: unary(I, t, f))
    return unary(I, I.num(v), f)


def _exp(p):
    return mk_ap("exp", (p,))


for _n in ("sin", "cos", "tan", "sinh", "cosh", "tanh", "floor", "ceil", "sign", "arctan", "arcsin", "arccos", "trunc", "rint", "isnan", "isfinite", "exp", "sinc"):
    NP["numpy." + _n] = fn1(_n)
for _n in ("abs", "absolute", "fabs"):
    NP["numpy." + _n] = fn1("abs")
NP["builtins.abs"] = fn1("abs")
NP["numpy.degrees"] = lambda I, a, k: map1(I, a[0], lambda p: p * 180 / sym("pi"))
NP["numpy.radians"] = lambda I, a, k: map1(I, a[0], lambda p: p * sym("pi") / 180)
NP["numpy.negative"] = lambda I, a, k: map1(I, a[0], lambda p: -p)
NP["numpy.positive"] = lambda I, a, k: map1(I, a[0], lambda p: p)
NP["numpy.square"] = lambda I, a, k: map1(I, a[0], lambda p: p * p)
NP["numpy.reciprocal"] = lambda I, a, k: map1(I, a[0], lambda p: p.inv())
NP["numpy.sqrt"] = lambda I, a, k: map1(I, a[0], lambda p: p.pow(Fraction(1, 2)))
NP["numpy.cbrt"] = lambda I, a, k: map1(I, a[0], lambda p: p.pow(Fraction(1, 3)))
NP["numpy.expm1"] = lambda I, a, k: map1(I, a[0], lambda p: _exp(p) - 1)
NP["numpy.log1p"] = lambda I, a, k: map1(I, a[0], lambda p: mk_ap("log", (p + 1,)))
NP["numpy.log"] = lambda I, a, k: map1(I, a[0], _log) if len(a) == 1 else ewise(I, lambda x, b: _log(pbody(x)) / _log(pbody(b)), a[0], a[1])
NP["numpy.log2"] = lambda I, a, k: map1(I, a[0], lambda p: _log(p) / _log(const(2)))
NP["numpy.log10"] = lambda I, a, k: map1(I, a[0], lambda p: _log(p) / _log(const(10)))


def _log(p):
    return mk_ap("log", (p,))


@regnp("round", "around", "round_")
def np_round(I, args, kw):
    d = arg(args, kw, 1, "decimals")
    if isnone(d):
        return map1(I, args[0], lambda p: mk_ap("round", (p,)))
    s = I.sc(d)
    return map1(I, args[0], lambda p: mk_ap("round", (p * ppow(const(10), s),)) / ppow(const(10), s))


def fn2(f):
    def g(I, a, k):
        r = ewise(I, lambda x, y: f(x, y), a[0], a[1])
        out = k.get("out")
        if isinstance(out, T) and out.buf is not None:
            I.store(out, r)
            return out
        return r
    return g


NP["numpy.add"] = fn2(lambda x, y: pbody(x) + pbody(y))
NP["numpy.subtract"] = fn2(lambda x, y: pbody(x) - pbody(y))
NP["numpy.multiply"] = fn2(lambda x, y: pbody(x) * pbody(y))
NP["numpy.divide"] = NP["numpy.true_divide"] = fn2(lambda x, y: pbody(x) / pbody(y))
NP["numpy.power"] = NP["numpy.float_power"] = NP["builtins.pow"] = fn2(lambda x, y: ppow(pbody(x), pbody(y)))
NP["numpy.floor_divide"] = fn2(lambda x, y: mk_ap("floordiv", (pbody(x), pbody(y))))
NP["numpy.mod"] = NP["numpy.remainder"] = NP["numpy.fmod"] = fn2(lambda x, y: mk_ap("mod", (pbody(x), pbody(y))))
NP["numpy.maximum"] = NP["numpy.fmax"] = fn2(lambda x, y: mk_ap("max", (pbody(x), pbody(y))))
NP["numpy.minimum"] = NP["numpy.fmin"] = fn2(lambda x, y: mk_ap("min", (pbody(x), pbody(y))))
NP["numpy.arctan2"] = fn2(lambda x, y: mk_ap("arctan2", (pbody(x), pbody(y))))
NP["numpy.hypot"] = fn2(lambda x, y: (pbody(x) * pbody(x) + pbody(y) * pbody(y)).pow(Fraction(1, 2)))
NP["numpy.less"] = fn2(lambda x, y: c_lt(pbody(x), pbody(y)))
NP["numpy.greater"] = fn2(lambda x, y: c_lt(pbody(y), pbody(x)))
NP["numpy.less_equal"] = fn2(lambda x, y: c_le(pbody(x), pbody(y)))
NP["numpy.greater_equal"] = fn2(lambda x, y: c_le(pbody(y), pbody(x)))
NP["numpy.equal"] = fn2(lambda x, y: c_eq(pbody(x), pbody(y)))
NP["numpy.not_equal"] = fn2(lambda x, y: c_not(c_eq(pbody(x), pbody(y))))


def tocond(b):
    return b if isinstance(b, Cond) else c_not(c_eq(b, const(0)))


NP["numpy.logical_and"] = fn2(lambda x, y: c_and(tocond(x), tocond(y)))
NP["numpy.logical_or"] = fn2(lambda x, y: c_or(tocond(x), tocond(y)))
NP["numpy.logical_not"] = lambda I, a, k: (lambda t: T(t.axes, c_not(tocond(t.body)), t.xr, t.coords))(I.d(I.num(a[0])))


@regnp("clip")
def np_clip(I, args, kw):
    t = args[0]
    lo, hi = arg(args, kw, 1, "a_min"), arg(args, kw, 2, "a_max")
    if not isnone(lo):
        t = NP["numpy.maximum"](I, [t, lo], {})
    if not isnone(hi):
        t = NP["numpy.minimum"](I, [t, hi], {})
    return t


def _has_complex(p):
    return any((a.kind == "sym" and a.name == "I") or (a.kind == "ap" and a.name in ("fft", "cfft", "ifft", "eigval", "eigvec", "complex")) for a in walk(p))


@regnp("real")
def np_real(I, args, kw):
    return map1(I, args[0], lambda p: mk_ap("real", (p,)) if _has_complex(p) else p)


@regnp("imag")
def np_imag(I, args, kw):
    return map1(I, args[0], lambda p: mk_ap("imag", (p,)) if _has_complex(p) else const(0))


@regnp("conj", "conjugate")
def np_conj(I, args, kw):
    def f(p):
        if not _has_complex(p):
            return p
        bad = []

        def pred(a):
            return a.kind == "ap" and a.name in ("fft", "cfft", "eigval", "eigvec", "complex", "ifft") or (a.kind == "sym" and a.name == "I")

        def g(a):
            if a.kind == "sym":
                return -sym("I")
            if a.name == "fft":
                return topoly(Atom("ap", "cfft", a.args))
            if a.name == "cfft":
                return topoly(Atom("ap", "fft", a.args))
            return mk_ap("conj", (topoly(a),))
        return map_atoms(p, pred, g)
    return map1(I, args[0], f)


# --------------------------------------------------------------------- where
@regnp("where")
def np_where(I, args, kw):
    if len(args) == 1:
        return NP["numpy.nonzero"](I, args, kw)

    def f(c, a, b):
        return mk_ite(tocond(c), pbody(a), pbody(b))
    return ewise(I, f, args[0], args[1], args[2])


@regnp("heaviside")
def np_heav(I, args, kw):
    return ewise(I, lambda x, h: mk_ite(c_lt(pbody(x), const(0)), const(0), mk_ite(c_eq(pbody(x), const(0)), pbody(h), const(1))), args[0], args[1])


@regnp("select")
def np_select(I, args, kw):
    cl = I.iterate(args[0])[1]
    vl = I.iterate(args[1])[1]
    r = arg(args, kw, 2, "default", S(0))
    for c, v in reversed(list(zip(cl, vl))):
        r = np_where(I, [c, v, r], {})
    return r


@regnp("piecewise")
def np_piecewise(I, args, kw):
    x = args[0]
    cl = I.iterate(args[1])[1]
    fl = I.iterate(args[2])[1]
    ev = lambda f: I.call(f, [x], {}) if not isinstance(f, T) else f
    r = ev(fl[-1]) if len(fl) > len(cl) else S(0)
    for c, v in list(zip(cl, fl)):
        r = np_where(I, [c, ev(v), r], {})
    return r


@regnp("nonzero")
def np_nonzero(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 1:
        return Unk("nonzero of rank %d" % len(t.axes))
    c = tocond(t.body)
    a = t.axes[0]
    lam = mk_lam([a.v], [a.ext], mk_ite(c, const(1), const(0)))
    n = ap("count", (lam,))
    i = Ax(n)
    return Tup([T([i], ap("nz", (lam,), (i.p(),)))])


NP["numpy.flatnonzero"] = lambda I, a, k: (lambda r: r.items[0] if isinstance(r, Tup) else r)(np_nonzero(I, a, k))


# ----------------------------------------------------------------- reductions
def red_args(I, args, kw):
    t = args[0]
    t = t if isinstance(t, T) else I.num(t)
    ax = arg(args, kw, 1, "axis")
    if ax is None:
        ax = kw.get("dim", kw.get("dims"))
    axl = tops.axis_list(I, t, ax)
    kd = kw.get("keepdims")
    keep = kd is not None and I.truth(kd).op == "true"
    return t, axl, keep


@regnp("sum", "nansum")
def np_sum(I, args, kw):
    if isds(I, args[0]):
        return models.ds_map(I, args[0], lambda t: np_sum(I, [t] + list(args[1:]), kw))
    t, axl, keep = red_args(I, args, kw)
    if axl is None:
        return Unk("symbolic axis")
    return tops.reduce_sum(I, t, axl, keep)


@regnp("mean", "average", "nanmean")
def np_mean(I, args, kw):
    if isds(I, args[0]):
        return models.ds_map(I, args[0], lambda t: np_mean(I, [t] + list(args[1:]), kw))
    t, axl, keep = red_args(I, args, kw)
    if axl is None:
        return Unk("symbolic axis")
    w = kw.get("weights")
    if not isnone(w):
        if len(t.axes) != 1 and len(axl) != 1:
            return Unk("weighted average")
        td, wd = I.d(t), I.d(I.num(w))
        if len(wd.axes) == 1:
            a = td.axes[axl[0]]
            wb = subst(pbody(wd.body), {wd.axes[0].v: a.p()})
            num = mk_sum(a.v, const(0), a.ext, pbody(td.body) * wb)
            den = mk_sum(a.v, const(0), a.ext, wb)
            return T([x for k, x in enumerate(td.axes) if k != axl[0]], num / den)
        return Unk("weighted average")
    n = const(1)
    for k in axl:
        n = n * t.axes[k].ext
    r = tops.reduce_sum(I, t, axl, keep)
    return T(r.axes, r.body / n, r.xr, r.coords)


@regnp("var")
def np_var(I, args, kw):
    t, axl, keep = red_args(I, args, kw)
    dd = kw.get("ddof")
    dd = const(0) if isnone(dd) else I.sc(dd)
    td = I.d(t)
    n = const(1)
    for k in axl:
        n = n * td.axes[k].ext
    m = tops.reduce_sum(I, td, axl, True)
    dev = ewise(I, lambda a, b: (pbody(a) - pbody(b) / n) * (pbody(a) - pbody(b) / n), td, m)
    s = tops.reduce_sum(I, dev, axl, keep)
    return T(s.axes, s.body / (n - dd), s.xr, s.coords)


@regnp("std")
def np_std(I, args, kw):
    return NP["numpy.sqrt"](I, [np_var(I, args, kw)], {})


@regnp("prod")
def np_prod(I, args, kw):
    t, axl, keep = red_args(I, args, kw)
    td = I.d(t)
    if len(axl) == 1 and td.axes[axl[0]].ext.intval() is not None and td.axes[axl[0]].ext.intval() <= 12:
        a = td.axes[axl[0]]
        r = const(1)
        for k in range(a.ext.intval()):
            r = r * subst(pbody(td.body), {a.v: const(k)})
        return T([x for x in td.axes if x is not a], r)
    return tops.reduce_ap(I, "prod", t, axl, keep)


def redap(name):
    def g(I, args, kw):
        if isds(I, args[0]):
            return models.ds_map(I, args[0], lambda t: g(I, [t] + list(args[1:]), kw))
        t, axl, keep = red_args(I, args, kw)
        if axl is None:
            return Unk("symbolic axis")
        return tops.reduce_ap(I, name, t, axl, keep)
    return g


for _a, _b in (("min", "amin"), ("amin", "amin"), ("max", "amax"), ("amax", "amax"), ("argmin", "argmin"), ("argmax", "argmax"), ("median", "median"), ("nanmin", "amin"), ("nanmax", "amax")):
    NP["numpy." + _a] = redap(_b)


@regnp("ptp")
def np_ptp(I, args, kw):
    return models.binop(I, __import__("ast").Sub(), NP["numpy.max"](I, args, kw), NP["numpy.min"](I, args, kw))


def quant(kind):
    def g(I, args, kw):
        t, axl, keep = red_args(I, args, kw)
        td = I.d(t)
        c = tocond(td.body)
        red = [td.axes[k] for k in axl]
        out = [a for k, a in enumerate(td.axes) if k not in axl]
        if all(a.ext.intval() is not None and a.ext.intval() <= 12 for a in red):
            import itertools
            cs = []
            for combo in itertools.product(*[range(a.ext.intval()) for a in red]):
                cs.append(subst(c, {a.v: const(k) for a, k in zip(red, combo)}))
            r = (c_or(*cs) if cs else FALSE) if kind == "any" else (c_and(*cs) if cs else TRUE)
            return T(out, r)
        if c.op in ("true", "false"):
            return T(out, c)
        lam = mk_lam([a.v for a in red], [a.ext for a in red], mk_ite(c, const(1), const(0)))
        return T(out, c_not(c_eq(ap(kind, (lam,)), const(0))))
    return g


NP["numpy.any"] = quant("any")
NP["numpy.all"] = quant("all")


@regnp("count_nonzero")
def np_cnz(I, args, kw):
    t, axl, keep = red_args(I, args, kw)
    td = I.d(t)
    return tops.reduce_sum(I, T(td.axes, mk_ite(tocond(td.body), const(1), const(0))), axl, keep)


@regnp("cumsum")
def np_cumsum(I, args, kw):
    t = I.d(arr(I, args[0]))
    ax = arg(args, kw, 1, "axis")
    if isnone(ax):
        if len(t.axes) != 1:
            return Unk("flat cumsum")
        k = 0
    else:
        k = tops.axis_list(I, t, ax)[0]
    a = t.axes[k]
    j = fresh_iv()
    Bounds.iv[j] = (const(0), a.p() + 1)
    return T(t.axes, mk_sum(j, const(0), a.p() + 1, subst(pbody(t.body), {a.v: iv(j)})), t.xr, t.coords)


@regnp("diff")
def np_diff(I, args, kw):
    t = arr(I, args[0])
    n = arg(args, kw, 1, "n")
    n = 1 if isnone(n) else I.sc(n).intval()
    ax = arg(args, kw, 2, "axis", S(-1))
    for _ in range(n or 0):
        k = tops.axis_list(I, t, ax)[0]
        full = Sl(NONE, NONE, NONE)
        a = tops.index(I, t, Tup([full] * k + [Sl(S(1), NONE, NONE)]))
        b = tops.index(I, t, Tup([full] * k + [Sl(NONE, S(-1), NONE)]))
        t = ewise(I, lambda x, y: pbody(x) - pbody(y), a, b)
    return t


@regnp("gradient")
def np_gradient(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 1:
        return Unk("gradient")
    h = I.d(I.num(args[1])) if len(args) > 1 else S(1)
    if h.axes:
        return Unk("gradient with coordinates")
    a = t.axes[0]
    f = lambda p: subst(pbody(t.body), {a.v: p})
    n = a.ext
    body = mk_ite(c_lt(a.p(), const(1)), f(const(1)) - f(const(0)), mk_ite(c_lt(a.p(), n - 1), (f(a.p() + 1) - f(a.p() - 1)) / 2, f(n - 1) - f(n - 2)))
    return T([a], body / pbody(h.body))


# ------------------------------------------------------------------- linear
@regnp("einsum")
def np_einsum(I, args, kw):
    if not (isinstance(args[0], K) and isinstance(args[0].v, str)):
        return Unk("einsum subscripts")
    return tops.einsum(I, args[0].v, [arr(I, a) for a in args[1:]])


@regnp("matmul")
def np_matmul(I, args, kw):
    return tops.matmul(I, arr(I, args[0]), arr(I, args[1]))


@regnp("dot")
def np_dot(I, args, kw):
    a, b = arr(I, args[0]), arr(I, args[1])
    if not a.axes or not b.axes:
        return ewise(I, lambda x, y: pbody(x) * pbody(y), a, b)
    a, b = I.d(a), I.d(b)
    la = [("A", k) for k in range(len(a.axes))]
    lb = [("B", k) for k in range(len(b.axes))]
    p = -1 if len(lb) == 1 else -2
    lb[p] = la[-1]
    return tops.contract(I, [a, b], [la, lb], la[:-1] + [x for x in lb if x != la[-1]])


NP["numpy.inner"] = lambda I, args, kw: (lambda a, b: tops.contract(I, [I.d(a), I.d(b)], [[("A", k) for k in range(len(a.axes) - 1)] + ["z"], [("B", k) for k in range(len(b.axes) - 1)] + ["z"]], [("A", k) for k in range(len(a.axes) - 1)] + [("B", k) for k in range(len(b.axes) - 1)]))(arr(I, args[0]), arr(I, args[1]))


@regnp("vdot")
def np_vdot(I, args, kw):
    return NP["numpy.sum"](I, [ewise(I, lambda x, y: pbody(x) * pbody(y), arr(I, args[0]), arr(I, args[1]))], {})


@regnp("tensordot")
def np_tensordot(I, args, kw):
    a, b = I.d(arr(I, args[0])), I.d(arr(I, args[1]))
    ax = arg(args, kw, 2, "axes", S(2))
    na, nb = len(a.axes), len(b.axes)
    if isinstance(ax, T):
        k = I.sc(ax).intval()
        xa, xb = list(range(na - k, na)), list(range(k))
    else:
        it = I.iterate(ax)[1]
        g = lambda v, n: [I.sc(v).intval() % n] if isinstance(v, T) and not v.axes else [I.sc(x).intval() % n for x in I.iterate(v)[1]]
        xa, xb = g(it[0], na), g(it[1], nb)
    la = [("A", k) for k in range(na)]
    lb = [("B", k) for k in range(nb)]
    for p, q in zip(xa, xb):
        lb[q] = la[p]
    return tops.contract(I, [a, b], [la, lb], [x for k, x in enumerate(la) if k not in xa] + [x for k, x in enumerate(lb) if k not in xb])


@regnp("outer")
def np_outer(I, args, kw):
    a, b = I.d(arr(I, args[0])), I.d(arr(I, args[1]))
    if len(a.axes) == 1 and len(b.axes) == 1:
        return tops.contract(I, [a, b], ["i", "j"], ["i", "j"])
    return Unk("outer")


@regnp("multiply.outer")
def np_multouter(I, args, kw):
    a, b = I.d(arr(I, args[0])), I.d(arr(I, args[1]))
    la = [("A", k) for k in range(len(a.axes))]
    lb = [("B", k) for k in range(len(b.axes))]
    return tops.contract(I, [a, b], [la, lb], la + lb)


@regnp("kron")
def np_kron(I, args, kw):
    a, b = I.d(arr(I, args[0])), I.d(arr(I, args[1]))
    if len(a.axes) == len(b.axes) == 1:
        return tops.reshape(I, tops.contract(I, [a, b], ["i", "j"], ["i", "j"]), [const(-1)])
    return Unk("kron")


@regnp("trace")
def np_trace(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) < 2:
        return Unk("trace")
    i, j = t.axes[0], t.axes[1]
    return T(t.axes[2:], mk_sum(i.v, const(0), i.ext, subst(pbody(t.body), {j.v: i.p()})))


@regnp("diag", "diagonal")
def np_diag(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(args) > 1 or "k" in kw:
        return Unk("diag offset")
    if len(t.axes) == 1:
        a = t.axes[0]
        j = Ax(a.ext)
        return T([a, j], mk_delta(a.p() - j.p()) * pbody(t.body))
    if len(t.axes) == 2:
        i, j = t.axes
        return T([i], subst(pbody(t.body), {j.v: i.p()}))
    return Unk("diag")


def pull_scalar(body, ivs):
    """body = c * rest with c free of ivs"""
    if not body.t:
        return const(1), body
    content, base = split_content(body)
    (m, c), = content.t.items()
    outm, inm = [], []
    for a, e in m:
        (inm if any(v in a.fv for v in ivs) else outm).append((a, e))
    co = P({tuple(outm): c})
    return co, P({tuple(inm): Fraction(1)}) * base


def inv2(t):
    """matrix inverse of the last two axes"""
    i, j = t.axes[-2], t.axes[-1]
    body = pbody(t.body)
    c, rest = pull_scalar(body, (i.v, j.v))
    d = mk_delta(i.p() - j.p())
    if rest == d or (i.ext == const(1) and j.ext == const(1)):
        if rest == d:
            return T(t.axes, d / c)
        return T(t.axes, body.inv())
    d0, d1 = i.ext.const(), j.ext.const()
    if d0 is not None and d0 == d1 and d0 <= 8:
        return T(t.axes, inv_small(body, i, j, int(d0)))
    lam = mk_lam([i.v, j.v], [i.ext, j.ext], rest)
    return T(t.axes, mk_ap("inv", (lam,), (i.p(), j.p())) / c)


def inv_small(body, i, j, d):
    """inverse of a matrix of known size: identified by the table of its entries, the common scale pulled out;
    the inverse of a symmetric matrix is symmetric"""
    E = [[subst(body, {i.v: const(p), j.v: const(q)}) for q in range(d)] for p in range(d)]
    if all(E[p][q] == const(0) for p in range(d) for q in range(d) if p != q) and not any(E[p][p] == const(0) for p in range(d)):
        r = const(0)
        for p in range(d):
            r = mk_ite(c_and(c_eq(i.p(), const(p)), c_eq(j.p(), const(p))), E[p][p].inv(), r)
        return r
    mark = [sym("!m%02d" % k) for k in range(d * d)]
    tot = sum((E[p][q] * mark[p * d + q] for p in range(d) for q in range(d)), const(0))
    content, base = split_content(tot)
    flat = []
    for k in range(d * d):
        flat.append(E[k // d][k % d] / content)
    symm = all(flat[p * d + q] == flat[q * d + p] for p in range(d) for q in range(p))
    a, b = i.p(), j.p()
    if not symm:
        return mk_ap("inv", tuple(flat), (a, b)) / content
    return mk_ite(c_le(a, b), mk_ap("inv", tuple(flat), (a, b)), mk_ap("inv", tuple(flat), (b, a))) / content


@reg("numpy.linalg.inv", "scipy.linalg.inv")
def la_inv(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) < 2:
        raise raises(I, "LinAlgError: inv of rank %d" % len(t.axes))
    return inv2(t)


@reg("numpy.linalg.pinv", "scipy.linalg.pinv")
def la_pinv(I, args, kw):
    t = I.d(arr(I, args[0]))
    i, j = t.axes[-2], t.axes[-1]
    ni, nj = Ax(j.ext), Ax(i.ext)
    return T(list(t.axes[:-2]) + [ni, nj], mk_ap("pinv", (mk_lam([i.v, j.v], [i.ext, j.ext], pbody(t.body)),), (ni.p(), nj.p())))


@reg("numpy.linalg.solve", "scipy.linalg.solve")
def la_solve(I, args, kw):
    a, b = I.d(arr(I, args[0])), arr(I, args[1])
    if len(a.axes) != 2:
        return Unk("batched solve")
    ai = inv2(a)
    if len(b.axes) == 1:
        return tops.matmul(I, ai, b)
    if len(b.axes) == 2:
        return tops.matmul(I, ai, b)
    return Unk("batched solve")


@reg("numpy.linalg.lstsq", "scipy.linalg.lstsq")
def la_lstsq(I, args, kw):
    return Unk("lstsq")


@reg("numpy.linalg.svd", "scipy.linalg.svd")
def la_svd(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 2:
        return Unk("svd")
    i, j = t.axes
    lam = mk_lam([i.v, j.v], [i.ext, j.ext], pbody(t.body))
    n = i.ext
    m = j.ext
    k = n if n == m else mk_ap("min", (n, m))
    uv = kw.get("compute_uv")
    s = Ax(k)
    S_ = T([s], ap("svd_s", (lam,), (s.p(),)))
    if uv is not None and I.truth(uv).op == "false":
        return S_
    a, b = Ax(n), Ax(n)
    c, d = Ax(m), Ax(m)
    return Tup([T([a, b], ap("svd_u", (lam,), (a.p(), b.p()))), S_, T([c, d], ap("svd_v", (lam,), (c.p(), d.p())))])


@reg("numpy.linalg.eig", "numpy.linalg.eigh", "scipy.linalg.eig", "scipy.linalg.eigh")
def la_eig(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 2:
        return Unk("eig")
    i, j = t.axes
    lam = mk_lam([i.v, j.v], [i.ext, j.ext], pbody(t.body))
    s, a, b = Ax(i.ext), Ax(i.ext), Ax(i.ext)
    return Tup([T([s], ap("eigval", (lam,), (s.p(),))), T([a, b], ap("eigvec", (lam,), (a.p(), b.p())))])


NP["numpy.linalg.eigvals"] = NP["numpy.linalg.eigvalsh"] = lambda I, a, k: (lambda r: r.items[0] if isinstance(r, Tup) else r)(la_eig(I, a, k))


def mat_ap(name):
    def g(I, args, kw):
        t = I.d(arr(I, args[0]))
        if len(t.axes) != 2:
            return Unk(name)
        i, j = t.axes
        lam = mk_lam([i.v, j.v], [i.ext, j.ext], pbody(t.body))
        a, b = Ax(i.ext), Ax(j.ext)
        return T([a, b], ap(name, (lam,), (a.p(), b.p())))
    return g


NP["scipy.linalg.expm"] = mat_ap("expm")
NP["scipy.linalg.sqrtm"] = mat_ap("sqrtm")
NP["numpy.linalg.cholesky"] = NP["scipy.linalg.cholesky"] = mat_ap("cholesky")
NP["numpy.linalg.matrix_rank"] = lambda I, a, k: (lambda t: S(ap("rank", (mk_lam([x.v for x in t.axes], [x.ext for x in t.axes], pbody(t.body)),))))(I.d(arr(I, a[0])))
NP["numpy.linalg.det"] = lambda I, a, k: (lambda t: S(ap("det", (mk_lam([x.v for x in t.axes], [x.ext for x in t.axes], pbody(t.body)),))) if len(t.axes) == 2 else Unk("det"))(I.d(arr(I, a[0])))


@reg("numpy.linalg.norm", "scipy.linalg.norm")
def la_norm(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(args) > 1 or "ord" in kw:
        return Unk("norm order")
    sq = unary(I, t, lambda p: p * p)
    return NP["numpy.sqrt"](I, [NP["numpy.sum"](I, [sq], kw)], {})


@reg("scipy.linalg.toeplitz")
def sl_toeplitz(I, args, kw):
    c = I.d(arr(I, args[0]))
    if len(c.axes) != 1:
        return Unk("toeplitz")
    i = Ax(c.axes[0].ext)
    f = lambda p: subst(pbody(c.body), {c.axes[0].v: p})
    r = arg(args, kw, 1, "r")
    if isnone(r):
        j = Ax(c.axes[0].ext)
        return T([i, j], mk_ite(c_le(j.p(), i.p()), f(i.p() - j.p()), f(j.p() - i.p())))
    r = I.d(arr(I, r))
    j = Ax(r.axes[0].ext)
    g = lambda p: subst(pbody(r.body), {r.axes[0].v: p})
    return T([i, j], mk_ite(c_le(j.p(), i.p()), f(i.p() - j.p()), g(j.p() - i.p())))


@reg("scipy.linalg.hankel")
def sl_hankel(I, args, kw):
    c = I.d(arr(I, args[0]))
    i = Ax(c.axes[0].ext)
    n = c.axes[0].ext
    f = lambda p: subst(pbody(c.body), {c.axes[0].v: p})
    r = arg(args, kw, 1, "r")
    if isnone(r):
        j = Ax(n)
        return T([i, j], mk_ite(c_lt(i.p() + j.p(), n), f(i.p() + j.p()), const(0)))
    r = I.d(arr(I, r))
    j = Ax(r.axes[0].ext)
    g = lambda p: subst(pbody(r.body), {r.axes[0].v: p})
    return T([i, j], mk_ite(c_lt(i.p() + j.p(), n), f(i.p() + j.p()), g(i.p() + j.p() - n + 1)))
