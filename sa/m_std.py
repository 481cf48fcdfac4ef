"""itertools, operator, ufunc methods, a few numpy functions"""
import ast
from values import *
import alg
import models
import tops
from tops import pbody
from models import NP, arg, isnone, islist
from m_np import reg, regnp, arr


def items(I, v):
    it = I.iterate(v)
    return list(it[1]) if it[0] == "c" else None


def lst(I, xs):
    return I.ref(HList([("i", x) for x in xs]))


@reg("itertools.islice")
def islice(I, args, kw):
    def num(v):
        return None if isnone(v) else I.sc(v).intval()
    b = [num(a) for a in args[1:]]
    if any(x is None and not isnone(a) for x, a in zip(b, args[1:])):
        return Unk("islice")
    sl = slice(*b)
    xs = items(I, args[0])
    if xs is None:
        return I.getitem(args[0], Sl(*(list(args[1:]) + [NONE] * (3 - len(args[1:])) if len(args) > 2 else [NONE, args[1], NONE])))
    return lst(I, xs[sl])


@reg("itertools.chain")
def chain(I, args, kw):
    ps = [items(I, a) for a in args]
    return Unk("chain of symbolic sequences") if any(p is None for p in ps) else lst(I, [x for p in ps for x in p])


@reg("itertools.chain.from_iterable")
def chain_from(I, args, kw):
    xs = items(I, args[0])
    return Unk("chain") if xs is None else chain(I, xs, {})


@reg("itertools.accumulate")
def accumulate(I, args, kw):
    xs = items(I, args[0])
    f = arg(args, kw, 1, "func")
    if xs is None:
        return Unk("accumulate over a symbolic sequence")
    init = kw.get("initial")
    if init is not None and not isnone(init):
        xs = [init] + xs
    out = xs[:1]
    for x in xs[1:]:
        out.append(models.binop(I, ast.Add(), out[-1], x) if isnone(f) else I.call(f, [out[-1], x], {}))
    return lst(I, out)


@reg("itertools.pairwise")
def pairwise(I, args, kw):
    xs = items(I, args[0])
    return Unk("pairwise") if xs is None else lst(I, [Tup(p) for p in zip(xs, xs[1:])])


@reg("itertools.product")
def product(I, args, kw):
    ps = [items(I, a) for a in args]
    if any(p is None for p in ps):
        return Unk("product of symbolic sequences")
    rep = I.sc(kw["repeat"]).intval() if "repeat" in kw else 1
    if rep is None:
        return Unk("product")
    out = [[]]
    for p in ps * rep:
        out = [o + [x] for o in out for x in p]
    return lst(I, [Tup(o) for o in out])


def combos(fn):
    def g(I, args, kw):
        import itertools
        xs = items(I, args[0])
        r = I.sc(args[1]).intval() if len(args) > 1 else None
        if xs is None or (r is None and fn != "permutations"):
            return Unk(fn)
        f = getattr(itertools, fn)
        return lst(I, [Tup(c) for c in (f(xs, r) if r is not None else f(xs))])
    return g


for _n in ("combinations", "combinations_with_replacement", "permutations"):
    NP["itertools." + _n] = combos(_n)


@reg("itertools.starmap")
def starmap(I, args, kw):
    xs = items(I, args[1])
    return Unk("starmap") if xs is None else lst(I, [I.call(args[0], items(I, x), {}) for x in xs])


@reg("itertools.repeat")
def repeat(I, args, kw):
    n = I.sc(args[1]).intval() if len(args) > 1 else None
    return Unk("repeat") if n is None else lst(I, [args[0]] * n)


@reg("itertools.zip_longest")
def zip_longest(I, args, kw):
    ps = [items(I, a) for a in args]
    if any(p is None for p in ps):
        return Unk("zip_longest")
    n = max(len(p) for p in ps)
    fill = kw.get("fillvalue", NONE)
    return lst(I, [Tup([p[k] if k < len(p) else fill for p in ps]) for k in range(n)])


def op2(o):
    return lambda I, a, k: models.binop(I, o, a[0], a[1])


for _n, _o in (("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("floordiv", ast.FloorDiv), ("mod", ast.Mod), ("pow", ast.Pow), ("matmul", ast.MatMult),
               ("iadd", None)):
    if _o is not None:
        NP["operator." + _n] = op2(_o())


def cmp2(o):
    return lambda I, a, k: models.compare(I, o, a[0], a[1])


for _n, _o in (("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("eq", ast.Eq), ("ne", ast.NotEq), ("is_", ast.Is), ("is_not", ast.IsNot)):
    NP["operator." + _n] = cmp2(_o())
NP["operator.neg"] = lambda I, a, k: models.binop(I, ast.Mult(), S(-1), a[0])
NP["operator.getitem"] = lambda I, a, k: I.getitem(a[0], a[1])


@reg("operator.setitem")
def setitem(I, args, kw):
    models.setitem(I, args[0], args[1], args[2])
    return NONE


@reg("operator.itemgetter")
def itemgetter(I, args, kw):
    return Opq("itemgetter", hook=("call", lambda I, a, k: I.getitem(a[0], args[0]) if len(args) == 1 else Tup([I.getitem(a[0], x) for x in args])))


@reg("operator.attrgetter")
def attrgetter(I, args, kw):
    if len(args) != 1 or not isinstance(args[0], K):
        return Unk("attrgetter")

    def f(I, a, k):
        v = a[0]
        for p in args[0].v.split("."):
            v = I.getattr(v, p)
        return v
    return Opq("attrgetter", hook=("call", f))


@reg("operator.methodcaller")
def methodcaller(I, args, kw):
    return Opq("methodcaller", hook=("call", lambda I, a, k: I.call(I.getattr(a[0], args[0].v), list(args[1:]), dict(kw))))


# ------------------------------------------------------------ ufunc methods
for _u, _r, _c in (("add", "sum", "cumsum"), ("multiply", "prod", None), ("maximum", "amax", None), ("minimum", "amin", None), ("logical_and", "all", None), ("logical_or", "any", None)):
    def _red(I, args, kw, r=_r):
        k = dict(kw)
        a = list(args)
        if "axis" not in k and len(a) < 2:
            k["axis"] = S(0)
        return models.call(I, Ext("numpy." + r), a, k)
    NP["numpy.%s.reduce" % _u] = _red
    if _c:
        def _acc(I, args, kw, r=_c):
            k = dict(kw)
            if "axis" not in k and len(args) < 2:
                k["axis"] = S(0)
            return models.call(I, Ext("numpy." + r), list(args), k)
        NP["numpy.%s.accumulate" % _u] = _acc


def outer(o):
    def g(I, args, kw):
        a, b = [I.d(I.num(x)) for x in args[:2]]
        for t in (a, b):
            tops.loose(t)
        axes = [Ax(x.ext) for x in a.axes] + [Ax(x.ext) for x in b.axes]
        n = len(a.axes)
        ra = subst(pbody(a.body), {x.v: y.p() for x, y in zip(a.axes, axes[:n])})
        rb = subst(pbody(b.body), {x.v: y.p() for x, y in zip(b.axes, axes[n:])})
        return T(axes, o(ra, rb))
    return g


for _u, _o in (("add", lambda x, y: x + y), ("subtract", lambda x, y: x - y), ("multiply", lambda x, y: x * y), ("divide", lambda x, y: x / y), ("true_divide", lambda x, y: x / y),
               ("power", lambda x, y: models.ppow(x, y)), ("maximum", lambda x, y: alg.mk_ap("max", (x, y))), ("minimum", lambda x, y: alg.mk_ap("min", (x, y)))):
    NP["numpy.%s.outer" % _u] = outer(_o)


@reg("numpy.add.at", "numpy.subtract.at", "numpy.multiply.at")
def ufunc_at(I, args, kw):
    I.taint = I.taint or "ufunc.at"
    return NONE


# -------------------------------------------------------------------- numpy
@regnp("take")
def np_take(I, args, kw):
    ax = arg(args, kw, 2, "axis")
    t = arr(I, args[0])
    if isnone(ax):
        return I.getitem(models.call(I, Ext("numpy.ravel"), [t], {}), args[1])
    k = tops.axis_list(I, I.d(t), ax)[0]
    return I.getitem(t, Tup([Sl(NONE, NONE, NONE)] * k + [args[1]]))


@regnp("polyval")
def np_polyval(I, args, kw):
    cs = items(I, args[0])
    if cs is None:
        return Unk("polyval")
    acc = S(0)
    for c in cs:
        acc = models.binop(I, ast.Add(), models.binop(I, ast.Mult(), acc, args[1]), c)
    return acc


@reg("numpy.polynomial.polynomial.polyval")
def np_polyval2(I, args, kw):
    cs = items(I, args[1])
    if cs is None:
        return Unk("polyval")
    acc = S(0)
    for c in reversed(cs):
        acc = models.binop(I, ast.Add(), models.binop(I, ast.Mult(), acc, args[0]), c)
    return acc


@regnp("pad")
def np_pad(I, args, kw):
    t = I.d(arr(I, args[0]))
    mode = arg(args, kw, 2, "mode")
    if not (isnone(mode) or isinstance(mode, K) and mode.v == "constant") or len(t.axes) != 1 or "constant_values" in kw:
        return Unk("pad")
    w = arg(args, kw, 1, "pad_width")
    if isinstance(w, T) and not w.axes:
        lo = hi = w
    else:
        ws = items(I, w)
        if ws and len(ws) == 1 and not (isinstance(ws[0], T) and not ws[0].axes):
            ws = items(I, ws[0])
        if not ws or len(ws) > 2:
            return Unk("pad")
        lo, hi = ws[0], ws[-1]
    z = Ext("numpy.zeros")
    return models.call(I, Ext("numpy.concatenate"), [Tup([models.call(I, z, [lo], {}), t, models.call(I, z, [hi], {})])], {})


@regnp("exp2")
def np_exp2(I, args, kw):
    return models.binop(I, ast.Pow(), S(2), args[0])


@regnp("argwhere")
def np_argwhere(I, args, kw):
    t = I.d(arr(I, args[0]))
    if len(t.axes) != 1:
        return Unk("argwhere")
    r = models.call(I, Ext("numpy.flatnonzero"), [args[0]], {})
    return models.call(I, Ext("numpy.reshape"), [r, Tup([S(-1), S(1)])], {})


@regnp("nan_to_num", "block", "bincount", "interp", "unwrap", "resize", "polyfit", "cov", "correlate")
def np_unknown(I, args, kw):
    return Unk("numpy function without a summary")


# ------------------------------------------------------------------ iterators
@reg("builtins.iter")
def b_iter(I, args, kw):
    v = args[0]
    if len(args) > 1:
        return Unk("iter with sentinel")
    if isinstance(v, Ref) and v.id in I.iters:
        return v
    xs = items(I, v)
    if xs is None:
        return v
    r = lst(I, xs)
    I.iters.add(r.id)
    return r


@reg("builtins.next")
def b_next(I, args, kw):
    v = args[0]
    if isinstance(v, Ref) and v.id in I.iters and islist(I, v):
        o = I.h(v)
        if o.items and o.items[0][0] == "i":
            I.heap[v.id] = HList(o.items[1:], o.owner)
            return o.items[0][1]
        if not o.items:
            if len(args) > 1:
                return args[1]
            raise models.raises(I, "StopIteration")
    I.taint = I.taint or "next of a sequence that is not followed"
    return Unk("next")
