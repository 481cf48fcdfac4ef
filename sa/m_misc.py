"""Builtins, container methods, function objects and miscellaneous libraries."""
from values import *
import tops
from tops import pbody
import models as M
from models import NP, METH, arg, isnone, isds, islist, isdict, raises, to_array
import m_np, m_np2, m_xr, m_xr2


def reg(*names):
    def d(f):
        for n in names:
            NP[n] = f
        return f
    return d


# ------------------------------------------------------------------- methods
ARR_SAME = {"sum", "mean", "min", "max", "ravel", "squeeze", "transpose", "repeat", "conj", "conjugate", "round", "cumsum", "dot", "argmax", "argmin", "argsort", "any", "all", "std", "var",
            "prod", "nonzero", "swapaxes", "clip", "trace", "diagonal", "searchsorted", "ptp", "copy"}


def method(I, obj, name, args, kw):
    try:
        r = method_(I, obj, name, args, kw)
    except AlwaysRaises as e:
        if not M.murky(I, [obj] + list(args) + list(kw.values())):
            raise
        r = Unk("method %s of unknown values (%s)" % (name, e.what))
    if isinstance(r, Unk) and (name in I.MUTATORS or name in ("partition", "byteswap") or "out" in kw):
        I.taint = I.taint or "method %s with unknown effect" % name
    return r


def method_(I, obj, name, args, kw):
    if isinstance(obj, Phi):
        return I.split(obj.c, lambda: method(I, obj.a, name, args, kw), lambda: method(I, obj.b, name, args, kw))
    if isinstance(obj, T):
        return arr_method(I, obj, name, args, kw)
    if isds(I, obj):
        f = m_xr2.DM.get(name)
        if f is None:
            return Unk("dataset method " + name)
        return f(I, obj, args, kw)
    if islist(I, obj):
        return list_method(I, obj, name, args, kw)
    if isdict(I, obj):
        return dict_method(I, obj, name, args, kw)
    if isinstance(obj, K) and isinstance(obj.v, str):
        return str_method(I, obj, name, args, kw)
    if isinstance(obj, FnObj):
        n = arg(args, kw, 0, "nu", None)
        if n is None:
            n = kw.get("m", kw.get("n"))
        k = const(1) if n is None else I.sc(n)
        o = topoly(obj.order)
        if name in ("derivative", "deriv"):
            return FnObj(obj.key, o + k)
        if name in ("antiderivative", "integ"):
            if k.const() == 0:
                return FnObj(obj.key, o)
            return FnObj(obj.key, o - k)
        return Unk("method of function object " + name)
    if isinstance(obj, SetT):
        if name in SETOPS and args:
            r = obj
            for a in args:
                r = set_op(I, r, a, name)
                if r is None:
                    return Unk("set." + name)
            return (K(r) if isinstance(r, bool) else r)
        if name == "copy":
            return obj
        return Unk("set." + name)
    if isinstance(obj, Tup):
        if name == "index":
            for k, x in enumerate(obj.items):
                e = M.equal(I, x, args[0])
                e = I.truth(e) if isinstance(e, T) else e
                if e is not None and e.op == "true":
                    return S(k)
            return Unk("tuple.index")
        if name == "count":
            return Unk("tuple.count")
        if name == "_replace" and obj.names:
            items = list(obj.items)
            for k, v in kw.items():
                items[obj.names.index(k)] = v
            return Tup(items, obj.names, obj.cls)
        if name == "_asdict" and obj.names:
            return I.ref(HDict([(K(n), v) for n, v in zip(obj.names, obj.items)]))
    if isinstance(obj, Seq) and name in ("keys", "values", "items"):
        return obj
    I.notes.add("method %s of %s" % (name, type(obj).__name__))
    return Unk("method %s of %s" % (name, type(obj).__name__))


def arr_method(I, t, name, args, kw):
    for a in list(args) + list(kw.values()):
        if isinstance(a, Unk):
            return a
    if t.xr:
        f = m_xr2.XM.get(name)
        if f is not None:
            return f(I, t, args, kw)
        if name not in ("cumsum", "round", "clip", "argsort", "conj"):
            return Unk("DataArray method " + name)
        if args and isinstance(args[0], K):
            return Unk("DataArray method " + name)
    if name == "reshape":
        if len(args) == 1 and not (isinstance(args[0], T) and not args[0].axes):
            shp = args[0]
        else:
            shp = Tup(args)
        return NP["numpy.reshape"](I, [t, shp], kw)
    if name == "flatten":
        r = NP["numpy.ravel"](I, [T(I.d(t).axes, I.d(t).body)] + list(args), kw)
        return r
    if name == "transpose" and args and not (len(args) == 1 and not (isinstance(args[0], T) and not args[0].axes)):
        return NP["numpy.transpose"](I, [t, Tup(args)], kw)
    if name == "astype":
        return NP["numpy.array"](I, [t] + list(args[:1]), {k: v for k, v in kw.items() if k == "dtype"})
    if name == "tolist":
        it = I.iterate(t)
        if it[0] == "c":
            return I.ref(HList([("i", x) for x in it[1]]))
        return t
    if name == "item":
        td = I.d(t)
        if args:
            return M.getitem(I, t, args[0] if len(args) == 1 else Tup(args))
        return S(subst(pbody(td.body), {a.v: const(0) for a in td.axes}))
    if name == "fill":
        M.setitem(I, t, ELL, args[0])
        return NONE
    if name == "sort":
        r = NP["numpy.sort"](I, [t] + list(args), kw)
        M.setitem(I, t, ELL, r)
        return NONE
    if name in ("view", "todense", "toarray", "squeeze_", "block_until_ready", "tobytes", "setflags"):
        return t
    if name in ("__len__",):
        return S(t.axes[0].ext)
    if name == "__dir__":
        return Tup([K("shape"), K("__array__"), K("ndim"), K("dtype")])
    if name == "__array__":
        return t
    if name == "min" or name == "max" or name in ARR_SAME:
        return NP["numpy." + name](I, [t] + list(args), kw)
    if name in ("real", "imag"):
        return NP["numpy." + name](I, [t], {})
    if name == "bit_length" and not t.axes:
        p = pbody(I.d(t).body)
        if p.const() is not None:
            return S(int(p.const()).bit_length())
        return S(mk_ap("floor", (mk_ap("log", (p,)) / mk_ap("log", (const(2),)),)) + 1)
    if name in ("is_integer",):
        return Unk("is_integer")
    return Unk("array method " + name)


METH["ravel"] = lambda I, t, args, kw: NP["numpy.ravel"](I, [t], kw)


def list_method(I, ref, name, args, kw):
    o = I.h(ref)
    mut = name in ("append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse")
    if mut and o.owner:
        I.event("mutate", o.owner)
    items = list(o.items)
    conc = all(x[0] == "i" for x in items)
    if name == "append":
        I.heap[ref.id] = HList(items + [("i", I.bindable(args[0]))], o.owner)
        return NONE
    if name == "extend":
        M.list_extend(I, ref, args[0])
        return NONE
    if name == "copy":
        return I.ref(HList(items))
    if name == "insert" and conc:
        k = I.sc(args[0]).intval()
        if k is not None:
            items.insert(k, ("i", args[1]))
            I.heap[ref.id] = HList(items, o.owner)
            return NONE
    if name == "pop":
        k = I.sc(args[0]).intval() if args else -1
        if conc and k is not None:
            if not items:
                raise raises(I, "IndexError: pop from empty list")
            v = items.pop(k)
            I.heap[ref.id] = HList(items, o.owner)
            return v[1]
        if items and k == -1 and items[-1][0] == "i":
            v = items.pop()
            I.heap[ref.id] = HList(items, o.owner)
            return v[1]
    if name == "clear":
        I.heap[ref.id] = HList([], o.owner)
        return NONE
    if name == "reverse" and conc:
        I.heap[ref.id] = HList(items[::-1], o.owner)
        return NONE
    if name == "index" and conc:
        for k, x in enumerate(items):
            e = M.equal(I, x[1], args[0])
            e = I.truth(e) if isinstance(e, T) else e
            if e is not None and e.op == "true":
                return S(k)
        return Unk("list.index")
    if mut:
        I.heap[ref.id] = HList([("i", Unk("list." + name))], o.owner)
    return Unk("list method " + name)


def dict_method(I, ref, name, args, kw):
    d = I.h(ref)
    if name in ("update", "pop", "setdefault", "clear", "popitem") and d.owner:
        I.event("mutate", d.owner)
    if name == "get":
        c = M.contains(I, args[0], ref)
        dflt = args[1] if len(args) > 1 else kw.get("default", NONE)
        if c is None:
            return Unk("dict.get")
        if c.op == "true":
            return M.getitem(I, ref, args[0])
        if c.op == "false":
            return dflt
        ks = I.keystr(args[0])
        for k, v in d.items:
            if I.keystr(k) == ks:
                if isinstance(v, Phi):
                    v = v.b if isinstance(v.a, Unk) and v.a.why == "unset" else (v.a if isinstance(v.b, Unk) and v.b.why == "unset" else v)
                return I.merge_val(c, v, dflt)
        return Unk("dict.get")
    if name == "items":
        return Tup([Tup([k, v]) for k, v in d.items])
    if name == "keys":
        return Tup([k for k, v in d.items])
    if name == "values":
        return Tup([v for k, v in d.items])
    if name == "copy":
        return I.ref(HDict(d.items))
    if name == "update":
        if args and isdict(I, args[0]):
            for k, v in I.h(args[0]).items:
                M.setitem(I, ref, k, v)
        elif args and not isnone(args[0]):
            return Unk("dict.update")
        for k, v in kw.items():
            M.setitem(I, ref, K(k), v)
        return NONE
    if name == "setdefault":
        c = M.contains(I, args[0], ref)
        if c is not None and c.op == "false":
            M.setitem(I, ref, args[0], args[1] if len(args) > 1 else NONE)
        return M.getitem(I, ref, args[0])
    if name == "pop":
        ks = I.keystr(args[0])
        for n, (k, v) in enumerate(d.items):
            if I.keystr(k) == ks:
                I.heap[ref.id] = HDict(d.items[:n] + d.items[n + 1:], d.owner)
                if ref.id in I.instdict:
                    I.taint = I.taint or "an attribute removed through __dict__"
                return v
        if len(args) > 1:
            return args[1]
        raise raises(I, "KeyError: %s" % ks)
    return Unk("dict method " + name)


def str_method(I, obj, name, args, kw):
    if name in ("item", "to_numpy", "compute", "load", "copy"):
        return obj          # a zero dimensional string variable
    if all(isinstance(a, K) for a in args) and not kw and name in ("startswith", "endswith", "lower", "upper", "strip", "split", "replace", "find", "capitalize", "title", "rstrip", "lstrip", "isdigit", "count", "index"):
        r = getattr(obj.v, name)(*[a.v for a in args])
        if isinstance(r, bool):
            return T((), TRUE if r else FALSE)
        if isinstance(r, str):
            return K(r)
        if isinstance(r, int):
            return S(r)
        if isinstance(r, list):
            return I.ref(HList([("i", K(x)) for x in r]))
    if name == "join":
        try:
            it = I.iterate(args[0])
            if it[0] == "c" and all(isinstance(x, K) and isinstance(x.v, str) for x in it[1]):
                return K(obj.v.join(x.v for x in it[1]))
        except Exception:
            pass
        return K("<joined>")
    if name == "format":
        if all(isinstance(a, K) and isinstance(a.v, str) for a in args) and not kw:
            try:
                return K(obj.v.format(*[a.v for a in args]))
            except Exception:
                pass
        return K("<formatted>")
    return Unk("str method " + name)


# ----------------------------------------------------------- function objects
def lam_of(I, t):
    t = I.d(I.num(t))
    return mk_lam([a.v for a in t.axes], [a.ext for a in t.axes], pbody(t.body))


def fn_key(f):
    return ap("fn:" + str(f.key[0]), tuple(x if isinstance(x, Node) else sym(str(x)) for x in f.key[1:]))


def fnobj_call(I, f, args, kw):
    x = args[0]
    if isinstance(x, Unk):
        return x
    nu = arg(args, kw, 1, "nu")
    o = topoly(f.order)
    if nu is not None:
        o = o + I.sc(nu)
    k = fn_key(f)
    return tops.unary(I, M.strip(I, I.num(x)) if I.num(x).xr else I.num(x), lambda b: mk_ap("fapp", (k, o, b)))


def fnobj_attr(I, f, name):
    return Unk("attribute %s of function object" % name)


@reg("scipy.interpolate.BSpline", "scipy.interpolate.make_interp_spline")
def bspline(I, args, kw):
    t, c, k = arg(args, kw, 0, "t"), arg(args, kw, 1, "c"), arg(args, kw, 2, "k", S(3))
    lt = lam_of(I, t) if not isinstance(t, Opq) else sym(t.path)
    lc = lam_of(I, c) if not isinstance(c, Opq) else sym(c.path)
    ex = arg(args, kw, 3, "extrapolate")
    tag = "" if ex is None else ":" + I.keystr(ex)
    return FnObj(("bspline" + tag, lt, lc, I.sc(k)), 0)


@reg("scipy.interpolate.splrep")
def splrep(I, args, kw):
    x, y = arg(args, kw, 0, "x"), arg(args, kw, 1, "y")
    k = kw.get("k", args[5] if len(args) > 5 else S(3))
    per = kw.get("per", S(0))
    lx, ly = lam_of(I, x), lam_of(I, y)
    kp = I.sc(k)
    pp = I.truth(per)
    pp = mk_ite(pp, const(1), const(0)) if pp is not None else unk("per")
    s = kw.get("s")
    base = (lx, ly, kp, pp, I.sc(s) if s is not None and not isnone(s) else const(-1))
    n = ap("splrep_n", base)
    a, b = Ax(n), Ax(n)
    Bounds.nonneg.add(n) if hasattr(Bounds.nonneg, "add") else None
    return Tup([T([a], ap("splrep_t", base, (a.p(),))), T([b], ap("splrep_c", base, (b.p(),))), S(kp)])


def tck_obj(I, tck):
    if isinstance(tck, FnObj):
        return tck
    if isinstance(tck, Tup) and len(tck.items) == 3:
        t, c, k = tck.items
        return FnObj(("tck", lam_of(I, t), lam_of(I, c), I.sc(k)), 0)
    if islist(I, tck):
        it = I.iterate(tck)
        if it[0] == "c" and len(it[1]) == 3:
            return tck_obj(I, Tup(it[1]))
    return None


@reg("scipy.interpolate.splev")
def splev(I, args, kw):
    f = tck_obj(I, arg(args, kw, 1, "tck"))
    if f is None:
        return Unk("splev")
    der = arg(args, kw, 2, "der", S(0))
    ext = arg(args, kw, 3, "ext")
    if ext is not None and I.sc(ext).const() != 0:
        f = FnObj((f.key[0] + ":ext",) + tuple(f.key[1:]) + (I.sc(ext),), f.order)
    return fnobj_call(I, FnObj(f.key, topoly(f.order) + I.sc(der)), [args[0]], {})


@reg("scipy.interpolate.splantider")
def splantider(I, args, kw):
    f = tck_obj(I, args[0])
    if f is None:
        return Unk("splantider")
    n = arg(args, kw, 1, "n", S(1))
    return FnObj(f.key, topoly(f.order) - I.sc(n))


@reg("scipy.interpolate.splder")
def splder(I, args, kw):
    f = tck_obj(I, args[0])
    n = arg(args, kw, 1, "n", S(1))
    return Unk("splder") if f is None else FnObj(f.key, topoly(f.order) + I.sc(n))


for _c in ("Polynomial", "Chebyshev", "Legendre", "Laguerre", "Hermite", "HermiteE"):
    def _mk(c):
        def f(I, args, kw):
            return FnObj(("poly:" + c, I.sc(args[0])), 0)
        return f
    NP["numpy.polynomial.%s.basis" % c if False else "numpy.polynomial.%s.basis" % _c] = _mk(_c)
    NP["numpy.polynomial.polynomial.%s.basis" % _c] = _mk(_c)


def opq_method(I, obj, name, args, kw):
    return None


# ------------------------------------------------------------------ libraries
@reg("collections.namedtuple")
def namedtuple(I, args, kw):
    nm = args[0].v
    f = args[1]
    if isinstance(f, K):
        fields = f.v.replace(",", " ").split()
    else:
        fields = [x.v for x in I.iterate(f)[1]]
    return Cls(None, None, nm, tuple(fields))


@reg("functools.partial")
def partial(I, args, kw):
    return Partial(args[0], list(args[1:]), dict(kw))


@reg("functools.reduce")
def reduce_(I, args, kw):
    it = I.iterate(args[1])
    if it[0] != "c":
        return Unk("reduce over a symbolic sequence")
    xs = list(it[1])
    acc = args[2] if len(args) > 2 else xs.pop(0)
    for x in xs:
        acc = I.call(args[0], [acc, x], {})
    return acc


@reg("joblib.Parallel")
def parallel(I, args, kw):
    return Opq("joblib.Parallel()", hook=("call", lambda I, a, k: mk_list(I, a[0])))


@reg("joblib.delayed")
def delayed(I, args, kw):
    f = args[0]
    return Opq("joblib.delayed()", hook=("call", lambda I, a, k: I.call(f, list(a), dict(k))))


def deep(I, v, memo):
    if isinstance(v, T):
        if v.buf is None:
            return v
        if v.buf in memo:
            return T(v.axes, None, v.xr, v.coords, memo[v.buf], v.bidx, v.name)
        hb = I.heap[v.buf]
        nid = I.new(hb.repl(owner=None))
        memo[v.buf] = nid
        return T(v.axes, None, v.xr, v.coords, nid, v.bidx, v.name)
    if isinstance(v, Tup):
        return Tup([deep(I, x, memo) for x in v.items], v.names, v.cls)
    if isinstance(v, Phi):
        return Phi(v.c, deep(I, v.a, memo), deep(I, v.b, memo))
    if isinstance(v, Bound):
        return Bound(v.fn, deep(I, v.self, memo))
    if isinstance(v, Ref):
        if v.id in memo:
            return memo[v.id]
        o = I.h(v)
        r = I.ref(o)
        memo[v.id] = r
        if isinstance(o, HList):
            n = HList([x[:-1] + (deep(I, x[-1], memo),) for x in o.items])
        elif isinstance(o, HDict):
            n = HDict([(k, deep(I, x, memo)) for k, x in o.items])
        elif isinstance(o, HInst):
            n = HInst(o.cls, {k: deep(I, x, memo) for k, x in o.attrs.items()})
        elif isinstance(o, HDs):
            n = o.repl(vars={k: deep(I, x, memo) for k, x in o.vars.items()}, owner=None)
        else:
            n = o
        I.heap[r.id] = n
        return r
    return v


@reg("copy.deepcopy")
def deepcopy(I, args, kw):
    return deep(I, args[0], {})


@reg("copy.copy")
def shallow(I, args, kw):
    v = args[0]
    if isinstance(v, Ref):
        o = I.h(v)
        if isinstance(o, HList):
            return I.ref(HList(o.items))
        if isinstance(o, HDict):
            return I.ref(HDict(o.items))
        if isinstance(o, HInst):
            return I.ref(HInst(o.cls, dict(o.attrs)))
        if isinstance(o, HDs):
            return I.ref(o.repl(owner=None))
    if isinstance(v, T):
        return deep(I, v, {})
    return v


@reg("scipy.stats.describe")
def describe(I, args, kw):
    x = I.d(I.num(args[0]))
    if x.xr:
        x = M.strip(I, x)
    n = x.axes[0].ext
    mean = tops.reduce_sum(I, x, [0])
    mean = T(mean.axes, pbody(mean.body) / n)
    mn, mx = tops.reduce_ap(I, "amin", x, [0]), tops.reduce_ap(I, "amax", x, [0])
    dev = tops.ewise(I, lambda a, b: (a - b) * (a - b), x, mean)
    var = tops.reduce_sum(I, dev, [0])
    var = T(var.axes, pbody(var.body) / (n - 1))
    sk, ku = tops.reduce_ap(I, "skew", x, [0]), tops.reduce_ap(I, "kurtosis", x, [0])
    return Tup([S(n), Tup([mn, mx]), mean, var, sk, ku], ("nobs", "minmax", "mean", "variance", "skewness", "kurtosis"), "DescribeResult")


@reg("warnings.warn", "warnings.simplefilter", "warnings.filterwarnings", "builtins.print", "logging.warning", "logging.info", "numpy.seterr", "sys.stdout.write", "sys.stderr.write", "numpy.testing.assert_allclose")
def noop(I, args, kw):
    return NONE


@reg("scipy.optimize.curve_fit")
def curve_fit(I, args, kw):
    """the minimiser of a least squares problem: determined by the model values over the abscissae, the ordinates and the options"""
    import tops
    f = args[0]
    x, y = I.d(I.num(arg(args, kw, 1, "xdata"))), I.d(I.num(arg(args, kw, 2, "ydata")))
    p0 = arg(args, kw, 3, "p0")
    if not isinstance(x, T) or not isinstance(y, T) or len(x.axes) != 1 or len(y.axes) != 1:
        return Unk("curve_fit")
    if isnone(p0):
        g = getattr(getattr(f, "node", None), "args", None)
        if g is None or g.vararg or g.kwonlyargs or g.defaults or not isinstance(f, Fn):
            return Unk("curve_fit without starting values")
        n = const(len(g.args) - 1)
    else:
        n = I.seqlen(p0)
    n = n.intval() if isinstance(n, P) else n
    if n is None:
        return Unk("curve_fit")
    pars = [sym("fitpar%d" % k) for k in range(n)]
    v = I.call(f, [x] + [S(p) for p in pars], {})
    v = I.d(I.num(v))
    if not isinstance(v, T) or len(v.axes) != 1:
        return Unk("curve_fit model")
    opts = []
    for k in sorted(kw):
        if k in ("p0", "xdata", "ydata", "f"):
            continue
        w = kw[k]
        opts.append(ap("opt:" + k, (I.sc(w),)) if isinstance(w, T) and not w.axes else ap("opt:%s=%r" % (k, getattr(w, "v", w))))
    for w in args[4:]:
        opts.append(ap("opt:positional"))
    m = mk_lam([v.axes[0].v], [v.axes[0].ext], tops.pbody(v.body))
    d = mk_lam([y.axes[0].v], [y.axes[0].ext], tops.pbody(y.body))
    j = Ax(n)
    return Tup([T([j], ap("popt", (m, d) + tuple(opts), (j.p(),))), Opq("pcov")])


# ------------------------------------------------------------------- builtins
@reg("builtins.len")
def b_len(I, args, kw):
    v = args[0]
    if isinstance(v, Unk):
        return v
    if isinstance(v, Ref) and isinstance(I.h(v), HInst):
        f = I.class_attr(I.h(v).cls, "__len__")
        if f is not None:
            return I.call(Bound(f, v), [], {})
    n = I.seqlen(v)
    if n is None:
        if isinstance(v, T):
            raise raises(I, "TypeError: len() of unsized object")
        return Unk("len")
    return S(n)


@reg("builtins.range")
def b_range(I, args, kw):
    ps = [I.sc(a) for a in args]
    if len(ps) == 1:
        return M.mkrange(I, const(0), ps[0], const(1))
    return M.mkrange(I, ps[0], ps[1], ps[2] if len(ps) > 2 else const(1))


def mk_list(I, v):
    if islist(I, v):
        return I.ref(HList(I.h(v).items))
    it = I.iterate(v)
    if it[0] == "c":
        return I.ref(HList([("i", x) for x in it[1]]))
    i = fresh_iv()
    Bounds.iv[i] = (const(0), it[1])
    return I.ref(HList([("m", i, it[1], I.deref_val(it[2](iv(i))))]))


@reg("builtins.list")
def b_list(I, args, kw):
    if not args:
        return I.ref(HList([]))
    if isinstance(args[0], Unk):
        return args[0]
    return mk_list(I, args[0])


@reg("builtins.tuple")
def b_tuple(I, args, kw):
    if not args:
        return Tup([])
    if isinstance(args[0], Unk):
        return args[0]
    it = I.iterate(args[0])
    if it[0] == "c":
        return Tup(it[1])
    return Seq(it[1], it[2])


@reg("builtins.set", "builtins.frozenset")
def b_set(I, args, kw):
    if not args:
        return SetT([])
    it = I.iterate(args[0])
    if it[0] != "c":
        return Unk("set")
    return mkset(I, it[1])


def mkset(I, xs):
    out, seen = [], set()
    for x in xs:
        k = I.keystr(x)
        if k not in seen:
            seen.add(k)
            out.append(x)
    return SetT(out)


def set_op(I, a, b, name):
    """set operation on concrete members; None when a membership is not decided"""
    try:
        its = [I.iterate(v) for v in (a, b)]
    except Exception:
        return None
    if any(i[0] != "c" for i in its):
        return None
    xs, ys = its[0][1], its[1][1]

    def within(x, zs):
        c = M.contains(I, x, Tup(zs))
        if isinstance(c, T):
            c = I.truth(c)
        if c is None or c.op not in ("true", "false"):
            raise KeyError
        return c.op == "true"
    try:
        if name == "union":
            return mkset(I, list(xs) + [y for y in ys if not within(y, xs)])
        if name == "intersection":
            return mkset(I, [x for x in xs if within(x, ys)])
        if name == "difference":
            return mkset(I, [x for x in xs if not within(x, ys)])
        if name == "symmetric_difference":
            return mkset(I, [x for x in xs if not within(x, ys)] + [y for y in ys if not within(y, xs)])
        if name == "issubset":
            return all(within(x, ys) for x in xs)
        if name == "issuperset":
            return all(within(y, xs) for y in ys)
        if name == "isdisjoint":
            return not any(within(x, ys) for x in xs)
    except KeyError:
        return None


SETOPS = {"union", "intersection", "difference", "symmetric_difference", "issubset", "issuperset", "isdisjoint"}


@reg("builtins.dict")
def b_dict(I, args, kw):
    items = []
    if args:
        if isdict(I, args[0]):
            items = list(I.h(args[0]).items)
        else:
            it = I.iterate(args[0])
            if it[0] != "c":
                return Unk("dict")
            for x in it[1]:
                y = I.iterate(x)[1]
                items.append((y[0], y[1]))
    r = I.ref(HDict(items))
    for k, v in kw.items():
        M.setitem(I, r, K(k), v)
    return r


@reg("builtins.zip")
def b_zip(I, args, kw):
    its = [I.iterate(a) for a in args]
    if all(i[0] == "c" for i in its):
        n = min(len(i[1]) for i in its) if its else 0
        return Tup([Tup([i[1][k] for i in its]) for k in range(n)])
    n, ats = None, []
    for i, a in zip(its, args):
        if i[0] == "c":
            t = to_array(I, a)
            if t is None:
                return Unk("zip of mixed sequences")
            m, at = t.axes[0].ext, (lambda p, t=t: I.getitem(t, S(p)))
        else:
            m, at = i[1], i[2]
        ats.append(at)
        n = m if n is None or n == m else mk_ap("min", (n, m))
    return Seq(n, lambda p: Tup([at(p) for at in ats]), "zip")


@reg("builtins.enumerate")
def b_enum(I, args, kw):
    st = arg(args, kw, 1, "start")
    s = const(0) if st is None else I.sc(st)
    it = I.iterate(args[0])
    if it[0] == "c":
        return Tup([Tup([S(s + k), x]) for k, x in enumerate(it[1])])
    return Seq(it[1], lambda p: Tup([S(s + p), it[2](p)]), "enumerate")


@reg("builtins.map")
def b_map(I, args, kw):
    f = args[0]
    its = [I.iterate(a) for a in args[1:]]
    if all(i[0] == "c" for i in its):
        n = min(len(i[1]) for i in its)
        return I.ref(HList([("i", I.call(f, [i[1][k] for i in its], {})) for k in range(n)]))
    z = b_zip(I, args[1:], {})
    if isinstance(z, Unk):
        return z
    return Seq(z.n, lambda p: I.call(f, list(z.at(p).items), {}), "map")


@reg("builtins.filter")
def b_filter(I, args, kw):
    it = I.iterate(args[1])
    if it[0] != "c":
        return Unk("filter")
    out = []
    for x in it[1]:
        c = I.truth(x if isnone(args[0]) else I.call(args[0], [x], {}))
        if c is None or c.op not in ("true", "false"):
            return Unk("filter")
        if c.op == "true":
            out.append(x)
    return Tup(out)


@reg("builtins.reversed")
def b_rev(I, args, kw):
    it = I.iterate(args[0])
    if it[0] == "c":
        return Tup(it[1][::-1])
    return Seq(it[1], lambda p: it[2](it[1] - 1 - p))


def minmax(name):
    def f(I, args, kw):
        if "key" in kw:
            return Unk(name + " with key")
        xs = args
        if len(args) == 1:
            v = args[0]
            it = I.iterate(v)
            if it[0] == "c":
                xs = it[1]
            else:
                t = to_array(I, v)
                if t is None:
                    return Unk(name)
                return tops.reduce_ap(I, "a" + name, t, [0])
        if any(isinstance(x, Unk) for x in xs):
            return Unk(name + " of unknown")
        ps = []
        for x in xs:
            t = I.d(I.num(x))
            if t.axes:
                p = I.sc(t)
            else:
                p = pbody(t.body)
            ps.append(p)
        if len(ps) == 1:
            return S(ps[0])
        return S(mk_ap(name, tuple(ps)))
    return f


NP["builtins.min"] = minmax("min")
NP["builtins.max"] = minmax("max")


@reg("builtins.sum")
def b_sum(I, args, kw):
    st = arg(args, kw, 1, "start")
    it = I.iterate(args[0])
    if it[0] == "c":
        acc = st if st is not None else S(0)
        import ast
        for x in it[1]:
            acc = M.binop(I, ast.Add(), acc, x)
        return acc
    i = Ax(it[1])
    t = I.d(I.num(it[2](i.p())))
    r = tops.reduce_sum(I, T([i] + list(t.axes), pbody(t.body)), [0])
    if st is not None:
        import ast
        return M.binop(I, ast.Add(), st, r)
    return r


@reg("builtins.float")
def b_float(I, args, kw):
    v = args[0] if args else S(0)
    if isinstance(v, K) and isinstance(v.v, str):
        if v.v in ("inf", "nan"):
            return S(sym(v.v))
        try:
            from fractions import Fraction
            return S(const(Fraction(v.v)))
        except Exception:
            return Unk("float of string")
    if isinstance(v, (Unk,)):
        return v
    return S(I.sc(v))


def intlike(p):
    from alg import _intlike
    return _intlike(p)


@reg("builtins.int")
def b_int(I, args, kw):
    v = args[0] if args else S(0)
    if isinstance(v, Unk):
        return v
    if isinstance(v, K):
        try:
            return S(int(v.v))
        except Exception:
            return Unk("int")
    p = I.sc(v)
    c = p.const()
    if c is not None:
        return S(int(c))
    if intlike(p):
        return S(p)
    return S(mk_ap("trunc", (p,)))


@reg("builtins.bool")
def b_bool(I, args, kw):
    c = I.truth(args[0])
    return Unk("bool") if c is None else T((), c)


@reg("builtins.complex")
def b_complex(I, args, kw):
    if len(args) == 1:
        return args[0]
    return S(I.sc(args[0]) + I.sc(args[1]) * sym("I"))


@reg("builtins.str", "builtins.repr", "builtins.format")
def b_str(I, args, kw):
    if args and isinstance(args[0], K) and isinstance(args[0].v, str):
        return args[0]
    return K("<str>")


@reg("builtins.round")
def b_round(I, args, kw):
    return NP["numpy.round"](I, args, kw)


@reg("builtins.slice")
def b_slice(I, args, kw):
    a = list(args)
    if len(a) == 1:
        return Sl(NONE, a[0], NONE)
    return Sl(a[0], a[1], a[2] if len(a) > 2 else NONE)


@reg("builtins.divmod")
def b_divmod(I, args, kw):
    import ast
    return Tup([M.binop(I, ast.FloorDiv(), args[0], args[1]), M.binop(I, ast.Mod(), args[0], args[1])])


def anyall(name):
    def f(I, args, kw):
        v = args[0]
        it = I.iterate(v)
        if it[0] != "c":
            t = to_array(I, v)
            if t is None:
                return Unk(name)
            return NP["numpy." + name](I, [t], {})
        cs = [I.truth(x) for x in it[1]]
        if any(c is None for c in cs):
            return Unk(name)
        return T((), c_or(*cs) if name == "any" else c_and(*cs))
    return f


NP["builtins.any"] = anyall("any")
NP["builtins.all"] = anyall("all")


@reg("builtins.sorted")
def b_sorted(I, args, kw):
    it = I.iterate(args[0])
    if it[0] == "c" and not kw:
        ks = it[1]
        if all(isinstance(k, K) and isinstance(k.v, str) for k in ks):
            return I.ref(HList([("i", k) for k in sorted(ks, key=lambda k: k.v)]))
        try:
            vals = [(I.sc(k).const(), k) for k in ks]
            if all(v[0] is not None for v in vals):
                return I.ref(HList([("i", k) for _, k in sorted(vals, key=lambda t: t[0])]))
        except Exception:
            pass
    t = to_array(I, args[0])
    if t is not None and "key" not in kw:
        r = NP["numpy.sort"](I, [t], {})
        return r
    return Unk("sorted")


TYPES = {
    "builtins.str": lambda I, v: isinstance(v, K) and isinstance(v.v, str),
    "builtins.list": lambda I, v: islist(I, v),
    "builtins.tuple": lambda I, v: isinstance(v, Tup),
    "builtins.dict": lambda I, v: isdict(I, v),
    "builtins.slice": lambda I, v: isinstance(v, Sl),
    "builtins.set": lambda I, v: False,
    "builtins.type": lambda I, v: isinstance(v, Cls),
    "builtins.object": lambda I, v: True,
    "xarray.Dataset": lambda I, v: isds(I, v),
    "xarray.DataArray": lambda I, v: isinstance(v, T) and v.xr,
    "numpy.ndarray": lambda I, v: isinstance(v, T) and not v.xr and bool(v.axes),
    "functools.partial": lambda I, v: isinstance(v, Partial),
}


def scalar_type(I, v, n):
    if isinstance(v, T) and not v.axes and not v.xr:
        b = I.d(v).body
        if isinstance(b, Cond):
            return n in ("bool", "int")
        c = b.const()
        if n == "bool":
            return False
        if n in ("Number", "Real", "number", "generic"):
            return True
        if n in ("int", "Integral", "integer", "int64"):
            if c is not None:
                return c.denominator == 1
            return True if intlike(b) else None
        if n in ("float", "floating", "float64"):
            if c is not None:
                return c.denominator != 1
            return False if intlike(b) else None
        return None
    return False


@reg("builtins.isinstance")
def b_isinstance(I, args, kw):
    v, ty = args
    if isinstance(ty, Tup):
        cs = [I.truth(b_isinstance(I, [v, t], {})) for t in ty.items]
        if any(c is None for c in cs):
            return Unk("isinstance")
        return T((), c_or(*cs))
    if isinstance(v, Phi):
        a, b = I.truth(b_isinstance(I, [v.a, ty], {})), I.truth(b_isinstance(I, [v.b, ty], {}))
        if a is None or b is None:
            return Unk("isinstance")
        return T((), c_or(c_and(v.c, a), c_and(c_not(v.c), b)))
    if isinstance(v, Unk):
        return Unk("isinstance of unknown")
    if isinstance(v, Opq):
        if v.typ is not None and isinstance(ty, Ext):
            return T((), TRUE if ty.name.split(".")[-1] == v.typ else FALSE)
        return T((), Cond("isinst", (v.path, ty.name if isinstance(ty, (Ext, Cls)) else "?")))
    r = None
    if isinstance(ty, Ext):
        n = ty.name
        if n in TYPES:
            r = TYPES[n](I, v)
        elif n.split(".")[-1] in ("int", "float", "bool", "Number", "Real", "Integral", "integer", "floating", "number", "int64", "float64", "generic", "complex"):
            r = scalar_type(I, v, n.split(".")[-1])
        elif n.split(".")[-1] in ("Callable",):
            return b_callable(I, [v], {})
        elif n.split(".")[-1] in ("Iterable", "Sequence"):
            r = isinstance(v, (Tup, Seq)) or islist(I, v) or (isinstance(v, T) and bool(v.axes))
        elif n.split(".")[-1] in ("Mapping", "MutableMapping"):
            r = isdict(I, v) or isds(I, v)
        elif isinstance(v, (T, K, Tup, Sl)) or islist(I, v) or isdict(I, v) or isds(I, v):
            r = False
    elif isinstance(ty, Cls):
        if isinstance(v, Ref) and isinstance(I.h(v), HInst):
            r = any(c.name == ty.name and c.node is ty.node for c in I.mro(I.h(v).cls))
        elif isinstance(v, Tup) and ty.fields is not None:
            r = v.cls == ty.name
        else:
            r = False
    if r is None:
        return Unk("isinstance")
    return T((), TRUE if r else FALSE)


@reg("builtins.issubclass")
def b_issub(I, args, kw):
    if isinstance(args[0], Cls) and isinstance(args[1], Cls):
        return T((), TRUE if any(c.node is args[1].node for c in I.mro(args[0])) else FALSE)
    return Unk("issubclass")


def has(I, obj, name):
    """condition: obj has attribute name (None: undecided)"""
    if isinstance(obj, Ref):
        o = I.h(obj)
        if isinstance(o, HInst):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Phi):
                    if isinstance(v.a, Unk) and v.a.why == "unset":
                        return c_not(v.c)
                    if isinstance(v.b, Unk) and v.b.why == "unset":
                        return v.c
                if isinstance(v, Unk) and v.why == "unset":
                    return FALSE
                return TRUE
            return TRUE if I.class_attr(o.cls, name) is not None else FALSE
        if isinstance(o, HDs):
            return TRUE if name in o.vars or name in o.coords or name in m_xr2.DM or name in ("attrs", "dims", "sizes", "coords", "data_vars") else FALSE
        return None
    if isinstance(obj, Cls):
        return TRUE if I.class_attr(obj, name) is not None else FALSE
    if isinstance(obj, Opq):
        if name in obj.attrs:
            return TRUE
        if obj.typ == "closed":
            return FALSE
        return Cond("hasattr", (obj.path, name))
    if isinstance(obj, T):
        return TRUE if name in ("shape", "ndim", "dtype", "data", "T", "size", "__array__") or name in ARR_SAME or (obj.xr and (name in m_xr2.XM or name in ("dims", "coords", "attrs", "values"))) else FALSE
    if isinstance(obj, Tup):
        return TRUE if obj.names and name in obj.names else FALSE
    if isinstance(obj, K):
        return TRUE if hasattr(obj.v, name) else FALSE
    if isinstance(obj, FnObj):
        return TRUE if name in ("derivative", "deriv", "antiderivative", "integ") else FALSE
    return None


@reg("builtins.hasattr")
def b_hasattr(I, args, kw):
    if isinstance(args[0], Unk) or not isinstance(args[1], K):
        return Unk("hasattr")
    c = has(I, args[0], args[1].v)
    return Unk("hasattr") if c is None else T((), c)


@reg("builtins.getattr")
def b_getattr(I, args, kw):
    o, n = args[0], args[1]
    if not isinstance(n, K):
        return Unk("getattr with symbolic name")
    if len(args) > 2:
        c = has(I, o, n.v)
        if c is not None and c.op == "false":
            return args[2]
        if c is not None and c.op not in ("true", "hasattr"):
            v = I.h(o).attrs.get(n.v) if isinstance(o, Ref) and isinstance(I.h(o), HInst) else None
            if isinstance(v, Phi):
                x = v.b if isinstance(v.a, Unk) and v.a.why == "unset" else v.a
                return I.merge_val(c, x, args[2])
    return I.getattr(o, n.v)


@reg("builtins.setattr")
def b_setattr(I, args, kw):
    if not isinstance(args[1], K):
        I.notes.add("setattr with symbolic name")
        I.taint = I.taint or "attribute of unknown name"
        return NONE
    I.setattr(args[0], args[1].v, args[2])
    return NONE


@reg("builtins.delattr")
def b_delattr(I, args, kw):
    o = I.h(args[0])
    at = dict(o.attrs)
    at.pop(args[1].v, None)
    I.heap[args[0].id] = HInst(o.cls, at, o.owner)
    return NONE


@reg("builtins.callable")
def b_callable(I, args, kw):
    v = args[0]
    if isinstance(v, Phi):
        a, b = I.truth(b_callable(I, [v.a], {})), I.truth(b_callable(I, [v.b], {}))
        if a is None or b is None:
            return Unk("callable")
        return T((), c_or(c_and(v.c, a), c_and(c_not(v.c), b)))
    if isinstance(v, (Fn, Bound, Cls, Ext, Partial, Meth, FnObj)):
        return T((), TRUE)
    if isinstance(v, (K, T, Tup, Seq, Sl)):
        return T((), FALSE)
    if isinstance(v, Ref):
        o = I.h(v)
        if isinstance(o, HInst):
            return T((), TRUE if I.class_attr(o.cls, "__call__") is not None else FALSE)
        return T((), FALSE)
    if isinstance(v, Opq):
        if v.hook and v.hook[0] == "call":
            return T((), TRUE)
        if v.typ is not None and v.typ != "callable":
            return T((), FALSE)
        return T((), Cond("callable", (v.path,)))
    return Unk("callable")


@reg("builtins.type")
def b_type(I, args, kw):
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.h(v), HInst):
        return I.h(v).cls
    if isinstance(v, K) and isinstance(v.v, str):
        return Ext("builtins.str")
    if islist(I, v):
        return Ext("builtins.list")
    if isdict(I, v):
        return Ext("builtins.dict")
    if isds(I, v):
        return Ext("xarray.Dataset")
    if isinstance(v, Tup):
        return Ext("builtins.tuple")
    if isinstance(v, T):
        return Ext("xarray.DataArray" if v.xr else "numpy.ndarray" if v.axes else "builtins.float")
    return Unk("type")


@reg("builtins.dir")
def b_dir(I, args, kw):
    if not args:
        return Unk("dir")
    v = args[0]
    if isinstance(v, Ref) and isinstance(I.h(v), HInst):
        names = set(I.h(v).attrs)
        for c in I.mro(I.h(v).cls):
            names |= set(I.class_body(c))
        return Tup([K(n) for n in sorted(names) if not (n.startswith("__") and n.endswith("__"))])
    return Unk("dir")


@reg("builtins.vars")
def b_vars(I, args, kw):
    return I.getattr(args[0], "__dict__") if args else Unk("vars")


@reg("builtins.id")
def b_id(I, args, kw):
    return Unk("id")


@reg("builtins.object")
def b_object(I, args, kw):
    return Opq("object()")


@reg("builtins.open")
def b_open(I, args, kw):
    I.event("io", "open")
    return Opq("file")
