"""Library models: operators, attributes, items, dispatch of external calls."""
import ast
from values import *
import tops
from tops import pbody, ewise, unary

NP = {}        # qualified external name -> callable(I, args, kw)
METH = {}      # array method name -> callable(I, obj, args, kw)


def raises(I, what):
    from interp import AlwaysRaises
    return AlwaysRaises(what, I.where)


def isnone(v):
    return v is None or (isinstance(v, K) and v.v is None)


def arg(args, kw, i, name, default=None):
    if i is not None and i < len(args):
        return args[i]
    if name in kw:
        return kw[name]
    return default


def isds(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.id), HDs)


def islist(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.id), HList)


def isdict(I, v):
    return isinstance(v, Ref) and isinstance(I.heap.get(v.id), HDict)


def isarr(v):
    return isinstance(v, T)


# ------------------------------------------------------------------ operators
def ppow(b, e):
    c = e.const()
    if c is not None:
        return b.pow(c)
    ec = e.t.get((), Fraction(0))
    if ec and ec.denominator == 1:
        return ppow(b, e - const(ec)) * b.pow(ec)
    if b.const() == 1:
        return const(1)
    lead = sorted((P({m: Fraction(1)}).s, c) for m, c in e.t.items())[0][1]
    if lead < 0:
        return mk_ap("pow", (b, -e)).inv()
    return mk_ap("pow", (b, e))


def floordiv(a, b):
    return mk_ap("floordiv", (a, b))


def arith(op):
    n = type(op).__name__ if not isinstance(op, str) else op

    def f(a, b):
        if n in ("BitAnd", "BitOr", "BitXor") and isinstance(a, Cond) and isinstance(b, Cond):
            if n == "BitAnd":
                return c_and(a, b)
            if n == "BitOr":
                return c_or(a, b)
            return c_or(c_and(a, c_not(b)), c_and(c_not(a), b))
        a, b = pbody(a), pbody(b)
        if n == "Add":
            return a + b
        if n == "Sub":
            return a - b
        if n == "Mult":
            return a * b
        if n == "Div":
            return a / b
        if n == "FloorDiv":
            return floordiv(a, b)
        if n == "Mod":
            return mk_ap("mod", (a, b))
        if n == "Pow":
            return ppow(a, b)
        if n == "LShift" :
            return a * ppow(const(2), b)
        return unk("operator " + n)
    return f


def numericish(I, v):
    return isinstance(v, T) or (isinstance(v, Opq)) or (isinstance(v, K) and isinstance(v.v, complex)) or isinstance(v, Seq)


def binop(I, op, a, b):
    if isinstance(a, Phi):
        return I.split(a.c, lambda: binop(I, op, a.a, b), lambda: binop(I, op, a.b, b))
    if isinstance(b, Phi):
        return I.split(b.c, lambda: binop(I, op, a, b.a), lambda: binop(I, op, a, b.b))
    if isinstance(a, Unk):
        return a
    if isinstance(b, Unk):
        return b
    # user defined operators
    for x, y, pre in ((a, b, "__"), (b, a, "__r")):
        if isinstance(x, Ref) and isinstance(I.h(x), HInst):
            nm = pre + {"Add": "add", "Sub": "sub", "Mult": "mul", "Div": "truediv", "MatMult": "matmul", "Pow": "pow"}.get(type(op).__name__, "?") + "__"
            f = I.class_attr(I.h(x).cls, nm)
            if f is not None:
                from interp import Bound as B
                return I.call(Bound(f, x), [y], {})
    if isds(I, a) or isds(I, b):
        return ds_binop(I, op, a, b)
    if isinstance(a, SetT) or isinstance(b, SetT):
        import m_misc
        nm = {ast.Sub: "difference", ast.BitOr: "union", ast.BitAnd: "intersection", ast.BitXor: "symmetric_difference"}.get(type(op))
        r = m_misc.set_op(I, a, b, nm) if nm else None
        return Unk("set operation") if r is None else r
    if isinstance(op, ast.Add):
        if isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if islist(I, a) and islist(I, b):
            return I.ref(HList(I.h(a).items + I.h(b).items))
        if isinstance(a, K) and isinstance(b, K) and isinstance(a.v, str) and isinstance(b.v, str):
            return K(a.v + b.v)
        if (isinstance(a, K) and isinstance(a.v, str)) or (isinstance(b, K) and isinstance(b.v, str)):
            return K("<str>")
        if (isinstance(a, Tup) and islist(I, b)) or (islist(I, a) and isinstance(b, Tup)):
            raise raises(I, "TypeError: list + tuple")
    if isinstance(op, ast.Mult):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Tup) or islist(I, x):
                n = I.sc(y) if isinstance(y, T) and not y.axes else None
                if n is None:
                    break
                k = n.intval()
                if isinstance(x, Tup):
                    if k is not None:
                        return Tup(x.items * max(0, k))
                    return Unk("tuple of symbolic length")
                its = I.h(x).items
                if k is not None:
                    return I.ref(HList(its * max(0, k)))
                if len(its) == 1 and its[0][0] == "i":
                    i = fresh_iv()
                    Bounds.iv[i] = (const(0), n)
                    return I.ref(HList([("m", i, n, its[0][1])]))
                return Unk("list repetition")
            if isinstance(x, K) and isinstance(x.v, str):
                return K("<str>")
    if isinstance(op, ast.Mod) and isinstance(a, K) and isinstance(a.v, str):
        return K("<str>")
    if isinstance(op, ast.BitOr) and isdict(I, a) and isdict(I, b):
        d = {I.keystr(k): (k, v) for k, v in I.h(a).items}
        d.update({I.keystr(k): (k, v) for k, v in I.h(b).items})
        return I.ref(HDict(d.values()))
    if (isinstance(a, K) and (a.v is None or isinstance(a.v, str))) or (isinstance(b, K) and (b.v is None or isinstance(b.v, str))):
        raise raises(I, "TypeError: arithmetic on %r" % ((a.v if isinstance(a, K) else b.v),))
    if isinstance(op, ast.MatMult):
        ta, tb = I.num(a), I.num(b)
        r = tops.matmul(I, ta, tb)
        return r
    ta, tb = I.num(a), I.num(b)
    r = ewise(I, arith(op), ta, tb)
    return r


def ds_binop(I, op, a, b):
    f = arith(op)
    if isds(I, a) and isds(I, b):
        da, db = I.h(a), I.h(b)
        names = [k for k in da.vars if k in db.vars]
        vs = {k: ewise(I, f, ds_get(I, a, k), ds_get(I, b, k)) for k in names}
    elif isds(I, a):
        da = I.h(a)
        vs = {k: ewise(I, f, ds_get(I, a, k), b) for k in da.vars}
    else:
        da = I.h(b)
        vs = {k: ewise(I, f, a, ds_get(I, b, k)) for k in da.vars}
    return mk_ds(I, vs, dict(da.coords), None)


def compare(I, op, l, r):
    if isinstance(l, Phi):
        return I.split(l.c, lambda: compare(I, op, l.a, r), lambda: compare(I, op, l.b, r))
    if isinstance(r, Phi):
        return I.split(r.c, lambda: compare(I, op, l, r.a), lambda: compare(I, op, l, r.b))
    neg = isinstance(op, (ast.IsNot, ast.NotEq, ast.NotIn))
    c = None
    if isinstance(op, (ast.Is, ast.IsNot)):
        c = is_same(I, l, r)
    elif isinstance(op, (ast.In, ast.NotIn)):
        c = contains(I, l, r)
    elif isinstance(op, (ast.Eq, ast.NotEq)):
        t = equal(I, l, r)
        if isinstance(t, T):
            if neg:
                b = I.d(t).body
                return T(t.axes, c_not(b), t.xr, t.coords)
            return t
        c = t
    else:
        if isinstance(l, Unk) or isinstance(r, Unk):
            return S(Cond("unk", ("cmp#%d" % next(I._ids),)))
        if isinstance(l, SetT) or isinstance(r, SetT):
            import m_misc
            sub, sup = m_misc.set_op(I, l, r, "issubset"), m_misc.set_op(I, l, r, "issuperset")
            if sub is None or sup is None:
                return S(Cond("unk", ("cmp#%d" % next(I._ids),)))
            return K({ast.LtE: sub, ast.GtE: sup, ast.Lt: sub and not sup, ast.Gt: sup and not sub}[type(op)])

        def f(a, b):
            a, b = pbody(a), pbody(b)
            if isinstance(op, ast.Lt):
                return c_lt(a, b)
            if isinstance(op, ast.Gt):
                return c_lt(b, a)
            if isinstance(op, ast.LtE):
                return c_le(a, b)
            return c_le(b, a)
        for x in (l, r):
            if isinstance(x, K) and x.v is None:
                raise raises(I, "TypeError: ordering comparison with None")
        return ewise(I, f, l, r)
    if c is None:
        c = Cond("unk", ("cmp#%d" % next(I._ids),))
    return S(c_not(c) if neg else c)


def is_same(I, l, r):
    for a, b in ((l, r), (r, l)):
        if isinstance(b, K) and b.v is None:
            if isinstance(a, K):
                return TRUE if a.v is None else FALSE
            if isinstance(a, Opq):
                return FALSE if a.notnone else Cond("isnone", (a.path,))
            if isinstance(a, Unk):
                return None
            return FALSE
    if isinstance(l, Ref) and isinstance(r, Ref):
        return TRUE if l.id == r.id else FALSE
    if isinstance(l, K) and isinstance(r, K):
        return TRUE if l.v == r.v else FALSE
    if isinstance(l, Ext) and isinstance(r, Ext):
        return TRUE if l.name == r.name else FALSE
    if isinstance(l, Cls) and isinstance(r, Cls):
        return TRUE if l.node is r.node else FALSE
    if isinstance(l, T) and isinstance(r, T) and not l.axes and not r.axes:
        t = equal(I, l, r)
        return I.d(t).body
    if isinstance(l, T) and isinstance(r, T) and l.buf is not None and r.buf is not None:
        return TRUE if l.buf == r.buf else FALSE
    return None


def equal(I, l, r):
    """T (elementwise), Cond or None"""
    if isinstance(l, Unk) or isinstance(r, Unk):
        return None
    if isinstance(l, SetT) and isinstance(r, SetT):
        import m_misc
        e = [m_misc.set_op(I, l, r, k) for k in ("issubset", "issuperset")]
        return None if None in e else TRUE if all(e) else FALSE
    if isinstance(l, K) and isinstance(r, K):
        return TRUE if l.v == r.v else FALSE
    for a, b in ((l, r), (r, l)):
        if isinstance(a, K):
            if isinstance(b, Opq) and isinstance(a.v, str):
                if b.typ is not None and b.typ != "str":
                    return FALSE
                return Cond("seq", (b.path, a.v))
            if isinstance(b, (T, Tup, Ref, Fn, Bound, Cls, Seq)):
                return FALSE
            if isinstance(b, Opq) and a.v is None:
                return is_same(I, b, a)
            return None
    if isinstance(l, Tup) and isinstance(r, Tup):
        if len(l.items) != len(r.items):
            return FALSE
        cs = []
        for x, y in zip(l.items, r.items):
            e = equal(I, x, y)
            if isinstance(e, T):
                e = I.truth(e)
            if e is None:
                return None
            cs.append(e)
        return c_and(*cs) if cs else TRUE
    if islist(I, l) and islist(I, r):
        a, b = I.h(l).items, I.h(r).items
        if all(x[0] == "i" for x in a + b):
            return equal(I, Tup([x[1] for x in a]), Tup([x[1] for x in b]))
        return None
    if isinstance(l, Ext) and isinstance(r, Ext):
        return TRUE if l.name == r.name else FALSE
    if isinstance(l, (T, Opq)) and isinstance(r, (T, Opq)):
        def f(a, b):
            if isinstance(a, Cond) and isinstance(b, Cond):
                return c_or(c_and(a, b), c_and(c_not(a), c_not(b)))
            return c_eq(pbody(a), pbody(b))
        t = ewise(I, f, l, r)
        return t if isinstance(t, T) else None
    if isinstance(l, Cls) and isinstance(r, Cls):
        return TRUE if l.node is r.node else FALSE
    if isinstance(l, Ref) and isinstance(r, Ref):
        return TRUE if l.id == r.id else None
    if type(l) is not type(r) and isinstance(l, (Tup, Ext, Cls)) and isinstance(r, (Tup, Ext, Cls)):
        return FALSE
    return None


def contains(I, x, seq):
    if isinstance(seq, Opq) and seq.hook and seq.hook[0] == "dims":
        return TRUE if isinstance(x, K) and x.v in seq.hook[1] else FALSE
    if isds(I, seq):
        o = I.h(seq)
        if isinstance(x, K):
            return TRUE if x.v in o.vars or x.v in o.coords else FALSE
    if isdict(I, seq):
        ks = I.keystr(x)
        cs = []
        for k, v in I.h(seq).items:
            e = equal(I, k, x)
            if isinstance(e, T):
                e = I.truth(e)
            if e is None:
                return None
            g = TRUE
            if isinstance(v, Phi):
                if isinstance(v.a, Unk) and v.a.why == "unset":
                    g = c_not(v.c)
                elif isinstance(v.b, Unk) and v.b.why == "unset":
                    g = v.c
            cs.append(c_and(e, g))
        return c_or(*cs) if cs else FALSE
    if isinstance(seq, K) and isinstance(seq.v, str):
        if isinstance(x, K) and isinstance(x.v, str):
            return TRUE if x.v in seq.v else FALSE
        return None
    if isinstance(seq, K) and isinstance(seq.v, tuple):
        seq = Tup([K(v) for v in seq.v])
    try:
        it = I.iterate(seq)
    except Exception:
        return None
    if it[0] != "c":
        return None
    cs = []
    for y in it[1]:
        e = equal(I, x, y)
        if isinstance(e, T):
            e = I.truth(e)
        if e is None:
            return None
        cs.append(e)
    return c_or(*cs) if cs else FALSE


# -------------------------------------------------------------------- arrays
def to_array(I, v):
    """list / tuple / sequence -> tensor (None when not numeric)"""
    if isinstance(v, T):
        return v
    if isinstance(v, Seq):
        i = Ax(v.n)
        e = v.at(i.p())
        t = I.d(I.num(e))
        return T([i] + list(t.axes), pbody(t.body))
    pieces = []
    if isinstance(v, Tup):
        items = [("i", x) for x in v.items]
    elif islist(I, v):
        items = list(I.h(v).items)
    else:
        return None
    for x in items:
        val = x[-1]
        if isinstance(val, K) and isinstance(val.v, (str, type(None))):
            return None
        if isinstance(val, Ref) and not islist(I, val):
            return None
        if isinstance(val, (Fn, Cls, Bound, Ext, Partial)):
            return None
        t = I.num(val)
        t = I.d(t)
        if x[0] == "i":
            a = Ax(1)
            pieces.append(T([a] + list(t.axes), pbody(t.body)))
        else:
            nv = fresh_iv()
            a = Ax(x[2], None, nv)
            mp = {x[1]: iv(nv)}
            na, ren = [], {}
            for b in t.axes:
                if x[1] in b.ext.fv:
                    return T([Ax(x[2])], unk("ragged array"))
                c = Ax(b.ext)
                ren[b.v] = c.p()
                na.append(c)
            pieces.append(T([a] + na, subst(subst(pbody(t.body), ren), mp)))
    if not pieces:
        return T([Ax(0)], const(0))
    n = len(pieces[0].axes)
    if any(len(p.axes) != n for p in pieces):
        return T([Ax(len(pieces))], unk("ragged array"))
    return tops.concat(I, pieces, 0)


def list_extend(I, ref, v):
    o = I.h(ref)
    if o.owner:
        I.event("mutate", o.owner)
    if isinstance(v, Ref) and islist(I, v):
        new = I.h(v).items
    else:
        it = I.iterate(v)
        if it[0] == "c":
            new = tuple(("i", x) for x in it[1])
        else:
            i = fresh_iv()
            Bounds.iv[i] = (const(0), it[1])
            new = (("m", i, it[1], I.deref_val(it[2](iv(i)))),)
    I.heap[ref.id] = HList(o.items + tuple(new), o.owner)


def opq_iter(I, v):
    if v.hook and v.hook[0] == "seq":
        return ("s", v.hook[1], v.hook[2])
    if v.hook and v.hook[0] == "dims":
        return ("c", [K(x) for x in v.hook[1]])
    return None


def mkrange(I, lo, hi, step):
    st = step.intval()
    if st is None or st == 0:
        return Unk("range with symbolic step")
    d = hi - lo if st > 0 else lo - hi
    k = abs(st)
    n = d if k == 1 else floordiv(d + (k - 1), const(k))
    nc = n.const()
    if nc is not None:
        n = const(max(0, nc))
    elif prove_neg(n) is not False and not tops._structured_nonneg(n):
        n = mk_ap("max", (n, const(0)))
    return Seq(n, lambda p, lo=lo, st=st: S(lo + p * st), "range")


# ------------------------------------------------------------------ datasets
def mk_ds(I, vars, coords, attrs, owner=None):
    if attrs is None:
        attrs = I.ref(HDict([]))
    return I.ref(HDs(vars, coords, attrs, (), owner))


def ds_dims(I, ref):
    """label -> extent"""
    o = I.h(ref)
    d = {}
    for v in list(o.vars.values()) + list(o.coords.values()):
        while isinstance(v, Phi):
            v = v.a if isinstance(v.a, T) else v.b
        if isinstance(v, T):
            for a in v.axes:
                if a.label not in d:
                    d[a.label] = a.ext
    return d


def ds_get(I, ref, name):
    o = I.h(ref)
    if name in o.vars:
        v = o.vars[name]
        if isinstance(v, Phi):
            v = I.chk_unset(v, name)
        if not isinstance(v, T):
            return v
        labs = v.dims()
        co = {}
        for k, c in o.coords.items():
            if not isinstance(c, T) or not c.axes or all(a.label in labs for a in c.axes):
                co[k] = c
        return T(v.axes, v.body, True, co, v.buf, v.bidx, name)
    if name in o.coords:
        c = o.coords[name]
        return T(c.axes, c.body, True, {name: c} if c.axes else {}, c.buf, c.bidx, name)
    dims = ds_dims(I, ref)
    if name in dims:
        a = Ax(dims[name], name)
        return T([a], a.p(), True, {}, name=name)
    raise raises(I, "KeyError: %s" % name)


def ds_map(I, ref, f, attrs=True):
    o = I.h(ref)
    vs = {}
    for k in o.vars:
        vs[k] = f(ds_get(I, ref, k))
    return mk_ds(I, vs, dict(o.coords), o.attrs if attrs else None)


# -------------------------------------------------------------- attributes
CONSTS = {
    "numpy.pi": lambda: S(sym("pi")), "math.pi": lambda: S(sym("pi")), "numpy.newaxis": lambda: NONE,
    "numpy.nan": lambda: S(sym("nan")), "numpy.inf": lambda: S(sym("inf")), "math.inf": lambda: S(sym("inf")), "numpy.e": lambda: S(mk_ap("exp", (const(1),))),
}


def getattr(I, obj, name):
    if isinstance(obj, Unk):
        return Unk("attribute of unknown (%s)" % obj.why)
    if isinstance(obj, Ext):
        q = obj.name + "." + name
        if q in CONSTS:
            return CONSTS[q]()
        if obj.name.startswith("instance:"):
            return Unk("attribute %s of %s" % (name, obj.name))
        return Ext(q)
    if isinstance(obj, T):
        return arr_attr(I, obj, name)
    if isds(I, obj):
        import m_xr2
        return m_xr2.ds_attr(I, obj, name)
    if isinstance(obj, Ref):
        return Meth(obj, name)
    if isinstance(obj, Opq):
        if name in obj.attrs:
            v = obj.attrs[name]
            return v
        if obj.hook and obj.hook[0] == "attrs":
            r = obj.hook[1](I, obj, name)
            if r is not None:
                return r
        if name == "shape":
            return Opq(obj.path + ".shape", typ="tuple")
        return Opq(obj.path + "." + name, hook=("child", obj))
    if isinstance(obj, (Tup, K, Seq, FnObj, Sl)):
        if isinstance(obj, FnObj) and name in ("derivative", "deriv", "antiderivative", "integ", "basis"):
            return Meth(obj, name)
        if isinstance(obj, Sl):
            return {"start": obj.lo, "stop": obj.hi, "step": obj.step}.get(name, Unk("slice." + name))
        if isinstance(obj, FnObj):
            import m_misc
            return m_misc.fnobj_attr(I, obj, name)
        if isinstance(obj, K) and isinstance(obj.v, str) and name in ("values", "data"):
            return obj      # a zero dimensional string variable
        return Meth(obj, name)
    if isinstance(obj, (Fn, Bound)):
        if name == "__name__":
            return K(obj.name if isinstance(obj, Fn) else obj.fn.name)
        if name == "__self__" and isinstance(obj, Bound):
            return obj.self
        return Unk("function attribute")
    if isinstance(obj, Partial):
        if name == "func":
            return obj.fn
        if name == "keywords":
            return I.ref(HDict([(K(k), v) for k, v in obj.kw.items()]))
        if name == "args":
            return Tup(obj.args)
    return Unk("attribute %s of %s" % (name, type(obj).__name__))


def arr_attr(I, t, name):
    if name == "shape":
        return Tup([S(a.ext) for a in t.axes])
    if name == "ndim":
        return S(len(t.axes))
    if name == "size":
        r = const(1)
        for a in t.axes:
            r = r * a.ext
        return S(r)
    if name == "T":
        return tops.transpose(I, t, list(range(len(t.axes)))[::-1])
    if name in ("data", "values"):
        if t.xr:
            return strip(I, t)
        return t
    if name == "real":
        return NP["numpy.real"](I, [t], {})
    if name == "imag":
        return NP["numpy.imag"](I, [t], {})
    if name == "dtype":
        return Ext("dtype")
    if name == "flat":
        return METH["ravel"](I, t, [], {})
    if t.xr:
        if name == "dims":
            return Tup([K(a.label) for a in t.axes])
        if name == "sizes":
            return I.ref(HDict([(K(a.label), S(a.ext)) for a in t.axes]))
        if name == "coords":
            return I.ref(HDict([(K(k), c) for k, c in t.coords.items()]))
        if name == "attrs":
            return Opq("attrs", hook=("anydict",))
        if name == "name":
            return K(t.name)
        if name in t.coords:
            c = t.coords[name]
            return T(c.axes, c.body, True, {name: c}, c.buf, c.bidx, name)
    return Meth(t, name)


def strip(I, t):
    """labelled -> plain array sharing the same memory"""
    if t.buf is not None:
        axes = []
        ren = {}
        for a in t.axes:
            b = Ax(a.ext)
            ren[a.v] = b.p()
            axes.append(b)
        return T(axes, None, False, {}, t.buf, tuple(subst(p, ren) for p in t.bidx))
    axes, ren = [], {}
    for a in t.axes:
        b = Ax(a.ext)
        ren[a.v] = b.p()
        axes.append(b)
    return T(axes, subst(t.body, ren))


def setattr(I, obj, name, v):
    if isinstance(obj, Unk):
        return
    if isinstance(obj, Opq):
        if obj.attrs is not None and name in obj.attrs:
            I.event("setattr", (obj.path, name))
        obj.attrs[name] = v
        return
    if isds(I, obj):
        o = I.h(obj)
        if name == "attrs":
            if o.owner:
                I.event("mutate", o.owner)
            I.heap[obj.id] = o.repl(attrs=v)
            return
    if isinstance(obj, T) and name in ("data", "values") and obj.buf is not None:
        I.store(obj, v)
        return
    if isinstance(obj, T) and name == "shape":
        I.notes.add("shape assignment")
        return
    if isinstance(obj, (Fn, Bound, Cls)):
        I.event("setattr", (repr(obj), name))
        return
    I.notes.add("attribute store %s on %s" % (name, type(obj).__name__))


def getitem(I, obj, idx):
    if isinstance(idx, Phi):
        return I.split(idx.c, lambda: getitem(I, obj, idx.a), lambda: getitem(I, obj, idx.b))
    if isinstance(obj, Unk):
        return Unk("item of unknown (%s)" % obj.why)
    if isinstance(idx, Unk):
        return Unk("unknown index")
    if isinstance(obj, T):
        if isinstance(idx, K) and isinstance(idx.v, str) and obj.xr:
            if idx.v in obj.coords:
                return arr_attr(I, obj, idx.v)
            a = obj.ax(idx.v)
            if a is not None:
                n = Ax(a.ext, idx.v)
                return T([n], n.p(), True, {}, name=idx.v)
            raise raises(I, "KeyError: %s" % idx.v)
        if isinstance(idx, Ref) and isdict(I, idx):
            import m_xr
            return m_xr.isel(I, obj, I.h(idx).items)
        if not obj.xr:
            idx = settle_masks(I, idx)
        if isinstance(idx, T) and idx.axes and isinstance(I.d(idx).body, Cond):
            return mask_select(I, obj, idx)
        return tops.index(I, obj, idx)
    if isds(I, obj):
        if isinstance(idx, K) and isinstance(idx.v, str):
            return ds_get(I, obj, idx.v)
        it = I.iterate(idx)
        if it[0] == "c" and all(isinstance(k, K) for k in it[1]):
            o = I.h(obj)
            vs = {}
            for k in it[1]:
                if k.v in o.vars:
                    vs[k.v] = o.vars[k.v]
                elif k.v not in o.coords:
                    raise raises(I, "KeyError: %s" % k.v)
            # attributes are copied (shallow)
            at = I.ref(HDict(I.h(o.attrs).items)) if isinstance(o.attrs, Ref) else o.attrs
            return mk_ds(I, vs, dict(o.coords), at)
        return Unk("dataset index")
    if isdict(I, obj):
        d = I.h(obj)
        ks = I.keystr(idx)
        for k, v in d.items:
            if I.keystr(k) == ks:
                if isinstance(v, Phi):
                    v = I.chk_unset(v, ks)
                return v
        if isinstance(idx, K) or (isinstance(idx, T) and idx.axes == () and isinstance(I.d(idx).body, P) and I.d(idx).body.const() is not None):
            raise raises(I, "KeyError: %s" % (idx.v if isinstance(idx, K) else I.d(idx).body))
        if isinstance(idx, Opq):
            # gated selection over the known keys
            r = None
            for k, v in reversed(d.items):
                if not isinstance(k, K):
                    return Unk("symbolic key")
                c = Cond("seq", (idx.path, k.v))
                r = v if r is None else I.merge_val(c, v, r)
            return r if r is not None else Unk("empty dict")
        return Unk("symbolic key")
    if isinstance(obj, K) and isinstance(obj.v, str):
        if isinstance(idx, T):
            k = I.sc(idx).intval()
            if k is not None and -len(obj.v) <= k < len(obj.v):
                return K(obj.v[k])
        if isinstance(idx, Sl):
            f = lambda v: None if isnone(v) else I.sc(v).intval()
            return K(obj.v[f(idx.lo):f(idx.hi):f(idx.step)])
        return Unk("string index")
    if isinstance(obj, Seq):
        if isinstance(idx, Sl):
            r = tops.mkslice(I, idx, obj.n)
            if r is None:
                return Unk("slice")
            n, l, s = r
            return Seq(n, lambda p: obj.at(l + p * s))
        p = I.sc(idx)
        return obj.at(tops.norm_index(I, p, obj.n))
    if isinstance(obj, Tup) or islist(I, obj):
        return seq_item(I, obj, idx)
    if isinstance(obj, Ref) and isinstance(I.h(obj), HInst):
        f = I.class_attr(I.h(obj).cls, "__getitem__")
        if f is not None:
            return I.call(Bound(f, obj), [idx], {})
    if isinstance(obj, Opq):
        if obj.hook and obj.hook[0] == "getitem":
            return obj.hook[1](I, obj, idx)
        if obj.hook and obj.hook[0] == "seq":
            p = I.sc(idx)
            return obj.hook[2](tops.norm_index(I, p, obj.hook[1]))
        if obj.hook and obj.hook[0] == "anydict":
            return Unk("attrs item")
        return Opq(obj.path + "[%s]" % I.keystr(idx))
    if isinstance(obj, Ext) and obj.name.startswith("numpy.") and obj.name.split(".")[-1] in ("r_", "c_", "s_", "ix_"):
        if obj.name.endswith("r_"):
            items = idx.items if isinstance(idx, Tup) else [idx]
            out = []
            for x in items:
                if isinstance(x, Sl):
                    sq = mkrange(I, const(0) if isnone(x.lo) else I.sc(x.lo), I.sc(x.hi), const(1) if isnone(x.step) else I.sc(x.step))
                    out.append(to_array(I, sq))
                else:
                    t = I.d(I.num(x))
                    out.append(t if t.axes else T([Ax(1)], t.body))
            return tops.concat(I, out, 0)
        if obj.name.endswith("s_"):
            return idx
    if isinstance(obj, (Ext, Cls)):
        return obj          # typing subscripts
    return Unk("item of %s" % type(obj).__name__)


def settle_mask(I, m):
    """indices selected by a boolean array of a small concrete size, when every element is decided; else None"""
    if not (isinstance(m, T) and len(m.axes) == 1):
        return None
    md = I.d(m)
    n = md.axes[0].ext.intval() if isinstance(md.axes[0].ext, P) else None
    if not isinstance(md.body, Cond) or n is None or n > 8:
        return None
    facts = [(x, True) for x in I.pc]
    r = []
    for k in range(n):
        t = truth(subst(md.body, {md.axes[0].v: const(k)}), facts)
        if t is None:
            return None
        if t:
            r.append(k)
    return r


def mask_index(I, r):
    if not r:
        return T([Ax(0)], const(0))
    return I.call(Ext("numpy.array"), [I.ref(HList([("i", S(k)) for k in r]))], {})


def settle_masks(I, idx):
    if isinstance(idx, Tup):
        if any(isinstance(x, T) and x.axes and isinstance(I.d(x).body, Cond) for x in idx.items):
            rs = [settle_mask(I, x) for x in idx.items]
            return Tup([x if r is None else mask_index(I, r) for x, r in zip(idx.items, rs)])
        return idx
    if isinstance(idx, T) and idx.axes:
        r = settle_mask(I, idx)
        if r is not None:
            return mask_index(I, r)
    return idx


def settled_store(I, obj, idx, v):
    """store through one decided mask, element by element; False: not of that form"""
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    ms = [k for k, x in enumerate(items) if isinstance(x, T) and x.axes]
    if len(ms) != 1 or any(not isinstance(x, (T, Sl)) for x in items):
        return False
    q = ms[0]
    r = settle_mask(I, items[q])
    if r is None or len(items) > len(obj.axes):
        return False
    axis = q - sum(1 for x in items[:q] if isinstance(x, T))
    rank = len(obj.axes) - sum(1 for x in items if isinstance(x, T) and not x.axes)
    v = I.num(v)
    if not isinstance(v, T):
        return False
    ax = axis - (rank - len(v.axes))
    one = ax >= 0 and I.d(v).axes[ax].ext == const(1)
    if ax >= 0 and not one and I.d(v).axes[ax].ext != const(len(r)):
        return False
    for j, k in enumerate(r):
        w = v
        if ax >= 0:
            w = getitem(I, v, Tup([Sl(NONE, NONE, NONE)] * ax + [S(0 if one else j)]))
        setitem(I, obj, Tup(items[:q] + [S(k)] + items[q + 1:]), w)
    return True


def mask_select(I, t, m):
    """boolean selection: uninterpreted compaction, kept for structural comparison"""
    td, md = I.d(t), I.d(m)
    if len(md.axes) == 1 and td.axes:
        mp = {md.axes[0].v: td.axes[0].p()}
        c = subst(md.body, mp)
        if not isinstance(c, Cond):
            return Unk("mask")
        if c.op == "true":
            return td
        n = ap("count", (mk_lam([td.axes[0].v], [td.axes[0].ext], mk_ite(c, const(1), const(0))),))
        i = Ax(n)
        lam = mk_lam([td.axes[0].v], [td.axes[0].ext], mk_ite(c, const(1), const(0)))
        j = ap("nz", (lam,), (i.p(),))
        return T([i] + list(td.axes[1:]), subst(pbody(td.body), {td.axes[0].v: j}))
    return Unk("boolean mask")


def seq_item(I, obj, idx):
    if isinstance(obj, Tup):
        items = [("i", x) for x in obj.items]
    else:
        items = list(I.h(obj).items)
    wrap = (lambda l: Tup([x[1] for x in l])) if isinstance(obj, Tup) else (lambda l: I.ref(HList(l)))
    conc = all(x[0] == "i" for x in items)
    if isinstance(idx, Sl):
        f = lambda v: None if isnone(v) else I.sc(v).intval()
        bad = [v for v in (idx.lo, idx.hi, idx.step) if not isnone(v) and f(v) is None]
        if conc and not bad:
            return wrap(items[f(idx.lo):f(idx.hi):f(idx.step)])
        if len(items) == 1 and items[0][0] == "m":
            _, i, n, val = items[0]
            r = tops.mkslice(I, idx, n)
            if r is not None:
                nn, l, s = r
                j = fresh_iv()
                Bounds.iv[j] = (const(0), nn)
                return I.ref(HList([("m", j, nn, I.subst_val(val, {i: l + iv(j) * s}))]))
        if len(items) == 2 and items[0][0] == "i" and items[1][0] == "m" and not bad and f(idx.lo) == 1 and isnone(idx.hi):
            return I.ref(HList(items[1:]))
        return Unk("list slice")
    if not isinstance(idx, (T, Opq)):
        return Unk("list index")
    p = I.sc(idx)
    k = p.intval()
    if conc:
        n = len(items)
        if k is not None:
            if not -n <= k < n:
                raise raises(I, "IndexError: index %d of length %d" % (k, n))
            return items[k][1]
        if n and n <= 12:
            r = items[-1][1]
            for j in range(n - 2, -1, -1):
                r = I.merge_val(c_eq(p, const(j)), items[j][1], r)
            return r
        return Unk("list index")
    if len(items) == 1:
        _, i, n, val = items[0]
        return I.subst_val(val, {i: tops.norm_index(I, p, n)})
    if k is not None and k >= 0:
        for x in items:
            if x[0] != "i":
                return I.subst_val(x[3], {x[1]: const(k)})
            if k == 0:
                return x[1]
            k -= 1
    if k is not None and k < 0:
        x = items[-1]
        if x[0] == "m":
            return I.subst_val(x[3], {x[1]: x[2] + k})
        if k == -1:
            return x[1]
    return Unk("index of mixed list")


def murky(I, vs, depth=4):
    """do these values contain unknown ones (whose rank and extents may be anything)?"""
    for v in vs:
        if isinstance(v, Unk):
            return True
        if isinstance(v, T):
            b = I.d(v).body
            if b is None or b.unk or any(a.ext.unk for a in v.axes):
                return True
        elif depth and isinstance(v, Tup) and murky(I, v.items, depth - 1):
            return True
        elif depth and isinstance(v, Phi) and murky(I, [v.a, v.b], depth - 1):
            return True
        elif depth and isinstance(v, Sl) and murky(I, [v.lo, v.hi, v.step], depth - 1):
            return True
        elif depth and islist(I, v) and murky(I, [x[1] if x[0] == "i" else x[3] for x in I.h(v).items], depth - 1):
            return True
    return False


def guarded(fn, pick):
    def g(I, *args):
        try:
            return fn(I, *args)
        except AlwaysRaises as e:
            if murky(I, pick(args)):
                return Unk("operation on unknown values (%s)" % e.what)
            raise
    g.__name__ = fn.__name__
    return g


REDUCTIONS = {"sum", "mean", "prod", "min", "max", "amin", "amax", "any", "all", "std", "var", "nansum", "nanmean", "nanmax", "nanmin"}


def written(I, n, g, args, kw):
    """numpy call with an output array and / or a mask"""
    out, mask = kw.get("out"), kw.get("where")
    if isinstance(out, Tup) and len(out.items) == 1:
        out = out.items[0]
    if isinstance(out, K) and out.v is None:
        out = None
    r = g(I, args, {k: v for k, v in kw.items() if k not in ("out", "where")})
    if isinstance(mask, K) and mask.v is True or mask is not None and isinstance(mask, T) and not mask.axes and I.truth(mask).op == "true":
        mask = None
    if mask is not None:
        r = Unk("masked %s" % n) if out is None or n.split(".")[-1] in REDUCTIONS else NP["numpy.where"](I, [mask, r, out], {})
    if out is None:
        return r
    if not (isinstance(out, T) and out.buf is not None):
        I.taint = I.taint or "%s writes to an unknown array" % n
        return r
    setitem(I, out, ELL, r)
    return out


def np_copyto(I, args, kw):
    written(I, "numpy.copyto", lambda I, a, k: a[0], [I.num(args[1])], {"out": args[0], "where": arg(args, kw, 3, "where") or K(True)})
    return NONE


def np_putmask(I, args, kw):
    v = I.d(I.num(args[2]))
    if v.axes:
        I.taint = I.taint or "putmask of an array"
        return NONE
    setitem(I, args[0], args[1], v)
    return NONE


def np_filldiag(I, args, kw):
    t, v = I.d(args[0]), I.d(I.num(args[1]))
    if len(t.axes) != 2 or v.axes or args[0].buf is None:
        I.taint = I.taint or "fill_diagonal"
        return NONE
    i, j = t.axes
    I.store(args[0], T(t.axes, mk_ite(c_eq(i.p(), j.p()), pbody(v.body), pbody(t.body))))
    return NONE


NP["numpy.copyto"] = np_copyto
NP["numpy.putmask"] = NP["numpy.place"] = np_putmask
NP["numpy.fill_diagonal"] = np_filldiag


def setitem(I, obj, idx, v):
    if isinstance(obj, Unk):
        return
    if isinstance(obj, T):
        if obj.buf is None:
            I.notes.add("store into a temporary array")
            return
        if isinstance(idx, Unk):
            hb = I.heap[obj.buf]
            I.heap[obj.buf] = hb.repl(init=unk("store at unknown index"), stores=())
            return
        if obj.buf in I.narrow and isinstance(v, T):
            import m_np
            v = m_np.narrowed(I.d(v), K("float32"))
        if isinstance(idx, Ref) and isdict(I, idx):
            import m_xr
            view = m_xr.isel(I, obj, I.h(idx).items)
            I.store(view, v)
            return
        if settled_store(I, obj, idx, v):
            return
        if isinstance(idx, T) and idx.axes and isinstance(I.d(idx).body, Cond):
            md = I.d(idx)
            cur = I.d(obj)
            mp = {a.v: b.p() for a, b in zip(md.axes, cur.axes)}
            c = subst(md.body, mp)
            vt = I.d(I.num(v))
            if vt.axes and not (len(vt.axes) == 1 and any(a.kind == "ap" and a.name == "nz" for a in walk(vt.body))):
                b = unk("masked store of array")
            elif vt.axes:
                # a[m] = f(b[m])
                nz = {a for a in walk(vt.body) if a.kind == "ap" and a.name == "nz"}
                lam = mk_lam([cur.axes[0].v], [cur.axes[0].ext], mk_ite(c, const(1), const(0)))
                if len(cur.axes) == 1 and all(a.args[0][0] == lam for a in nz):
                    b = subst_atoms(pbody(vt.body), {a: cur.axes[0].p() for a in nz})
                    b = mk_ite(c, b, pbody(cur.body))
                else:
                    b = unk("masked store of array")
            else:
                b = mk_ite(c, pbody(vt.body), pbody(cur.body))
            I.store(obj, T(cur.axes, b))
            return
        view = tops.index(I, obj, idx)
        if isinstance(view, T) and view.buf is not None:
            I.store(view, v)
            return
        if isinstance(view, T) and view.buf is None:
            # advanced index store
            adv_store(I, obj, idx, v)
            return
        hb = I.heap[obj.buf]
        I.heap[obj.buf] = hb.repl(init=unk("store"), stores=())
        return
    if isds(I, obj):
        o = I.h(obj)
        if o.owner:
            I.event("mutate", o.owner)
        if isinstance(idx, K):
            import m_xr2
            m_xr2.put(I, obj, [(idx.v, v)])
            return
        raise raises(I, "dataset store")
    if isdict(I, obj):
        d = I.h(obj)
        if d.owner:
            I.event("mutate", d.owner)
        ks = I.keystr(idx)
        items = [(k, x) for k, x in d.items]
        for n, (k, x) in enumerate(items):
            if I.keystr(k) == ks:
                items[n] = (k, v)
                break
        else:
            items.append((idx, v))
        I.heap[obj.id] = HDict(items, d.owner)
        if obj.id in I.instdict:
            if isinstance(idx, K) and isinstance(idx.v, str):
                I.setattr(I.instdict[obj.id], idx.v, v)
            else:
                I.taint = I.taint or "attributes stored under an unknown name"
        return
    if islist(I, obj):
        o = I.h(obj)
        if o.owner:
            I.event("mutate", o.owner)
        p = I.sc(idx) if isinstance(idx, T) else None
        k = p.intval() if p is not None else None
        items = list(o.items)
        if k is not None and all(x[0] == "i" for x in items) and -len(items) <= k < len(items):
            items[k] = ("i", I.bindable(v))
            I.heap[obj.id] = HList(items, o.owner)
            return
        if p is not None and all(x[0] == "i" for x in items):
            for n, x in enumerate(items):
                items[n] = ("i", I.merge_val(c_eq(p, const(n)), v, x[1]))
            I.heap[obj.id] = HList(items, o.owner)
            return
        I.heap[obj.id] = HList([("i", Unk("list store"))] * len(items), o.owner)
        return
    if isinstance(obj, Ref) and isinstance(I.h(obj), HInst):
        f = I.class_attr(I.h(obj).cls, "__setitem__")
        if f is not None:
            I.call(Bound(f, obj), [idx, v], {})
            return
    I.notes.add("item store on %s" % type(obj).__name__)


def adv_store(I, obj, idx, v):
    """a[i, j] = v with index arrays: one quantified store"""
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    td = obj
    view = tops.index(I, T(td.axes, sym("@probe"), False), idx)
    # rebuild the point map by indexing the identity tensors
    pts = []
    for k, a in enumerate(td.axes):
        ident = tops.index(I, T(td.axes, a.p()), idx)
        ren = {x.v: y.p() for x, y in zip(ident.axes, view.axes)}
        pts.append(subst(ident.body, ren))
    mp = {a.v: p for a, p in zip(td.axes, pts)}
    w = T(view.axes, None, False, {}, td.buf, tuple(subst(p, mp) for p in td.bidx))
    I.store(w, v)


# --------------------------------------------------------------------- calls
BUILTINS = {"len", "range", "zip", "enumerate", "map", "filter", "min", "max", "abs", "float", "int", "bool", "str", "list", "tuple", "dict", "set", "isinstance", "issubclass", "print",
            "getattr", "hasattr", "setattr", "callable", "sorted", "reversed", "any", "all", "round", "slice", "type", "dir", "vars", "super", "sum", "complex", "pow", "iter", "next", "repr",
            "object", "property", "staticmethod", "classmethod", "id", "open", "divmod", "frozenset", "delattr", "format", "globals", "locals"}


def builtin(name):
    import builtins
    if name in BUILTINS:
        return Ext("builtins." + name)
    if name in ("NotImplemented", "Ellipsis", "__file__", "__debug__"):
        return ELL if name == "Ellipsis" else K("<%s>" % name)
    o = builtins.__dict__.get(name)
    if isinstance(o, type) and issubclass(o, BaseException):
        return Ext("builtins." + name)
    return None


def call(I, f, args, kw):
    import m_np, m_np2, m_xr, m_xr2, m_misc
    if isinstance(f, Ext):
        n = f.name
        if n.startswith("math."):
            n = "numpy." + n[5:]
        if n.startswith("numpy.core.") or n.startswith("numpy.lib."):
            n = "numpy." + n.split(".")[-1]
        if n in I.hooks:
            return I.hooks[n](I, args, kw)
        g = NP.get(n)
        if g is not None:
            unks = [a for a in list(args) + list(kw.values()) if isinstance(a, Unk)]
            if unks and ("out" in kw or n.split(".")[-1] in I.MUTATORS):
                I.taint = I.taint or "%s of unknown values" % n
            if unks and not n.startswith("builtins.") and n not in ("xarray.Dataset", "xarray.DataArray", "xarray.apply_ufunc"):
                return Unk("%s of unknown (%s)" % (n, unks[0].why))
            phis = [k for k, a in enumerate(args) if isinstance(a, Phi)]
            if phis and n not in ("builtins.isinstance", "builtins.print", "builtins.getattr", "builtins.callable", "builtins.len"):
                k = phis[0]
                ph = args[k]
                return I.split(ph.c, lambda: call(I, f, args[:k] + [ph.a] + args[k + 1:], kw), lambda: call(I, f, args[:k] + [ph.b] + args[k + 1:], kw))
            try:
                if n.startswith("numpy.") and ("out" in kw or "where" in kw):
                    return written(I, n, g, args, kw)
                return g(I, args, kw)
            except AlwaysRaises as e:
                if n.startswith(("numpy.", "scipy.", "xarray.")) and murky(I, list(args) + list(kw.values())):
                    return Unk("%s of unknown values (%s)" % (n, e.what))
                raise
        if n.startswith("object."):
            return NONE
        if n.startswith("fkernel."):
            import fk
            return fk.f2py_call(I, n[8:], args, kw)
        if n.startswith("builtins.") and n.split(".")[1][:1].isupper():
            return Ext("instance:" + n)
        I.notes.add("external %s" % n)
        if n.split(".")[-1] in I.MUTATORS or "out" in kw or n.endswith(".at"):
            I.taint = I.taint or "%s writes to its argument" % n
        return Unk("external " + n)
    if isinstance(f, Meth):
        return m_misc.method(I, f.obj, f.name, args, kw)
    if isinstance(f, FnObj):
        return m_misc.fnobj_call(I, f, args, kw)
    if isinstance(f, Opq):
        if f.hook and f.hook[0] == "call":
            return f.hook[1](I, args, kw)
        if f.hook and f.hook[0] == "child":
            m = f.path.split(".")[-1]
            r = m_misc.opq_method(I, f.hook[1], m, args, kw)
            if r is not None:
                return r
        I.event("opaque-call", (f.path, len(args)))
        return Unk("call of opaque " + f.path)
    return Unk("call")


binop = guarded(binop, lambda a: a[1:])
compare = guarded(compare, lambda a: a[1:])
getitem = guarded(getitem, lambda a: a)
