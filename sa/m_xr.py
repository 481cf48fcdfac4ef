"""xarray models: labelled tensors and datasets."""
from values import *
import tops
from tops import pbody
import models as M
from models import NP, arg, isnone, isds, isdict, raises, mk_ds, ds_get, ds_dims


def labels_of(I, v):
    """'a' | ['a','b'] | ('a',) -> list of labels"""
    if isinstance(v, K):
        return [v.v]
    it = I.iterate(v)
    if it[0] != "c":
        return None
    return [x.v if isinstance(x, K) else None for x in it[1]]


def mapping(I, args, kw):
    """positional dict and keywords -> list of (label, value)"""
    out = []
    if args and isinstance(args[0], Ref) and isdict(I, args[0]):
        out += [(k.v, v) for k, v in I.h(args[0]).items if isinstance(k, K)]
    out += [(k, v) for k, v in kw.items()]
    return out


def relabel(I, t, mp):
    axes = [Ax(a.ext, mp.get(a.label, a.label)) for a in t.axes]
    ren = {a.v: b.p() for a, b in zip(t.axes, axes)}
    co = {}
    for k, c in t.coords.items():
        k2 = mp.get(k, k)
        cd = I.d(c)
        ca = [Ax(a.ext, mp.get(a.label, a.label)) for a in cd.axes]
        co[k2] = T(ca, subst(cd.body, {a.v: b.p() for a, b in zip(cd.axes, ca)}), True)
    if t.buf is not None:
        return T(axes, None, True, co, t.buf, tuple(subst(p, ren) for p in t.bidx), t.name)
    return T(axes, subst(t.body, ren), True, co, name=t.name)


def with_labels(I, t, labs):
    if len(labs) != len(t.axes):
        raise raises(I, "ValueError: dimensions %s must have the same length as the number of data dimensions, ndim=%d" % (labs, len(t.axes)))
    axes = [Ax(a.ext, l) for a, l in zip(t.axes, labs)]
    ren = {a.v: b.p() for a, b in zip(t.axes, axes)}
    if t.buf is not None:
        return T(axes, None, True, {}, t.buf, tuple(subst(p, ren) for p in t.bidx))
    return T(axes, subst(t.body, ren), True, {})


def to_var(I, v, ds=None, name=None):
    if isinstance(v, (Unk, Opq)):
        return v if isinstance(v, Unk) else Unk("opaque variable")
    if isinstance(v, K) and isinstance(v.v, str):
        return v
    if isinstance(v, Phi):
        return Phi(v.c, to_var(I, v.a, ds, name), to_var(I, v.b, ds, name))
    if isinstance(v, Tup) and len(v.items) >= 2:
        labs = labels_of(I, v.items[0])
        data = v.items[1]
        if isinstance(data, Unk):
            return data
        t = I.num(data)
        if t.xr:
            t = M.strip(I, t)
        return with_labels(I, t, labs)
    t = I.num(v)
    if t.xr or not t.axes:
        return t
    if len(t.axes) == 1 and name is not None:
        return with_labels(I, t, [name])
    return Unk("variable without dimension names")


def collect_coords(I, vs, co):
    for v in vs.values():
        if isinstance(v, T) and v.xr:
            for k, c in v.coords.items():
                if k not in co and k not in vs:
                    co[k] = c


def check_sizes(I, vs, co):
    d = {}
    for k, v in list(vs.items()) + list(co.items()):
        if isinstance(v, T):
            for a in v.axes:
                if a.label in d and d[a.label] != a.ext:
                    diff = (d[a.label] - a.ext).const()
                    if diff is not None:
                        raise raises(I, "ValueError: conflicting sizes for dimension %r" % a.label)
                    I.event("shape", ("dataset %s" % a.label, d[a.label], a.ext))
                d.setdefault(a.label, a.ext)


def sizes(I, ts):
    """operands of an operation by labels: a dimension has one size (1 is not stretched)"""
    d = {}
    for t in ts:
        for a in t.axes:
            if a.label in d and (d[a.label] - a.ext).const() not in (None, 0):
                raise raises(I, "ValueError: conflicting sizes for dimension %r" % a.label)
            d.setdefault(a.label, a.ext)


def bare(I, t):
    return T(t.axes, t.body, True, {}, t.buf, t.bidx) if isinstance(t, T) else t


def owned(I, t):
    """variables of a data set live in memory: what ds[name] returns is a view of it"""
    if isinstance(t, T) and t.buf is None and t.axes:
        b = I.mkbuf(t)
        return T(b.axes, None, t.xr, t.coords, b.buf, b.bidx, t.name)
    return t


def new_ds(I, vs, co, attrs):
    co = dict(co)
    collect_coords(I, vs, co)
    vs2 = {}
    for k, v in vs.items():
        if isinstance(v, T) and v.xr:
            for l in v.dims():
                if l in co and l in v.coords and isinstance(co[l], T):
                    r = tops.same_coord(I.d(co[l]), I.d(v.coords[l]))
                    if r is not True:
                        v = Unk("realignment of %s" % l)
                        break
        vs2[k] = owned(I, bare(I, v))
    check_sizes(I, vs2, co)
    return mk_ds(I, vs2, {k: bare(I, c) for k, c in co.items()}, attrs)


def dict_items(I, v):
    if v is None or isnone(v):
        return []
    if isinstance(v, Ref) and isdict(I, v):
        return [(k.v, x) for k, x in I.h(v).items if isinstance(k, K)]
    if isinstance(v, Ref) and isds(I, v):
        return [(k, ds_get(I, v, k)) for k in I.h(v).vars]
    return None


def np_dataset(I, args, kw):
    dv = dict_items(I, arg(args, kw, 0, "data_vars"))
    cv = dict_items(I, arg(args, kw, 1, "coords"))
    if dv is None or cv is None:
        return Unk("dataset from unknown mapping")
    at = arg(args, kw, 2, "attrs")
    attrs = None
    if at is not None and not isnone(at):
        attrs = I.ref(HDict(I.h(at).items)) if isdict(I, at) else at
    co = {k: to_var(I, v, None, k) for k, v in cv}
    vs = {k: to_var(I, v, None, k) for k, v in dv}
    for k in list(vs):
        if isinstance(vs[k], T) and len(vs[k].axes) == 1 and vs[k].axes[0].label == k:
            co[k] = vs.pop(k)
    return new_ds(I, vs, co, attrs)


NP["xarray.Dataset"] = np_dataset


def np_dataarray(I, args, kw):
    data = arg(args, kw, 0, "data")
    if isinstance(data, Unk):
        return data
    co = arg(args, kw, 1, "coords")
    dims = arg(args, kw, 2, "dims")
    name = arg(args, kw, 3, "name")
    if isinstance(data, Phi):
        return I.merge_val(data.c, np_dataarray(I, [data.a] + args[1:], kw), np_dataarray(I, [data.b] + args[1:], kw))
    t = I.num(data)
    if dims is None or isnone(dims):
        labs = list(t.dims()) if t.xr else ["dim_%d" % k for k in range(len(t.axes))]
        if isinstance(co, Ref) and isdict(I, co) and not t.xr:
            ks = [k.v for k, _ in I.h(co).items]
            if len(ks) == len(t.axes):
                labs = ks
    else:
        labs = labels_of(I, dims)
    oldco = t.coords if t.xr else {}
    if t.xr:
        t = M.strip(I, t)
    r = with_labels(I, t, labs)
    coords = {k: c for k, c in oldco.items() if k in labs} if (co is None or isnone(co)) else {}
    for k, v in dict_items(I, co) or []:
        coords[k] = to_var(I, v, None, k)
    for k, c in coords.items():
        if isinstance(c, T) and len(c.axes) == 1:
            a = r.ax(c.axes[0].label)
            if a is None:
                raise raises(I, "ValueError: coordinate %s has dimensions not on the array" % k)
            if a.ext != c.axes[0].ext:
                dd = (a.ext - c.axes[0].ext).const()
                if dd is not None:
                    raise raises(I, "ValueError: conflicting sizes for dimension %r: length %s on the data but length %s on coordinate" % (k, a.ext, c.axes[0].ext))
                I.event("shape", ("coordinate %s" % k, a.ext, c.axes[0].ext))
    return T(r.axes, r.body, True, {k: c for k, c in coords.items() if isinstance(c, T)}, r.buf, r.bidx, name.v if isinstance(name, K) else None)


NP["xarray.DataArray"] = np_dataarray
NP["xarray.Variable"] = lambda I, args, kw: np_dataarray(I, [args[1]], {"dims": args[0]})


# ---------------------------------------------------------------- contraction
def np_dot(I, args, kw):
    dims = kw.get("dims", kw.get("dim"))
    ts = []
    for a in args:
        a = I.num(a) if not isinstance(a, Unk) else a
        if isinstance(a, Unk):
            return a
        if not a.xr:
            raise raises(I, "TypeError: only DataArray is supported by xarray.dot")
        ts.append(I.d(a))
    al, cnt = [], {}
    for t in ts:
        for l in t.dims():
            if l not in al:
                al.append(l)
            cnt[l] = cnt.get(l, 0) + 1
    if dims is None or isnone(dims):
        red = [l for l in al if cnt[l] > 1]
    elif isinstance(dims, K) and dims.v is Ellipsis:
        red = list(al)
    else:
        red = labels_of(I, dims)
        if red is None:
            return Unk("dot dims")
        bad = [l for l in red if l not in al]
        if bad:
            raise raises(I, "ValueError: dims %s not found in the operands" % bad)
    coords = {}
    for l in al:
        cs = [I.d(t.coords[l]) for t in ts if l in t.coords and t.ax(l) is not None]
        for c in cs[1:]:
            if tops.same_coord(cs[0], c) is not True:
                return Unk("label alignment in dot over %s" % l)
        if cs and l not in red:
            coords[l] = cs[0]
    sizes(I, ts)
    out = [l for l in al if l not in red]
    r = tops.contract(I, ts, [list(t.dims()) for t in ts], out, {l: l for l in al})
    return T(r.axes, r.body, True, coords)


NP["xarray.dot"] = np_dot


def np_concat(I, args, kw):
    objs = arg(args, kw, 0, "objs")
    dim = arg(args, kw, 1, "dim")
    it = I.iterate(objs)
    if it[0] != "c" or not isinstance(dim, K):
        return Unk("concat")
    lab = dim.v
    xs = it[1]
    if xs and all(isds(I, x) for x in xs):
        names = list(I.h(xs[0]).vars)
        vs = {}
        for k in names:
            vs[k] = da_concat(I, [ds_get(I, x, k) for x in xs], lab)
        return new_ds(I, vs, {}, I.h(xs[0]).attrs)
    ts = []
    for x in xs:
        if isinstance(x, Unk):
            return x
        ts.append(I.num(x))
    return da_concat(I, ts, lab)


def da_concat(I, ts, lab):
    if any(isinstance(t, Unk) for t in ts):
        return Unk("concat of unknown")
    ts = [I.d(t) for t in ts]
    if any(not t.xr for t in ts):
        raise raises(I, "TypeError: can only concatenate xarray objects")
    labs = []
    for t in ts:
        for l in t.dims():
            if l not in labs:
                labs.append(l)
    if lab not in labs:
        labs = [lab] + labs
    ref = {}
    for t in ts:
        for a in t.axes:
            if a.label != lab:
                ref.setdefault(a.label, a.ext)
    co = {}
    for t in ts:
        for k, c in t.coords.items():
            if k == lab or (isinstance(c, T) and any(a.label == lab for a in c.axes)):
                continue
            if k in co and tops.same_coord(I.d(co[k]), I.d(c)) is not True:
                return Unk("concat alignment of %s" % k)
            co.setdefault(k, c)
    out = []
    for t in ts:
        axes, mp = [], {}
        for l in labs:
            a = t.ax(l)
            if a is None:
                axes.append(Ax(1 if l == lab else ref[l], l))
            else:
                axes.append(a)
        out.append(T(axes, t.body, True))
    r = tops.concat(I, out, labs.index(lab))
    cats = [t.coords.get(lab) for t in ts]
    if all(c is not None for c in cats):
        c = tops.concat(I, [I.d(c) for c in cats], 0)
        co[lab] = T(c.axes, c.body, True)
    return T(r.axes, r.body, True, co)


NP["xarray.concat"] = np_concat


def np_where(I, args, kw):
    c, x, y = arg(args, kw, 0, "cond"), arg(args, kw, 1, "x"), arg(args, kw, 2, "y")
    if any(isinstance(v, Unk) for v in (c, x, y)):
        return Unk("where of unknown")
    for v in (c, x, y):
        if isds(I, v):
            names = [k for k in I.h(v).vars]
            g = lambda w, k: ds_get(I, w, k) if isds(I, w) else w
            vs = {k: np_where(I, [g(c, k), g(x, k), g(y, k)], {}) for k in names}
            return new_ds(I, vs, {}, None)
    f = lambda a, b, d: mk_ite(a if isinstance(a, Cond) else c_not(c_eq(a, const(0))), pbody(b), pbody(d))
    return tops.ewise(I, f, c, x, y)


NP["xarray.where"] = np_where


# ---------------------------------------------------------------- apply_ufunc
def np_apply(I, args, kw):
    f, xs = args[0], list(args[1:])
    k = dict(kw)
    icd = k.get("input_core_dims")
    ocd = k.get("output_core_dims")
    def lol(v):
        if v is None or isnone(v):
            return None
        it = I.iterate(v)
        return [labels_of(I, x) for x in it[1]] if it[0] == "c" else None
    ic = lol(icd) or [[] for _ in xs]
    oc = lol(ocd) or [[]]
    ex = k.get("exclude_dims")
    ex = labels_of(I, ex) if ex is not None and not isnone(ex) else []
    fkw = {a: b for a, b in (dict_items(I, k.get("kwargs")) or [])}
    vec = k.get("vectorize")
    vec = vec is not None and I.truth(vec) is TRUE if not isinstance(vec, bool) else vec
    for x in xs:
        if isinstance(x, Unk):
            return x
        if isds(I, x):
            names = list(I.h(x).vars)
            vs = {}
            for nme in names:
                vs[nme] = np_apply(I, [f] + [ds_get(I, y, nme) if isds(I, y) else y for y in xs], kw)
            return new_ds(I, vs, {}, None)
    core = set()
    for c in ic + oc:
        core |= set(c)
    loop, ext, coords = [], {}, {}
    ts = []
    for x, c in zip(xs, ic):
        if isinstance(x, (T, Ref, Tup, Seq, Phi)):
            t = I.num(x)
        else:
            ts.append(x)
            continue
        ts.append(t)
        if not t.xr:
            continue
        for l in c:
            if t.ax(l) is None:
                raise raises(I, "ValueError: operand to apply_ufunc has required core dimension %s missing" % l)
        for a in t.axes:
            if a.label in c:
                continue
            if a.label in core:
                raise raises(I, "ValueError: operand to apply_ufunc encountered unexpected dimension %s" % a.label)
            if a.label not in loop:
                loop.append(a.label)
                ext[a.label] = a.ext
            elif ext[a.label] != a.ext:
                ext[a.label] = tops.unify_ext(I, [ext[a.label], a.ext], "apply_ufunc")
        for kk, cc in t.coords.items():
            if kk in ex or any(l in ex for l in (I.d(cc).dims() if isinstance(cc, T) else ())):
                continue
            if kk in coords and tops.same_coord(I.d(coords[kk]), I.d(cc)) is not True:
                return Unk("apply_ufunc alignment of %s" % kk)
            coords.setdefault(kk, cc)
    if vec:
        lax = {l: Ax(ext[l], l) for l in loop}
        pas = []
        for t, c in zip(ts, ic):
            if isinstance(t, T) and t.xr:
                td = I.d(t)
                mp = {a.v: lax[a.label].p() for a in td.axes if a.label in lax}
                na = [td.ax(l) for l in c]
                fr = [Ax(a.ext) for a in na]
                mp.update({a.v: b.p() for a, b in zip(na, fr)})
                pas.append(T(fr, subst(td.body, mp)))
            else:
                pas.append(t)
        r = I.call(f, pas, fkw)
        def fin(r, c):
            if isinstance(r, Unk):
                return r
            r = I.d(I.num(r))
            if len(r.axes) != len(c):
                raise raises(I, "ValueError: wrong number of output core dimensions")
            ax = [Ax(a.ext, l) for a, l in zip(r.axes, c)]
            b = subst(pbody(r.body), {a.v: x.p() for a, x in zip(r.axes, ax)})
            return T([lax[l] for l in loop] + ax, b, True, {k: v for k, v in coords.items() if ok(v, loop, c)})
    else:
        pas = []
        for t, c in zip(ts, ic):
            if isinstance(t, T) and t.xr:
                have = [l for l in loop if t.ax(l) is not None] + list(c)
                order = [list(t.dims()).index(l) for l in have]
                tt = t if order == list(range(len(order))) else tops.transpose(I, t, order)
                tt = M.strip(I, tt)
                items, started = [], False
                for l in loop + list(c):
                    if t.ax(l) is not None:
                        items.append(Sl(NONE, NONE, NONE))
                        started = True
                    elif started:
                        items.append(NONE)
                if any(isnone(i) for i in items):
                    tt = tops.index(I, tt, Tup(items))
                pas.append(tt)
            elif isinstance(t, T):
                pas.append(t)
            else:
                pas.append(t)
        r = I.call(f, pas, fkw)
        def fin(r, c):
            if isinstance(r, Unk):
                return r
            if isinstance(r, Phi):
                return I.merge_val(r.c, fin(r.a, c), fin(r.b, c))
            t = I.num(r)
            if len(t.axes) != len(loop) + len(c):
                raise raises(I, "ValueError: applied function returned data with unexpected number of dimensions. Received %d dimension(s) but expected %d dimensions with names %s" % (len(t.axes), len(loop) + len(c), tuple(loop + c)))
            if t.xr:
                t = M.strip(I, t)
            for a, l in zip(t.axes, loop):
                if a.ext != ext[l]:
                    dd = (a.ext - ext[l]).const()
                    if dd is not None:
                        raise raises(I, "ValueError: size of dimension %s on inputs was unexpectedly changed by applied function from %s to %s" % (l, ext[l], a.ext))
                    I.event("shape", ("apply_ufunc %s" % l, ext[l], a.ext))
            w = with_labels(I, t, loop + list(c))
            return T(w.axes, w.body, True, {k: v for k, v in coords.items() if ok(v, loop, c)}, w.buf, w.bidx)
    if len(oc) == 1:
        return fin(r, oc[0])
    if isinstance(r, Tup):
        return Tup([fin(x, c) for x, c in zip(r.items, oc)])
    return Unk("apply_ufunc outputs")


def ok(c, loop, core):
    return isinstance(c, T) and all(a.label in loop or a.label in core for a in c.axes)


NP["xarray.apply_ufunc"] = np_apply


# ------------------------------------------------------------------ selection
def isel(I, t, items):
    its = {}
    for k, v in items:
        l = k.v if isinstance(k, K) else k
        if t.ax(l) is None:
            raise raises(I, "ValueError: dimension %s does not exist" % l)
        its[l] = v
    idx = [its.get(a.label, Sl(NONE, NONE, NONE)) for a in t.axes]
    nadv = [v for v in idx if isinstance(v, T) and v.axes]
    if len(nadv) > 1:
        return Unk("orthogonal indexing")
    return tops.index(I, t, Tup(idx))


def shift(I, t, items, fill=None):
    td = I.d(t)
    body = pbody(td.body)
    for l, n in items:
        a = td.ax(l)
        if a is None:
            raise raises(I, "ValueError: dimension %s does not exist" % l)
        s = I.sc(n)
        fv = sym("nan") if fill is None else I.sc(fill)
        j = a.p() - s
        ins = c_and(c_le(const(0), j), c_lt(j, a.ext))
        body = mk_ite(ins, subst(body, {a.v: j}), fv)
    return T(td.axes, body, True, td.coords, name=t.name)


def nan_cond(x):
    """condition under which the polynomial is not a number (None: undecided)"""
    if isinstance(x, P):
        out = []
        for m in x.t:
            for a, _ in m:
                c = nan_cond(a)
                if c is None:
                    return None
                out.append(c)
        return c_or(*out) if out else FALSE
    if isinstance(x, Atom):
        if x.kind == "sym":
            return TRUE if x.name == "nan" else FALSE
        if x.kind == "ite":
            c, a, b = x.args
            na, nb = nan_cond(a), nan_cond(b)
            if na is None or nb is None:
                return None
            if na == nb:
                return na
            return c_or(c_and(c, na), c_and(c_not(c), nb))
        has = any(y.kind == "sym" and y.name == "nan" for y in walk(x))
        if not has:
            return FALSE
        if x.kind == "pw":
            ps = [y for y in x.args if isinstance(y, P)]
            cs = [nan_cond(p) for p in ps]
            return None if any(c is None for c in cs) else c_or(*cs)
        return None
    return None


def interval(cond, v, ext):
    """values of index v in [0, ext) with cond true, as (lo, hi) or None"""
    lits = cond.args if cond.op == "and" else ([] if cond.op == "true" else [cond])
    lo, hi = const(0), ext
    for l in lits:
        neg = l.op == "not"
        c = l.args[0] if neg else l
        if c.op == "eq" and neg:
            # i != boundary
            d = c.args[0]
            al = coef(d, v)
            if al is None:
                return None
            pt = -(d - iv(v) * al) / al
            if pt == lo:
                lo = lo + 1
            elif pt == hi - 1:
                hi = hi - 1
            else:
                return None
            continue
        if c.op != "lt":
            return None
        d = c.args[0]
        al = coef(d, v)
        if al is None or abs(al) != 1:
            return None
        rest = d - iv(v) * al
        if not neg:
            if al == 1:
                nh, nl = -rest, None
            else:
                nl, nh = rest + 1, None
        else:
            if al == 1:
                nl, nh = -rest, None
            else:
                nh, nl = rest + 1, None
        if nl is not None:
            if prove_le(lo, nl):
                lo = nl
            elif not prove_le(nl, lo):
                return None
        if nh is not None:
            if prove_le(nh, hi):
                hi = nh
            elif not prove_le(hi, nh):
                return None
    return lo, hi


def coef(p, v):
    """rational coefficient of index v in p when p is affine in v, else None"""
    r = 0
    target = as_atom(iv(v))
    for m, c in p.t.items():
        hit = [e for a, e in m if v in a.fv]
        if not hit:
            continue
        if len(m) == 1 and m[0][0] == target and m[0][1] == 1:
            r = c
        else:
            return None
    return r or None


def ds_dropna(I, ref, lab, how="any"):
    o = I.h(ref)
    va = Ax(ds_dims(I, ref)[lab], lab)
    nan = []
    for k, v in o.vars.items():
        if not isinstance(v, T):
            return Unk("dropna of unknown variable (%s)" % (v.why if isinstance(v, Unk) else k))
        vd = I.d(v)
        a = vd.ax(lab)
        if a is None:
            continue
        b = subst(pbody(vd.body), {a.v: va.p()})
        c = nan_cond(b)
        if c is None:
            return Unk("dropna: missing-value region undecided")
        nan.append(c)
    if how != "any":
        return Unk("dropna how")
    valid = c_not(c_or(*nan)) if nan else TRUE
    if valid.fv - {va.v}:
        return Unk("dropna: region depends on other dimensions")
    r = interval(valid, va.v, va.ext)
    if r is None:
        return Unk("dropna: region is not an interval (%s)" % valid)
    lo, hi = r
    return slice_ds(I, ref, lab, lo, hi, valid, va)


def slice_ds(I, ref, lab, lo, hi, valid=TRUE, va=None):
    o = I.h(ref)

    def cut(v):
        if not isinstance(v, T):
            return v
        vd = I.d(v)
        a = vd.ax(lab)
        if a is None:
            return v
        n = Ax(hi - lo, lab)
        axes = [n if x is a else x for x in vd.axes]
        b = pbody(vd.body)
        if valid.op != "true":
            b = restrict(b, [(subst(valid, {va.v: a.p()}), True)])
        b = subst(b, {a.v: n.p() + lo})
        return T(axes, b, True)
    return mk_ds(I, {k: cut(v) for k, v in o.vars.items()}, {k: cut(v) for k, v in o.coords.items()}, o.attrs)
