"""xarray methods."""
from values import *
import tops
from tops import pbody
import models as M
from models import NP, arg, isnone, isds, isdict, raises, mk_ds, ds_get, ds_dims
from m_xr import *

XM = {}      # DataArray methods
DM = {}      # Dataset methods


def xm(*names):
    def d(f):
        for n in names:
            XM[n] = f
        return f
    return d


def dm(*names):
    def d(f):
        for n in names:
            DM[n] = f
        return f
    return d


SKIP = ("fill_value", "drop", "missing_dims", "method", "tolerance", "axis", "transpose_coords", "create_index_for_new_dim")


def items_of(I, args, kw):
    return mapping(I, args, {k: v for k, v in kw.items() if k not in SKIP})


@xm("isel")
def x_isel(I, t, args, kw):
    return isel(I, t, [(K(k), v) for k, v in items_of(I, args, kw)])


@xm("sel")
def x_sel(I, t, args, kw):
    its = items_of(I, args, kw)
    for k, v in its:
        if k in t.coords:
            if isinstance(v, Sl) and isnone(v.lo) and isnone(v.hi):
                continue
            return Unk("label selection on coordinate %s" % k)
        if isinstance(v, Sl) and not isnone(v.hi):
            return Unk("label slice")
    return isel(I, t, [(K(k), v) for k, v in its])


@xm("shift")
def x_shift(I, t, args, kw):
    return shift(I, t, items_of(I, args, kw), kw.get("fill_value"))


@xm("rename")
def x_rename(I, t, args, kw):
    if args and isinstance(args[0], K):
        return T(t.axes, t.body, True, t.coords, t.buf, t.bidx, args[0].v)
    mp = {k: v.v for k, v in items_of(I, args, kw) if isinstance(v, K)}
    for k in mp:
        if t.ax(k) is None and k not in t.coords:
            raise raises(I, "ValueError: cannot rename %r because it is not a variable or dimension" % k)
    return relabel(I, t, mp)


@xm("swap_dims")
def x_swap(I, t, args, kw):
    return x_rename(I, t, args, kw)


@xm("expand_dims")
def x_expand(I, t, args, kw):
    dims = []
    if args and isinstance(args[0], K):
        dims = [(args[0].v, const(1))]
    elif args and not isdict(I, args[0]):
        dims = [(l, const(1)) for l in labels_of(I, args[0])]
    else:
        for k, v in mapping(I, args, {k: v for k, v in kw.items() if k not in SKIP and k != "dim"}) + (mapping(I, [kw["dim"]], {}) if "dim" in kw and isdict(I, kw["dim"]) else ([(kw["dim"].v, S(1))] if "dim" in kw else [])):
            if isinstance(v, T) and not v.axes:
                dims.append((k, I.sc(v)))
            else:
                return Unk("expand_dims with coordinates")
    axis = kw.get("axis", args[1] if len(args) > 1 else None)
    n = len(t.axes) + len(dims)
    if axis is None or isnone(axis):
        pos = list(range(len(dims)))
    elif isinstance(axis, T) and not axis.axes:
        pos = [I.sc(axis).intval()]
    else:
        pos = [I.sc(a).intval() for a in I.iterate(axis)[1]]
    if None in pos or len(pos) != len(dims):
        return Unk("expand_dims axis")
    for l, _ in dims:
        if t.ax(l) is not None:
            raise raises(I, "ValueError: dimension %s already exists" % l)
    td = I.d(t)
    res = [None] * n
    for p, (l, e) in zip(pos, dims):
        res[p % n] = Ax(e, l)
    rest = iter(td.axes)
    res = [r if r is not None else next(rest) for r in res]
    return T(res, td.body, True, td.coords)


@xm("transpose")
def x_transpose(I, t, args, kw):
    labs = [a.v for a in args if isinstance(a, K)]
    if not labs:
        return tops.transpose(I, t, list(range(len(t.axes)))[::-1])
    cur = list(t.dims())
    if Ellipsis in labs:
        rest = [l for l in cur if l not in labs]
        k = labs.index(Ellipsis)
        labs = labs[:k] + rest + labs[k + 1:]
    if sorted(map(str, labs)) != sorted(map(str, cur)):
        raise raises(I, "ValueError: %s must be a permuted list of %s" % (labs, cur))
    return tops.transpose(I, t, [cur.index(l) for l in labs])


def dim_axes(I, t, args, kw):
    d = arg(args, kw, 0, "dim")
    if d is None or isnone(d) or (isinstance(d, K) and d.v is Ellipsis):
        if "axis" in kw and not isnone(kw["axis"]):
            return tops.axis_list(I, t, kw["axis"])
        return list(range(len(t.axes)))
    labs = labels_of(I, d)
    for l in labs:
        if l not in t.dims():
            raise raises(I, "ValueError: dimension %s not found" % l)
    return [list(t.dims()).index(l) for l in labs]


@xm("sum")
def x_sum(I, t, args, kw):
    t = I.d(t)
    return tops.reduce_sum(I, T(t.axes, pbody(t.body), True, t.coords), dim_axes(I, t, args, kw))


@xm("mean")
def x_mean(I, t, args, kw):
    ax = dim_axes(I, t, args, kw)
    t = I.d(t)
    n = const(1)
    for k in ax:
        n = n * t.axes[k].ext
    r = tops.reduce_sum(I, t, ax)
    return T(r.axes, pbody(r.body) / n, True, r.coords)


for _n, _a in (("min", "amin"), ("max", "amax"), ("std", "std"), ("var", "var"), ("median", "median"), ("argmin", "argmin"), ("argmax", "argmax"), ("prod", "prod")):
    def _mk(nm):
        return lambda I, t, args, kw: tops.reduce_ap(I, nm, t, dim_axes(I, t, args, kw))
    XM[_n] = _mk(_a)


@xm("any")
def x_any(I, t, args, kw):
    return M.NP["numpy.any"](I, [M.strip(I, t)], {})


@xm("all")
def x_all(I, t, args, kw):
    return M.NP["numpy.all"](I, [M.strip(I, t)], {})


@xm("count")
def x_count(I, t, args, kw):
    ax = dim_axes(I, t, args, kw)
    t = I.d(t)
    r = tops.reduce_sum(I, T(t.axes, const(1), True, t.coords), ax)
    return r


@xm("to_numpy", "as_numpy", "__array__")
def x_np(I, t, args, kw):
    return M.strip(I, t)


@xm("load", "compute", "chunk", "persist", "head_all", "squeeze_none", "to_dataarray", "drop_attrs", "close")
def x_id(I, t, args, kw):
    return t


@xm("copy")
def x_copy(I, t, args, kw):
    deep = arg(args, kw, 0, "deep")
    if deep is not None and I.truth(deep).op == "false":
        return t
    td = I.d(t)
    b = I.mkbuf(M.strip(I, T(td.axes, td.body, True)))
    w = with_labels(I, b, list(t.dims()))
    return T(w.axes, w.body, True, t.coords, w.buf, w.bidx, t.name)


@xm("astype", "round_", "conj")
def x_astype(I, t, args, kw):
    td = I.d(t)
    r = T(td.axes, td.body, True, td.coords, name=t.name)
    if args:
        import m_np
        return m_np.narrowed(r, args[0])
    return r


@xm("dot")
def x_dot(I, t, args, kw):
    k = dict(kw)
    if len(args) > 1:
        k["dims"] = args[1]
    return np_dot(I, [t, args[0]], k)


@xm("where")
def x_where(I, t, args, kw):
    other = arg(args, kw, 1, "other")
    return np_where(I, [args[0], t, other if other is not None else S(sym("nan"))], {})


@xm("item")
def x_item(I, t, args, kw):
    td = I.d(t)
    return S(subst(pbody(td.body), {a.v: const(0) for a in td.axes}))


@xm("squeeze")
def x_squeeze(I, t, args, kw):
    d = arg(args, kw, 0, "dim")
    labs = labels_of(I, d) if d is not None and not isnone(d) else [a.label for a in t.axes if a.ext == const(1)]
    return isel(I, t, [(K(l), S(0)) for l in labs])


@xm("assign_coords")
def x_assign_coords(I, t, args, kw):
    co = dict(t.coords)
    for k, v in mapping(I, args, kw):
        co[k] = to_var(I, v, None, k)
    return T(t.axes, t.body, True, {k: c for k, c in co.items() if isinstance(c, T)}, t.buf, t.bidx, t.name)


@xm("drop_vars", "reset_coords", "reset_index", "drop_indexes")
def x_drop(I, t, args, kw):
    n = arg(args, kw, 0, "names")
    labs = labels_of(I, n) if n is not None and not isnone(n) else list(t.coords)
    return T(t.axes, t.body, True, {k: c for k, c in t.coords.items() if k not in labs}, t.buf, t.bidx, t.name)


@xm("diff")
def x_diff(I, t, args, kw):
    l = arg(args, kw, 0, "dim").v
    n = arg(args, kw, 1, "n")
    lab = kw.get("label")
    for _ in range(1 if n is None else I.sc(n).intval()):
        t = I.d(t)
        hi = isel(I, t, [(K(l), Sl(S(1), NONE, NONE))])
        lo = isel(I, t, [(K(l), Sl(NONE, S(-1), NONE))])
        co = (lo if lab is not None and lab.v == "lower" else hi).coords
        a, b = M.strip(I, hi), M.strip(I, lo)
        r = tops.ewise(I, lambda x, y: x - y, a, b)
        w = with_labels(I, r, list(t.dims()))
        t = T(w.axes, w.body, True, co)
    return t


@xm("get_axis_num")
def x_axisnum(I, t, args, kw):
    return S(list(t.dims()).index(args[0].v))


@xm("to_dataset")
def x_to_ds(I, t, args, kw):
    n = arg(args, kw, 1, "name")
    return new_ds(I, {n.v if isinstance(n, K) else t.name: t}, {}, None)


@xm("to_netcdf")
def x_netcdf(I, t, args, kw):
    I.event("io", "to_netcdf")
    return NONE


@xm("fillna")
def x_fillna(I, t, args, kw):
    td = I.d(t)
    v = I.sc(args[0])
    return T(td.axes, subst_atoms(pbody(td.body), {as_atom(sym("nan")): v}), True, td.coords)


@xm("dropna")
def x_dropna(I, t, args, kw):
    ds = new_ds(I, {"@": t}, {}, None)
    r = ds_dropna(I, ds, arg(args, kw, 0, "dim").v)
    return r if isinstance(r, Unk) else ds_get(I, r, "@")


# -------------------------------------------------------------------- dataset
def _copy_attrs(I, o):
    return I.ref(HDict(I.h(o.attrs).items)) if isinstance(o.attrs, Ref) else o.attrs


def ds_each(I, ref, f, labs=(), attrs=True):
    """apply a DataArray operation to all variables that have one of the labels"""
    o = I.h(ref)
    vs, co = {}, {}
    for k in o.vars:
        v = o.vars[k]
        if isinstance(v, T) and (not labs or any(v.ax(l) is not None for l in labs)):
            r = f(ds_get(I, ref, k))
            if isinstance(r, T):
                co.update(r.coords)
            vs[k] = bare(I, r) if isinstance(r, T) else r
        else:
            vs[k] = v
    for k, c in o.coords.items():
        if k in co:
            continue
        if isinstance(c, T) and any(c.ax(l) is not None for l in labs):
            continue
        co[k] = c
    return mk_ds(I, vs, co, _copy_attrs(I, o) if attrs else None)


@dm("shift")
def d_shift(I, ds, args, kw):
    its = items_of(I, args, kw)
    return ds_each(I, ds, lambda t: shift(I, t, its, kw.get("fill_value")), [k for k, _ in its])


@dm("isel", "sel")
def d_isel(I, ds, args, kw):
    its = items_of(I, args, kw)
    labs = [k for k, _ in its]
    for l in labs:
        if l not in ds_dims(I, ds):
            raise raises(I, "ValueError: dimension %s does not exist" % l)
    return ds_each(I, ds, lambda t: isel(I, t, [(K(k), v) for k, v in its if t.ax(k) is not None]), labs)


@dm("assign")
def d_assign(I, ds, args, kw):
    o = I.h(ds)
    new = mk_ds(I, dict(o.vars), dict(o.coords), _copy_attrs(I, o))
    its = []
    for k, v in mapping(I, args, kw):
        if isinstance(v, (Fn, Bound, Partial)):
            v = I.call(v, [new], {})
        its.append((k, v))
    put(I, new, its)
    return new


def put(I, ds, its):
    o = I.h(ds)
    vs, co = dict(o.vars), dict(o.coords)
    for k, v in its:
        t = to_var(I, v, ds, k)
        if isinstance(t, T) and t.xr:
            for l, c in t.coords.items():
                if l in co:
                    if tops.same_coord(I.d(co[l]), I.d(c)) is not True:
                        t = Unk("realignment of %s" % l)
                        break
                else:
                    co[l] = bare(I, c)
        if k in co and k not in vs:
            co[k] = bare(I, t)
        else:
            vs[k] = owned(I, bare(I, t))
    check_sizes(I, vs, co)
    I.heap[ds.id] = o.repl(vars=vs, coords=co)


@dm("update")
def d_update(I, ds, args, kw):
    o = I.h(ds)
    if o.owner:
        I.event("mutate", o.owner)
    put(I, ds, mapping(I, args, kw) if not isds(I, args[0]) else [(k, ds_get(I, args[0], k)) for k in I.h(args[0]).vars])
    return ds


@dm("assign_coords", "set_coords")
def d_assign_coords(I, ds, args, kw):
    o = I.h(ds)
    co = dict(o.coords)
    for k, v in mapping(I, args, kw):
        co[k] = bare(I, to_var(I, v, ds, k))
    return mk_ds(I, dict(o.vars), co, _copy_attrs(I, o))


@dm("assign_attrs")
def d_assign_attrs(I, ds, args, kw):
    o = I.h(ds)
    at = _copy_attrs(I, o)
    for k, v in mapping(I, args, kw):
        M.setitem(I, at, K(k), v)
    return mk_ds(I, dict(o.vars), dict(o.coords), at)


@dm("drop_vars", "drop")
def d_drop(I, ds, args, kw):
    o = I.h(ds)
    labs = labels_of(I, args[0])
    return mk_ds(I, {k: v for k, v in o.vars.items() if k not in labs}, {k: v for k, v in o.coords.items() if k not in labs}, _copy_attrs(I, o))


@dm("dropna")
def d_dropna(I, ds, args, kw):
    how = arg(args, kw, None, "how")
    if "subset" in kw and not isnone(kw["subset"]):
        return Unk("dropna subset")
    r = ds_dropna(I, ds, arg(args, kw, 0, "dim").v, how.v if isinstance(how, K) else "any")
    return r


@dm("rename", "rename_vars", "rename_dims")
def d_rename(I, ds, args, kw):
    o = I.h(ds)
    mp = {k: v.v for k, v in items_of(I, args, kw)}
    vs = {}
    for k, v in o.vars.items():
        vs[mp.get(k, k)] = relabel(I, v, mp) if isinstance(v, T) else v
    co = {}
    for k, v in o.coords.items():
        co[mp.get(k, k)] = relabel(I, v, mp) if isinstance(v, T) else v
    return mk_ds(I, vs, co, _copy_attrs(I, o))


@dm("copy")
def d_copy(I, ds, args, kw):
    o = I.h(ds)
    deep = arg(args, kw, 0, "deep")
    if deep is not None and I.truth(deep).op == "true":
        vs = {k: (bare(I, x_copy(I, T(v.axes, v.body, True, {}, v.buf, v.bidx), [], {})) if isinstance(v, T) else v) for k, v in o.vars.items()}
        return mk_ds(I, vs, dict(o.coords), _copy_attrs(I, o))
    return mk_ds(I, dict(o.vars), dict(o.coords), _copy_attrs(I, o))


@dm("to_netcdf", "to_zarr")
def d_netcdf(I, ds, args, kw):
    I.event("io", "to_netcdf")
    return NONE


@dm("load", "compute", "chunk", "persist", "close")
def d_id(I, ds, args, kw):
    return ds


@dm("transpose")
def d_tr(I, ds, args, kw):
    labs = [a.v for a in args if isinstance(a, K)]
    return ds_each(I, ds, lambda t: x_transpose(I, t, [K(l) for l in labs if l is Ellipsis or t.ax(l) is not None], {}))


@dm("keys")
def d_keys(I, ds, args, kw):
    return Tup([K(k) for k in I.h(ds).vars])


@dm("items")
def d_items(I, ds, args, kw):
    return Tup([Tup([K(k), ds_get(I, ds, k)]) for k in I.h(ds).vars])


@dm("values")
def d_values(I, ds, args, kw):
    return Tup([ds_get(I, ds, k) for k in I.h(ds).vars])


@dm("get")
def d_get(I, ds, args, kw):
    o = I.h(ds)
    if isinstance(args[0], K) and (args[0].v in o.vars or args[0].v in o.coords):
        return ds_get(I, ds, args[0].v)
    return args[1] if len(args) > 1 else NONE


@dm("expand_dims")
def d_expand(I, ds, args, kw):
    return ds_each(I, ds, lambda t: x_expand(I, t, args, kw))


@dm("pipe")
def d_pipe(I, ds, args, kw):
    return I.call(args[0], [ds] + list(args[1:]), kw)


@dm("fillna")
def d_fillna(I, ds, args, kw):
    return ds_each(I, ds, lambda t: x_fillna(I, t, args, kw))


for _n in ("sum", "mean", "min", "max"):
    def _mkd(nm):
        def f(I, ds, args, kw):
            d = arg(args, kw, 0, "dim")
            labs = [] if d is None or isnone(d) else labels_of(I, d)
            return ds_each(I, ds, lambda t: XM[nm](I, t, args, kw), labs, attrs=False)
        return f
    DM[_n] = _mkd(_n)


def ds_attr(I, obj, name):
    o = I.h(obj)
    if name == "attrs":
        return o.attrs
    if name in ("dims", "sizes"):
        return I.ref(HDict([(K(k), S(e)) for k, e in ds_dims(I, obj).items()]))
    if name in ("data_vars", "variables"):
        return I.ref(HDict([(K(k), ds_get(I, obj, k)) for k in o.vars]))
    if name == "coords":
        return I.ref(HDict([(K(k), ds_get(I, obj, k)) for k in o.coords]))
    if name in DM:
        return Meth(obj, name)
    if name in o.vars or name in o.coords:
        return ds_get(I, obj, name)
    if isinstance(o.attrs, Ref):
        for k, v in I.h(o.attrs).items:
            if isinstance(k, K) and k.v == name:
                return v
    elif isinstance(o.attrs, Opq):
        return M.getitem(I, o.attrs, K(name))
    if name in ds_dims(I, obj):
        return ds_get(I, obj, name)
    return Unk("dataset attribute %s" % name)
