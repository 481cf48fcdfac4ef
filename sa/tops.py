"""Tensor operations in index notation (numpy / labelled broadcasting, indexing, ...)."""
from values import *


def pbody(b):
    return mk_ite(b, const(1), const(0)) if isinstance(b, Cond) else b


def same_coord(a, b):
    """two 1-d coordinate tensors with bodies"""
    if len(a.axes) != 1 or len(b.axes) != 1:
        return a.body == b.body if len(a.axes) == len(b.axes) else None
    i = a.axes[0]
    bb = subst(b.body, {b.axes[0].v: i.p()})
    if a.body == bb:
        return True
    if a.body.unk or bb.unk:
        return None
    return False


def unify_ext(I, exts, what="broadcast"):
    """common extent of several (non unit) extents"""
    e0 = exts[0]
    for e in exts[1:]:
        if e == e0:
            continue
        d = (e - e0)
        if d.const() is not None:
            from interp import AlwaysRaises
            raise AlwaysRaises("ValueError: operands could not be broadcast together (%s, %s)" % (e0, e), I.where)
        I.event("shape", (what, e0, e))
    return e0


class XrMisalign(Exception):
    pass


def broadcast(I, ts):
    """-> axes, [bodies], xr, coords"""
    ts = [I.d(t) for t in ts]
    if any(t.xr for t in ts):
        return xbroadcast(I, ts)
    n = max(len(t.axes) for t in ts)
    axes = []
    maps = [dict() for _ in ts]
    for k in range(n):           # position from the right
        cols = []
        for j, t in enumerate(ts):
            p = len(t.axes) - 1 - k
            if p >= 0:
                cols.append((j, t.axes[p]))
        big = [(j, a) for j, a in cols if a.ext != const(1)]
        ext = unify_ext(I, [a.ext for _, a in big]) if big else const(1)
        na = Ax(ext)
        for j, a in cols:
            maps[j][a.v] = na.p() if a.ext != const(1) or ext == const(1) else const(0)
        axes.append(na)
    axes.reverse()
    return axes, [subst(t.body, m) for t, m in zip(ts, maps)], False, {}


def xbroadcast(I, ts):
    labels = []
    for t in ts:
        if t.xr:
            for a in t.axes:
                if a.label not in labels:
                    labels.append(a.label)
    # raw arrays take the trailing labels of the first labelled operand
    xt = []
    first = next(t for t in ts if t.xr)
    for t in ts:
        if not t.xr and t.axes:
            dims = first.dims()
            if len(t.axes) > len(dims):
                raise XrMisalign("array with more dimensions than the labelled operand")
            t = T([Ax(a.ext, l, a.v) for a, l in zip(t.axes, dims[len(dims) - len(t.axes):])], t.body, True)
        xt.append(t)
    axes = []
    maps = [dict() for _ in xt]
    coords = {}
    for l in labels:
        cols = [(j, t.ax(l)) for j, t in enumerate(xt) if t.ax(l) is not None]
        # raw operands may broadcast unit axes
        big = [(j, a) for j, a in cols if a.ext != const(1)]
        ext = unify_ext(I, [a.ext for _, a in big]) if big else const(1)
        na = Ax(ext, l)
        for j, a in cols:
            maps[j][a.v] = na.p() if a.ext != const(1) or ext == const(1) else const(0)
        axes.append(na)
        cs = [t.coords[l] for t in xt if l in t.coords and t.ax(l) is not None]
        if cs:
            c0 = I.d(cs[0])
            for c in cs[1:]:
                r = same_coord(c0, I.d(c))
                if r is not True:
                    raise XrMisalign("coordinates of %s differ" % l)
            coords[l] = c0
    for t in xt:
        for k, c in t.coords.items():
            if k not in coords and k not in labels:
                coords[k] = c
    return axes, [subst(t.body, m) for t, m in zip(xt, maps)], True, coords


def loose(t):
    """a scalar made from an unknown value may have had any rank"""
    if isinstance(t, T) and not t.axes and (t.body is None or t.body.unk):
        from interp import Unsupported
        raise Unsupported("rank of an unknown value")


def ewise(I, f, *vals):
    ts = [I.num(v) for v in vals]
    try:
        axes, bodies, xr, coords = broadcast(I, ts)
    except XrMisalign as e:
        return Unk("label alignment: %s" % e)
    return T(axes, f(*bodies), xr, coords)


def unary(I, t, f):
    t = I.d(t)
    return T(t.axes, f(pbody(t.body)), t.xr, t.coords)


def align_to(I, view, val):
    """value broadcast onto the axes of view"""
    b = broadcast_body(I, I.d(val), view.axes, lab=view.xr and val.xr)
    if b is None:
        b = unk("store shape")
    return view.axes, b


def broadcast_body(I, t, axes, lab=False):
    t = I.d(t)
    if lab and t.xr:
        mp = {}
        for a in t.axes:
            x = next((y for y in axes if y.label == a.label), None)
            if x is None:
                return None
            mp[a.v] = x.p()
        return subst(t.body, mp)
    n = len(axes)
    ta = list(t.axes)
    mp = {}
    while len(ta) > n and ta[0].ext == const(1):
        mp[ta[0].v] = const(0)
        ta = ta[1:]
    if len(ta) > n:
        return None
    for a, x in zip(ta, axes[n - len(ta):]):
        if a.ext == const(1) and x.ext != const(1):
            mp[a.v] = const(0)
        else:
            if a.ext != x.ext:
                d = a.ext - x.ext
                if d.const() is not None:
                    from interp import AlwaysRaises
                    raise AlwaysRaises("ValueError: could not broadcast input array (%s into %s)" % (a.ext, x.ext), I.where)
                I.event("shape", ("store", x.ext, a.ext))
            mp[a.v] = x.p()
    return subst(t.body, mp)


# ------------------------------------------------------------------ indexing
def norm_index(I, p, ext):
    """index possibly negative"""
    c = p.const()
    if c is not None:
        r = p + ext if c < 0 else p
    else:
        s = prove_neg(p)
        if s is True:
            r = p + ext
        elif s is False or _nonneg_like(p):
            r = p
        else:
            r = p            # indices of unknown sign are taken as written
            I.event("index-sign", p)
    if I.index_hook:
        I.index_hook(I, r, ext)
    ec = ext.const()
    rc = r.const()
    if ec is not None and rc is not None and not (0 <= rc < ec):
        from interp import AlwaysRaises
        raise AlwaysRaises("IndexError: %s outside [0,%s)" % (rc, ec), I.where)
    return r


def _nonneg_like(p):
    return False


def clip(I, p, ext):
    """slice bound of a positive-step slice, clipped into [0, ext]"""
    c = p.const()
    ec = ext.const()
    if c is not None:
        if c < 0:
            if ec is not None:
                return const(max(0, ec + c))
            return p + ext
        if ec is not None:
            return const(min(c, ec))
        return p                      # symbolic extents are taken large against constants
    s = prove_neg(p)
    if s is True:
        q = p + ext
        if prove_neg(q) is False:
            return q
        return mk_ap("max", (q, const(0)))
    if s is None:
        I.event("index-sign", p)
    if prove_le(p, ext):
        return p
    return mk_ap("min", (p, ext))


def mkslice(I, sl, ext):
    """-> (length P, start P, step int) or None"""
    n_ = getattr(sl, "n", None)
    if n_ is not None:
        return n_, I.sc(sl.lo), 1
    def g(v):
        if isinstance(v, K) and v.v is None:
            return None
        return I.sc(v)
    lo, hi, st = g(sl.lo), g(sl.hi), g(sl.step)
    if st is None:
        step = 1
    else:
        step = st.intval()
        if step is None or step == 0:
            return None
    if step > 0:
        l = clip(I, lo, ext) if lo is not None else const(0)
        h = clip(I, hi, ext) if hi is not None else ext
        d = h - l
    else:
        def cl(p, dflt):
            if p is None:
                return dflt
            c = p.const()
            if c is not None:
                if c < 0:
                    return p + ext
                return p
            s = prove_neg(p)
            if s is True:
                return p + ext
            if s is None:
                I.event("index-sign", p)
            return p
        l = cl(lo, ext - 1)
        if lo is not None and lo.const() is None and not prove_le(l, ext - 1):
            l = mk_ap("min", (l, ext - 1))
        h = cl(hi, const(-1))
        d = l - h
    k = abs(step)
    if k == 1:
        n = d
    else:
        n = mk_ap("floordiv", (d + (k - 1), const(k)))
    nc = n.const()
    if nc is not None:
        n = const(max(0, nc))
    elif prove_neg(n) is not False and not _structured_nonneg(n):
        n2 = mk_ap("max", (n, const(0)))
        n = n2
    return n, l, step


def _structured_nonneg(n):
    """extents minus a small constant: symbolic extents are taken large against constants"""
    rest = P({m: c for m, c in n.t.items() if m})
    c = n.t.get((), Fraction(0))
    if c >= 0:
        return False
    return prove_neg(rest) is False and all(cc > 0 for cc in rest.t.values()) and bool(rest.t)


def index(I, t, idx):
    """t[idx]; returns T (view when t is a view and indexing is basic)"""
    items = list(idx.items) if isinstance(idx, Tup) else [idx]
    nd = len(t.axes)
    # boolean full mask / ellipsis expansion
    out_items = []
    used = 0
    for it in items:
        if isinstance(it, K) and it.v is Ellipsis:
            continue
        if isinstance(it, K) and it.v is None:
            continue
        if isinstance(it, T) and isinstance(I.d(it).body, Cond):
            used += max(1, len(it.axes))
        else:
            used += 1
    seen = False
    for it in items:
        if isinstance(it, K) and it.v is Ellipsis and not seen:
            out_items += [Sl(NONE, NONE, NONE)] * (nd - used)
            seen = True
        else:
            out_items.append(it)
    if not seen:
        out_items += [Sl(NONE, NONE, NONE)] * (nd - used)
    if used > nd:
        loose(t)
        from interp import AlwaysRaises
        raise AlwaysRaises("IndexError: too many indices for array", I.where)
    body_view = t.buf is not None
    axes = []
    mp = {}
    k = 0
    adv = []       # (position in axes, source axis, index tensor)
    ren = {}
    for it in out_items:
        if isinstance(it, K) and it.v is None:
            axes.append(Ax(1))
            continue
        a = t.axes[k]
        if isinstance(it, Sl):
            if all(isinstance(x, K) and x.v is None for x in (it.lo, it.hi, it.step)):
                na = Ax(a.ext, a.label)
                mp[a.v] = na.p()
                ren[a.label] = (na, na.p())
                axes.append(na)
            else:
                r = mkslice(I, it, a.ext)
                if r is None:
                    return Unk("slice with symbolic step")
                n, l, s = r
                na = Ax(n, a.label)
                mp[a.v] = l + na.p() * s
                ren[a.label] = (na, l + na.p() * s)
                axes.append(na)
            k += 1
            continue
        if isinstance(it, (Ref, Tup, Seq)):
            it = I.num(it)
        if isinstance(it, K) and isinstance(it.v, str):
            return Unk("string index of array")
        it = I.num(it)
        itd = I.d(it)
        if isinstance(itd.body, Cond) and itd.axes:
            return Unk("boolean mask selection")
        if not itd.axes:
            p = pbody(itd.body)
            mp[a.v] = norm_index(I, p, a.ext)
            k += 1
            continue
        adv.append((len(axes), a, itd))
        axes.append(None)
        k += 1
    if adv:
        # advanced indexing: broadcast the index tensors
        bax, bodies, _, _ = broadcast(I, [x[2] for x in adv])
        for (pos, a, _), b in zip(adv, bodies):
            b = pbody(b)
            c = b.const()
            if c is not None:
                mp[a.v] = norm_index(I, b, a.ext)
            elif prove_neg(b) is True:
                mp[a.v] = b + a.ext
            else:
                if I.index_hook:
                    I.index_hook(I, b, a.ext)
                mp[a.v] = b
        poss = [x[0] for x in adv]
        contiguous = poss == list(range(poss[0], poss[0] + len(poss)))
        lab = adv[0][1].label if len(adv) == 1 and len(bax) == 1 else None
        if lab:
            bax[0].label = lab
        rest = [x for x in axes if x is not None]
        at = poss[0] if contiguous else 0
        rest[at:at] = bax
        td = I.d(t)
        return T(rest, subst(td.body, mp), t.xr, {})
    coords = {}
    if t.xr:
        for l, c in t.coords.items():
            if l in ren:
                cd = I.d(c)
                na, p = ren[l]
                cb = Ax(na.ext, l)
                coords[l] = T([cb], subst(subst(cd.body, {cd.axes[0].v: p}), {na.v: cb.p()}), True)
            elif t.ax(l) is None:
                coords[l] = c
            else:
                cd = I.d(c)
                coords[l] = T([], subst(cd.body, {cd.axes[0].v: mp[t.ax(l).v]}), True)
    if body_view:
        return T(axes, None, t.xr, coords, t.buf, tuple(subst(p, mp) for p in t.bidx), t.name)
    return T(axes, subst(t.body, mp), t.xr, coords, name=t.name)


# ------------------------------------------------------------------ reshape
def reshape(I, t, shape, order="C"):
    """shape: list of P, one of which may be const(-1)"""
    if order == "F":
        r = reshape(I, transpose(I, t, list(range(len(t.axes)))[::-1]), list(shape)[::-1])
        if not isinstance(r, T):
            return r
        return transpose(I, r, list(range(len(r.axes)))[::-1])
    td = t if t.buf is not None else I.d(t)
    total = const(1)
    for a in td.axes:
        total = total * a.ext
    known = const(1)
    neg = None
    for k, s in enumerate(shape):
        if s == const(-1):
            neg = k
        else:
            known = known * s
    shape = list(shape)
    if neg is not None:
        q = total / known
        if any(e < 0 for m in q.t for _, e in m) or any(c.denominator != 1 for c in q.t.values()):
            # divisibility is not syntactic
            if total.const() is not None and known.const() is not None:
                from interp import AlwaysRaises
                raise AlwaysRaises("ValueError: cannot reshape %s into %s" % (total, known), I.where)
            q = mk_ap("floordiv", (total, known))
        shape[neg] = q
    else:
        d = total - known
        if d.const() is not None and not d.iszero():
            from interp import AlwaysRaises
            raise AlwaysRaises("ValueError: cannot reshape size %s into %s" % (total, known), I.where)
        if not d.iszero():
            I.event("shape", ("reshape", total, known))
    new = [Ax(s) for s in shape]
    mp = {}
    old = [a for a in td.axes]
    for a in old:
        if a.ext == const(1):
            mp[a.v] = const(0)
    o = [a for a in old if a.ext != const(1)]
    n = [a for a in new if a.ext != const(1)]
    i = j = 0
    while i < len(o) or j < len(n):
        go, gn = [], []
        po = pn = const(1)
        # grow groups until the products agree
        found = False
        ii, jj = i, j
        best = None
        for x in range(i, len(o) + 1):
            p1 = const(1)
            for a in o[i:x]:
                p1 = p1 * a.ext
            for y in range(j, len(n) + 1):
                if x == i and y == j:
                    continue
                p2 = const(1)
                for a in n[j:y]:
                    p2 = p2 * a.ext
                if p1 == p2 and x > i and y > j:
                    if best is None or (x - i) + (y - j) < best[0]:
                        best = ((x - i) + (y - j), x, y)
                    break
        if best is None:
            go, gn = o[i:], n[j:]
            i, j = len(o), len(n)
        else:
            go, gn = o[i:best[1]], n[j:best[2]]
            i, j = best[1], best[2]
        if len(go) == 1 and len(gn) == 1:
            mp[go[0].v] = gn[0].p()
            continue
        lin = const(0)
        for a in gn:
            lin = lin * a.ext + a.p()
        split(go, lin, mp)
    bidx = None
    if td.buf is not None:
        if all(_simple(v) for v in mp.values()):
            return T(new, None, False, {}, td.buf, tuple(subst(p, mp) for p in td.bidx))
        td = I.d(td)
    return T(new, subst(td.body, mp), False, {})


def _simple(p):
    return not any(a.kind == "ap" for a in walk(p))


def split(axes, lin, mp):
    """linear index -> indices of axes (row major)"""
    rest = lin
    for k, a in enumerate(axes):
        stride = const(1)
        for b in axes[k + 1:]:
            stride = stride * b.ext
        if stride == const(1):
            mp[a.v] = rest
        else:
            q, r = divmod_p(rest, stride)
            mp[a.v] = q
            rest = r


def divmod_p(p, s):
    """exact splitting p = q*s + r when the terms allow it"""
    # terms divisible by s
    q, r = const(0), const(0)
    if len(s.t) == 1:
        (ms, cs), = s.t.items()
        sm = dict(ms)
        for m, c in p.t.items():
            d = dict(m)
            if all(d.get(a, 0) >= e for a, e in sm.items()) and (c / cs).denominator == 1:
                q = q + P({m: c}) / s
            else:
                r = r + P({m: c})
    else:
        r = p
    if prove_neg(r) is False and (prove_neg(r - s) is True or _lt_prod(r, s)):
        return q, r
    return q + mk_ap("floordiv", (r, s)), mk_ap("mod", (r, s))


def _lt_prod(r, s):
    """r < s where r = sum of mixed radix terms: a*S2 + b with a<A, b<S2, A*S2 == s"""
    # try bounding each index variable by ext-1 symbolically
    ivs = [v for v in r.fv]
    q = r
    for _ in range(6):
        ids = sorted(q.fv)
        if not ids:
            break
        v = ids[-1]
        b = Bounds.iv.get(v)
        if b is None or b[1] is None:
            return False
        # coefficient must be nonnegative monomials
        for m, c in q.t.items():
            if any(v in a.fv for a, _ in m):
                if c < 0 or sum(1 for a, e in m if a.kind == "iv" and a.name == v) != 1:
                    return False
        q = subst(q, {v: b[1] - 1})
    d = q - s
    return prove_neg(d) is True


def transpose(I, t, perm):
    t0 = t if t.buf is not None else I.d(t)
    axes = [t0.axes[k] for k in perm]
    if t0.buf is not None:
        ren = {}
        na = []
        for a in axes:
            b = Ax(a.ext, a.label)
            ren[a.v] = b.p()
            na.append(b)
        return T(na, None, t0.xr, t0.coords, t0.buf, tuple(subst(p, ren) for p in t0.bidx), t0.name)
    return T(axes, t0.body, t0.xr, t0.coords, name=t0.name)


def concat(I, ts, axis, label=None):
    """concatenate tensors (already same rank) along axis"""
    ts = [I.d(t) for t in ts]
    n = len(ts[0].axes)
    if any(len(t.axes) != n for t in ts):
        from interp import AlwaysRaises
        raise AlwaysRaises("ValueError: all the input arrays must have same number of dimensions", I.where)
    ts = [T(t.axes, pbody(t.body), t.xr, t.coords) for t in ts]
    if axis < 0:
        axis += n
    axes = []
    for k in range(n):
        if k == axis:
            tot = const(0)
            for t in ts:
                tot = tot + t.axes[k].ext
            axes.append(Ax(tot, ts[0].axes[k].label))
        else:
            axes.append(Ax(unify_ext(I, [t.axes[k].ext for t in ts], "concatenate"), ts[0].axes[k].label))
    pieces = []
    for t in ts:
        mp = {t.axes[k].v: axes[k].p() for k in range(n) if k != axis}
        v = t.axes[axis].v
        pieces.append((t.axes[axis].ext, mk_lam([v], [t.axes[axis].ext], subst(t.body, mp))))
    body = mk_cat(axes[axis].p(), tuple(pieces))
    return T(axes, body, ts[0].xr, {l: c for l, c in ts[0].coords.items() if l != axes[axis].label})


def einsum(I, sub, ts):
    ts = [I.d(t) for t in ts]
    sub = sub.replace(" ", "")
    if "->" in sub:
        ins, out = sub.split("->")
    else:
        ins, out = sub, None
    ins = ins.split(",")
    if len(ins) != len(ts):
        from interp import AlwaysRaises
        raise AlwaysRaises("ValueError: einsum operand count", I.where)
    # ellipsis -> numbered letters
    nell = 0
    for s, t in zip(ins, ts):
        if "..." in s:
            nell = max(nell, len(t.axes) - (len(s) - 3))
    def expand(s, n):
        letters = [chr(0x3b1 + k) for k in range(nell)]
        return s.replace("...", "".join(letters[nell - n:]))
    ins = [expand(s, len(t.axes) - (len(s) - 3)) if "..." in s else s for s, t in zip(ins, ts)]
    if out is None:
        cnt = {}
        for s in ins:
            for ch in s:
                cnt[ch] = cnt.get(ch, 0) + 1
        out = "".join(sorted(ch for ch in cnt if ord(ch) >= 0x3b1)) + "".join(sorted(ch for ch in cnt if cnt[ch] == 1 and ord(ch) < 0x3b1))
    else:
        out = expand(out, nell) if "..." in out else out
    return contract(I, ts, [list(s) for s in ins], list(out))


def contract(I, ts, ins, out, labels=None):
    ext = {}
    for s, t in zip(ins, ts):
        if len(s) != len(t.axes):
            from interp import AlwaysRaises
            raise AlwaysRaises("ValueError: operand has %d dimensions, subscripts %s" % (len(t.axes), "".join(map(str, s))), I.where)
        for ch, a in zip(s, t.axes):
            if ch in ext and ext[ch] != a.ext:
                if ext[ch] == const(1):
                    ext[ch] = a.ext
                elif a.ext != const(1):
                    unify_ext(I, [ext[ch], a.ext], "contract")
            elif ch not in ext:
                ext[ch] = a.ext
    axs = {ch: Ax(e, (labels or {}).get(ch)) for ch, e in ext.items()}
    body = const(1)
    for s, t in zip(ins, ts):
        mp = {}
        for ch, a in zip(s, t.axes):
            mp[a.v] = axs[ch].p() if not (a.ext == const(1) and ext[ch] != const(1)) else const(0)
        body = body * subst(pbody(t.body), mp)
    for ch in ext:
        if ch not in out:
            body = mk_sum(axs[ch].v, const(0), ext[ch], body)
    return T([axs[ch] for ch in out], body)


def matmul(I, a, b):
    a, b = I.d(a), I.d(b)
    na, nb = len(a.axes), len(b.axes)
    if na == 0 or nb == 0:
        return Unk("matmul with scalar")
    la = [("A", k) for k in range(na)]
    lb = [("B", k) for k in range(nb)]
    if nb == 1:
        lb[0] = la[-1]
        return contract(I, [a, b], [la, lb], la[:-1])
    if na == 1:
        lb[-2] = la[0]
        return contract(I, [a, b], [la, lb], lb[:-2] + [lb[-1]])
    lb[-2] = la[-1]
    # batch axes
    ba, bb = la[:-2], lb[:-2]
    n = max(len(ba), len(bb))
    batch = []
    for k in range(n):
        pa = len(ba) - n + k
        pb = len(bb) - n + k
        ch = ("C", k)
        if pa >= 0:
            la[pa] = ch
        if pb >= 0:
            lb[pb] = ch
        batch.append(ch)
    return contract(I, [a, b], [la, lb], batch + [la[-2], lb[-1]])


def reduce_sum(I, t, axes_idx, keepdims=False):
    t = I.d(t)
    body = pbody(t.body)
    out = []
    for k, a in enumerate(t.axes):
        if k in axes_idx:
            body = mk_sum(a.v, const(0), a.ext, body)
            if keepdims:
                out.append(Ax(1, a.label))
        else:
            out.append(a)
    gone = {t.axes[k].label for k in axes_idx}
    return T(out, body, t.xr, {l: c for l, c in t.coords.items() if l not in gone})


def reduce_ap(I, name, t, axes_idx, keepdims=False):
    """uninterpreted reduction (amin, amax, ...): function of the reduced slice"""
    t = I.d(t)
    body = pbody(t.body)
    red = [t.axes[k] for k in axes_idx]
    out = []
    for k, a in enumerate(t.axes):
        if k in axes_idx:
            if keepdims:
                out.append(Ax(1, a.label))
        else:
            out.append(a)
    gone = {a.label for a in red}
    r = None
    if not red:
        return T(out, body, t.xr, t.coords)
    if name in ("amin", "amax") and len(red) >= 1:
        # constant factors / offsets that do not depend on the reduced axes
        r = extremum(name, red, body)
    else:
        r = red_ap(name, red, body)
    return T(out, r, t.xr, {l: c for l, c in t.coords.items() if l not in gone})


def extremum(name, red, body):
    """minimum / maximum over the axes: concrete axes and joined pieces spelled out, one reduction per remaining piece"""
    op = "min" if name == "amin" else "max"
    for k, a in enumerate(red):
        n = a.ext.intval()
        rest = red[:k] + red[k + 1:]
        if n is not None and 1 <= n <= 6:
            return mk_ap(op, tuple(_ext(name, rest, subst(body, {a.v: const(i)})) for i in range(n)))
        if not any(a.v in at.fv for mo in body.t for at, _ in mo) and prove_le(const(1), a.ext):
            return _ext(name, rest, body)
    at = as_atom(body)
    if at is not None and at.kind == "cat":
        for k, a in enumerate(red):
            if at.args[0] == a.p() and not any(a.v in l.fv for _, l in at.args[1]) and all(prove_le(const(1), e) for e, _ in at.args[1]):
                parts = []
                for e, l in at.args[1]:
                    x = Ax(e)
                    parts.append(extremum(name, red[:k] + [x] + red[k + 1:], open_lam(l, [x.p()])))
                return mk_ap(op, tuple(parts))
    off = P({m: c for m, c in body.t.items() if not any(a.v in at.fv for at, _ in m for a in red)})
    return off + red_ap(name, red, body - off)


def _ext(name, red, body):
    return extremum(name, red, body) if red else body


def red_ap(name, red, body):
    """canonical order of the reduced axes"""
    import itertools
    best = None
    for perm in itertools.permutations(red):
        lam = mk_lam([a.v for a in perm], [a.ext for a in perm], body)
        if best is None or lam.s < best.s:
            best = lam
    return ap(name, (best,))


def axis_list(I, t, axis):
    """axis argument -> list of positions (None = all)"""
    n = len(t.axes)
    if axis is None or (isinstance(axis, K) and axis.v is None):
        return list(range(n))
    if isinstance(axis, Tup):
        return [axis_list(I, t, x)[0] for x in axis.items]
    if isinstance(axis, Ref):
        it = I.iterate(axis)
        return [axis_list(I, t, x)[0] for x in it[1]]
    if isinstance(axis, K) and isinstance(axis.v, str):
        for k, a in enumerate(t.axes):
            if a.label == axis.v:
                return [k]
        from interp import AlwaysRaises
        raise AlwaysRaises("ValueError: no dimension %s" % axis.v, I.where)
    k = I.sc(axis).intval()
    if k is None:
        return None
    if not -n <= k < n:
        loose(t)
        from interp import AlwaysRaises
        raise AlwaysRaises("AxisError: axis %d of %d dimensions" % (k, n), I.where)
    return [k % n]
