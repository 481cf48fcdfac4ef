"""xarray groupby_bins and numpy histogram edges."""
from values import *
import tops
from tops import pbody
import models as M
from models import NP, arg, isnone, mk_ds
from m_np import regnp, arr
from m_xr import bare
from m_xr2 import dm, XM
from m_misc import lam_of

SRC = '''
class GroupedBins:
    def __init__(self, ds):
        self._ds = ds
    def sum(self, *a, **k):
        return SUM(self._ds, *a, **k)
    def count(self, *a, **k):
        return COUNT(self._ds, *a, **k)
    def mean(self, *a, **k):
        return self.sum(*a, **k) / self.count(*a, **k)
'''


@regnp("histogram_bin_edges")
def np_edges(I, args, kw):
    bins = arg(args, kw, 1, "bins", S(10))
    r = arg(args, kw, 2, "range")
    d = lam_of(I, arr(I, args[0]))
    if not isinstance(bins, K) and not isnone(r):
        a, b = I.iterate(r)[1]
        return NP["numpy.linspace"](I, [a, b, S(I.sc(bins) + 1)], {})
    base = (d, sym("bins:" + I.keystr(bins)))
    if not isnone(r):
        base += tuple(I.sc(x) for x in I.iterate(r)[1])
    n = ap("hist_bins", base)
    n = n + 1
    i = Ax(n)
    return T([i], ap("hist_edges", base, (i.p(),)))


def inside(x, lo, hi, first, right, low):
    """membership of the value in the bin with edges lo, hi (first: condition of being the first bin)"""
    if not right:
        return c_and(c_le(lo, x), c_lt(x, hi))
    c = c_lt(lo, x)
    if low:
        c = c_or(c, c_and(first, c_eq(lo, x)))
    return c_and(c, c_le(x, hi))


def flag(I, kw, name, default):
    v = kw.get(name)
    if v is None:
        return default
    c = I.truth(v)
    return True if c.op == "true" else False if c.op == "false" else None


def grouped(I, ds, name, edges, right, low, labels, op):
    o = I.h(ds)
    xv = I.d(o.vars[name])
    ed = I.d(I.num(edges))
    if len(ed.axes) != 1:
        return Unk("groupby_bins edges")
    e = lambda p: subst(pbody(ed.body), {ed.axes[0].v: topoly(p)})
    vs, lab = {}, name + "_bins"
    for k, v in o.vars.items():
        if not isinstance(v, T):
            return Unk("groupby_bins of unknown variable " + k)
        v = I.d(v)
        xs = {a.label: a for a in xv.axes}
        if set(xs) - {a.label for a in v.axes}:
            # the variable is repeated along the missing dimensions of the grouping variable
            return Unk("groupby_bins of variables with fewer dimensions")
        xb = subst(pbody(xv.body), {xs[a.label].v: a.p() for a in v.axes if a.label in xs})
        b = Ax(ed.axes[0].ext - 1, lab)
        c = inside(xb, e(b.p()), e(b.p() + 1), c_eq(b.p(), const(0)), right, low)
        red = [a for a in v.axes if a.label in xs]
        keep = [a for a in v.axes if a.label not in xs]

        def total(w):
            for a in reversed(red):
                w = mk_sum(a.v, const(0), a.ext, w)
            return w
        cnt = total(mk_ite(c, const(1), const(0)))
        val = cnt if op == "count" else total(mk_ite(c, pbody(v.body), const(0)))
        # a bin without samples has no group: missing value
        vs[k] = T([b] + keep, val + mk_ite(c_eq(cnt, const(0)), sym("nan"), const(0)), True)
    return mk_ds(I, vs, {}, None)


@dm("groupby_bins")
def d_groupby_bins(I, ds, args, kw):
    g, edges = arg(args, kw, 0, "group"), arg(args, kw, 1, "bins")
    right, low = flag(I, kw, "right", True), flag(I, kw, "include_lowest", False)
    labels = kw.get("labels")
    bad = set(kw) - {"group", "bins", "right", "include_lowest", "labels", "squeeze", "precision"}
    if isinstance(g, T) and g.xr:
        return Unk("groupby_bins by an array")
    if not isinstance(g, K) or g.v not in I.h(ds).vars or right is None or low is None or bad or (labels is not None and not isnone(labels)):
        return Unk("groupby_bins")
    if not isinstance(edges, T):
        e = I.num(edges)
        if not e.axes:                     # number of equal bins over the (slightly extended) range of the data
            return Unk("groupby_bins with a number of bins")
        edges = e
    mk = lambda op: Opq("groups." + op, hook=("call", lambda I, a, k: grouped(I, a[0], g.v, edges, right, low, labels, op) if len(a) == 1 and not k else Unk("grouped reduction options")))
    cls = I.spec(SRC, "GroupedBins", {"SUM": mk("sum"), "COUNT": mk("count")})
    return I.instantiate(cls, [ds], {})
