"""helpers for the Fortran routines: calling a unit on symbolic arrays, reading recursively defined results"""
from lib import *
import fk
import fortran
from alg import c_le, c_lt, c_eq, c_and


class Routine:
    def __init__(self, c, name, env, facts=(), zero=True, **arrays):
        """env: scalar arguments by (lower case) name; arrays: overriding input values"""
        self.c, self.name = c, name
        u = fk.unit(c.I, name)
        if u is None:
            raise Missing("fkernel.%s" % name)
        self.un, self.fn = u
        c.I.fkfacts = list(facts)
        self.facts = list(facts)
        full = {k: S(topoly(v)) for k, v in env.items()}
        self.args, self.arr, self.out = [], {}, {}
        for a in self.un.args:
            v = self.un.vars.get(a)
            if v is None:
                raise Stop("argument %s of %s" % (a, name))
            if v.dims is None:
                if a not in full:
                    raise Stop("scalar argument %s of %s" % (a, name))
                self.args.append(full[a])
                continue
            exts = [fk.ev(c.I, self.un, full, ub) - fk.ev(c.I, self.un, full, lb) + 1 for lb, ub in v.dims]
            if v.intent == "out":
                if zero:
                    t = c.I.mkbuf(T([Ax(e) for e in exts], const(0)))
                else:
                    t = fk.p_falloc(c.I, [S(e) for e in exts], {})
                self.out[a] = t
            else:
                t = arrays.get(a) or c.arr(a, *exts)
                self.arr[a] = t
            self.args.append(t)
        self.ret = c.I.call(self.fn, self.args, {})
        if isinstance(self.ret, Unk):
            raise Stop("%s: %s" % (name, self.ret.why))

    def value(self, idx, out=None, prev="A!", strict=False):
        """element of the output at symbolic index: other elements of the same array appear as el(prev, ...);
        strict: only those provably written earlier (the plain form is enough when it equals a causal formula, because
        the canonical form of a sum may add and subtract terms beyond its range)"""
        c = self.c
        t = self.out[out or list(self.out)[0]]
        hb = c.I.heap[t.buf]
        idx = tuple(topoly(i) for i in idx)
        alg.INPUTS.add(prev)
        return read(c, hb, idx, len(hb.stores), prev, self.facts, strict)


def read(c, hb, idx, k, prev, facts, strict=True):
    """contents after the first k stores"""
    I = c.I
    val = hb.init if hb.init is None else subst(hb.init, dict(zip(hb.ivs, idx)))
    if val is None:
        val = ap("@uninit", (), idx)
    chain = []
    for st in reversed(hb.stores[:k]):
        r = match(I, st, idx, facts)
        if r == "no":
            continue
        if r == "maybe":
            return unk("undecided store at line %s" % (st.where[1],))
        cond, v = r
        chain.append((cond, v))
        if cond.op == "true":
            val = None
            break
    res = val
    for cond, v in reversed(chain):
        v = resolve(c, hb, v, idx, prev, facts + ([(cond, True)] if cond.op != "true" else []), strict)
        res = v if cond.op == "true" else mk_ite(cond, v, res)
    return res


def match(I, st, idx, facts):
    """'no' / 'maybe' / (condition, value) of the store at idx"""
    sol = {}
    qids = dict(st.qs)
    conds = []
    pend = list(zip(st.points, idx))
    progress = True
    while pend and progress:
        progress, rest = False, []
        for pt, ix in pend:
            d = subst(pt, sol) if sol else pt
            un = [q for q in qids if q not in sol and q in d.fv]
            if not un:
                progress = True
                conds.append(c_eq(d, ix))
                continue
            if len(un) == 1:
                lin = I._lin(d, un[0])
                if lin is not None and lin[0] in (1, -1):
                    sol[un[0]] = (ix - lin[1]) * const(1 / lin[0])
                    progress = True
                    continue
            rest.append((pt, ix))
        pend = rest
    if pend:
        return "maybe"
    for q, e in st.qs:
        if q not in sol:
            return "maybe"
        conds += [c_le(const(0), sol[q]), c_lt(sol[q], subst(e, sol))]
    conds.append(subst(st.guard, sol))
    keep = []
    for cd in conds:
        r = fk.prove(I, cd, facts)
        if r is False:
            return "no"
        if r is not True:
            keep.append(cd)
    return (c_and(*keep) if keep else TRUE, subst(st.value, sol))


def resolve(c, hb, v, idx, prev, facts, strict=True):
    """replace reads of the array being built: an element of an earlier iteration is the final one"""
    def pred(a):
        return a.kind == "ap" and a.name == "@self" and hb.selfid in a.args[0][0].fv

    def one(a):
        pts = a.args[1]
        if len(a.args[0]) > 1 and a.args[0][1] != const(0):
            return unk("partially updated element")
        if not strict:
            return el(prev, *pts)
        return classify(c, hb, pts, idx, prev, facts)
    for _ in range(6):
        if not any(pred(a) for a in walk(v) if isinstance(a, Atom)):
            return v
        v = alg.map_atoms(v, pred, one)
    return v


def classify(c, hb, pts, idx, prev, facts):
    # the recursion index is the axis on which the element differs from the one being written
    best = None
    same = True
    for p, i in zip(pts, idx):
        d = i - p
        if d.iszero():
            continue
        same = False
        if d.const() is not None and best is None and not any(x.kind == "iv" for x in walk(p) if isinstance(x, Atom)):
            pass
        best = d if (best is None or best.const() is not None) else best
    init = hb.init if hb.init is None else subst(hb.init, dict(zip(hb.ivs, pts)))
    if init is None:
        init = ap("@uninit", (), tuple(pts))
    if same:
        return init
    # time axis: the one carrying the loop variable
    t = time_axis(hb)
    if t is None:
        return el(prev, *pts)
    d = idx[t] - pts[t]
    if d.iszero():
        return unk("element of the same step")
    bnd = alg.Bounds.iv
    f = list(facts)
    if fk.prove(c.I, c_lt(const(0), d), f) is True:
        return el(prev, *pts)
    if fk.prove(c.I, c_le(d, const(0)), f) is True:
        return init
    return unk("element that may not be computed yet")


def time_axis(hb):
    for st in hb.stores:
        for q, e in st.qs:
            if e.const() is None:
                for k, p in enumerate(st.points):
                    if q in p.fv:
                        return k
    return None


def sum_(lo, hi, body):
    """sum_{j=lo}^{hi-1} body(j)"""
    lo, hi = topoly(lo), topoly(hi)
    j = fresh_iv()
    Bounds.iv[j] = (const(0), hi - lo)
    return mk_sum(j, const(0), hi - lo, body(iv(j) + lo))


def times(n, *arrays):
    pass


def inv_ref(c, d, body):
    """d x d inverse of a reference matrix: list of lists"""
    a, b = Ax(d), Ax(d)
    v = const(0)
    for i in range(d):
        for j in range(d):
            v = mk_ite(c_and(c_eq(a.p(), const(i)), c_eq(b.p(), const(j))), body(i, j), v)
    t = c.T(c.I.call(Ext("numpy.linalg.inv"), [T([a, b], v)], {}))
    return [[c.at(t, i, j) for j in range(d)] for i in range(d)]


def mm(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), const(0)) for j in range(len(B[0]))] for i in range(len(A))]
