"""Canonical value domain of the analyser.

Everything the analyser knows about a value is an element of this domain: a
polynomial (P) with rational coefficients over interned atoms.  Tensors are in
*index notation*: a tensor is a P whose free index variables are its axes, a
contraction is a `sum` atom binding an index variable, an array that is filled
by loops is an `arr` atom listing its (quantified, pointwise) stores.  Binders
use height based naming, so alpha-equivalent values have the same string.

Nothing in here executes the analysed program: it is a term algebra with a
normaliser (`P`, `mk_*`), substitution, restriction under an assumed condition
and a three-valued comparison (`compare`).
"""
import math
from fractions import Fraction
import itertools

ZERO = Fraction(0)
ONE = Fraction(1)


class Bounds:
    """Facts  lo <= v < hi  attached to index variables (filled by loops)."""
    iv = {}
    pos = set()          # names of symbols known to be >= 1
    nonneg = set()


# ----------------------------------------------------------------------------
# nodes
# ----------------------------------------------------------------------------
class Node:
    __slots__ = ()


class Atom(Node):
    __slots__ = ("kind", "name", "args", "s", "fv", "bvs", "h", "unk", "_hash")
    _tab = {}

    def __new__(cls, kind, name="", args=()):
        s = _atom_str(kind, name, args)
        a = cls._tab.get(s)
        if a is not None:
            return a
        a = object.__new__(cls)
        a.kind, a.name, a.args, a.s = kind, name, args, s
        fv, bvs, h, unk = frozenset(), frozenset(), 0, (kind == "unk")
        if kind == "iv":
            fv = frozenset([name])
        elif kind == "bv":
            bvs = frozenset([name])
        for x in _flat(args):
            fv |= x.fv
            bvs |= x.bvs
            h = max(h, x.h)
            unk = unk or x.unk
        a.fv, a.bvs, a.h, a.unk = fv, bvs, h, unk
        a._hash = hash(s)
        cls._tab[s] = a
        return a

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.s


def _flat(args):
    for x in args:
        if isinstance(x, tuple):
            yield from _flat(x)
        elif isinstance(x, Node):
            yield x


def _astr(x):
    if isinstance(x, tuple):
        return "(" + ",".join(_astr(y) for y in x) + ")"
    if isinstance(x, Node):
        return x.s
    return repr(x)


def _atom_str(kind, name, args):
    if kind == "sym":
        return name
    if kind == "iv":
        return "%%%d" % name
    if kind == "bv":
        return "b%d" % name
    if kind == "ap":
        fa, idx = args
        s = name
        if fa:
            s += "(" + ",".join(_astr(x) for x in fa) + ")"
        if idx:
            s += "[" + ",".join(_astr(x) for x in idx) + "]"
        return s
    if kind == "pw":
        return "<" + args[0].s + ">"
    return kind + (":" + str(name) if name != "" else "") + "{" + ";".join(_astr(x) for x in args) + "}"


class P(Node):
    __slots__ = ("t", "_s", "_fv", "_bvs", "_h", "_unk", "_hash")

    def __init__(self, t):
        self.t = t
        self._s = None
        self._fv = None
        self._bvs = None
        self._h = None
        self._unk = None
        self._hash = None

    # -- cached attributes
    @property
    def s(self):
        if self._s is None:
            if not self.t:
                self._s = "0"
            else:
                parts = []
                for m, c in self.t.items():
                    ms = "*".join(a.s if e == 1 else "%s^%s" % (a.s, e) for a, e in m)
                    parts.append((ms, c))
                parts.sort()
                out = []
                for ms, c in parts:
                    if not ms:
                        out.append(str(c))
                    elif c == 1:
                        out.append(ms)
                    elif c == -1:
                        out.append("-" + ms)
                    else:
                        out.append(str(c) + "*" + ms)
                self._s = out[0] if len(out) == 1 else "(" + " + ".join(out) + ")"
        return self._s

    @property
    def fv(self):
        if self._fv is None:
            r = frozenset()
            for m in self.t:
                for a, _ in m:
                    r |= a.fv
            self._fv = r
        return self._fv

    @property
    def bvs(self):
        if self._bvs is None:
            r = frozenset()
            for m in self.t:
                for a, _ in m:
                    r |= a.bvs
            self._bvs = r
        return self._bvs

    @property
    def h(self):
        if self._h is None:
            self._h = max([a.h for m in self.t for a, _ in m] or [0])
        return self._h

    @property
    def unk(self):
        if self._unk is None:
            self._unk = any(a.unk for m in self.t for a, _ in m)
        return self._unk

    def __eq__(self, o):
        return isinstance(o, P) and (self is o or self.s == o.s)

    def __hash__(self):
        if self._hash is None:
            self._hash = hash(self.s)
        return self._hash

    def __repr__(self):
        return self.s

    # -- constants
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        if not self.t:
            return ZERO
        if self.is_const():
            return self.t[()]
        return None

    def is_int(self):
        c = self.const()
        return c is not None and c.denominator == 1

    def intval(self):
        c = self.const()
        return int(c) if c is not None and c.denominator == 1 else None

    def iszero(self):
        return not self.t

    # -- arithmetic
    def __add__(self, o):
        o = topoly(o)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, ZERO) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return P(r)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        if not self.t or not o.t:
            return P({})
        r = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                for m, c in _mono_mul(m1, m2):
                    v = r.get(m, ZERO) + c * c1 * c2
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return P(r)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = topoly(o)
        if o.iszero():
            return unk("division by zero")
        q = _try_exact(self, o)
        if q is not None:
            return q
        return self * o.inv()

    def __rtruediv__(self, o):
        return topoly(o) / self

    def inv(self):
        if len(self.t) == 1:
            (m, c), = self.t.items()
            rt = [(a, e) for a, e in m if a.kind == "sym" and a.name.startswith("rt") and a.name[2:].isdigit()]
            if rt:
                r = P({tuple((a, -e) for a, e in m if (a, e) not in rt): ONE / c})
                for a, e in rt:
                    r = r * _prime_pow(int(a.name[2:]), -e)
                return r
            return P({tuple((a, -e) for a, e in m): ONE / c})
        content, base = split_content(self)
        return content.inv() * P({((Atom("pw", "", (base,)), Fraction(-1)),): ONE})

    def pow(self, n):
        """integer or rational constant power"""
        n = Fraction(n)
        if n == 0:
            return const(1)
        if n == 1:
            return self
        if n.denominator == 1:
            if n < 0:
                return self.inv().pow(-n)
            if len(self.t) <= 1:
                (m, c), = self.t.items() if self.t else (((), ZERO),)
                if n > 64:
                    return P({tuple((a, e * n) for a, e in m): c ** int(n)}) if all(a.kind != "pw" for a, _ in m) else unk("large power")
            if len(self.t) <= 1 or (n <= 40 and math.comb(len(self.t) + int(n) - 1, int(n)) <= 6000):
                r = const(1)
                for _ in range(int(n)):
                    r = r * self
                return r
            return unk("large power")
        # fractional power
        if self.iszero():
            return self
        if len(self.t) == 1:
            (m, c), = self.t.items()
            out = P({tuple(sorted(((a, e * n) for a, e in m), key=lambda x: x[0].s)): ONE})
            return out * _num_pow(c, n)
        content, base = split_content(self)
        return content.pow(n) * P({((Atom("pw", "", (base,)), n),): ONE})


def _num_pow(c, n):
    if c == 1:
        return const(1)
    if c < 0:
        return P({((Atom("sym", "neg1"), n),): ONE}) * _num_pow(-c, n)
    r = const(1)
    for num, sg in ((c.numerator, 1), (c.denominator, -1)):
        d = 2
        while d * d <= num and d < 2000:
            k = 0
            while num % d == 0:
                num //= d
                k += 1
            if k:
                r = r * _prime_pow(d, n * k * sg)
            d += 1
        if num > 1:
            r = r * _prime_pow(num, n * sg)
    return r


def _prime_pow(p, e):
    w = e.numerator // e.denominator
    f = e - w
    r = P({(): Fraction(p) ** w})
    if f:
        r = r * P({((Atom("sym", "rt%d" % p), f),): ONE})
    return r


def _mono_mul(m1, m2):
    """product of two monomials -> list of (monomial, coeff)"""
    if not m1:
        return [(m2, ONE)]
    if not m2:
        return [(m1, ONE)]
    d = dict(m1)
    coef = ONE
    extra = None
    for a, e in m2:
        if a in d:
            v = d[a] + e
            if v:
                d[a] = v
            else:
                del d[a]
        else:
            d[a] = e
    for a in list(d):
        if a.kind == "sym" and a.name.startswith("rt") and a.name[2:].isdigit():
            e = d[a]
            w = e.numerator // e.denominator
            if w:
                coef *= Fraction(int(a.name[2:])) ** w
                d[a] = e - w
                if not d[a]:
                    del d[a]
        elif a.kind == "sym" and a.name == "I" and abs(d[a]) >= 2:
            e = int(d[a]) % 4
            if e >= 2:
                coef = -coef
            e %= 2
            if e:
                d[a] = Fraction(1)
            else:
                del d[a]
        elif a.kind == "delta" and d[a] > 1:
            d[a] = ONE
        elif a.kind == "pw" and d[a].denominator == 1 and d[a] > 0:
            extra = (extra or const(1)) * _ppow(a.args[0], int(d[a]))
            del d[a]
    m = tuple(sorted(d.items(), key=lambda x: x[0].s))
    if extra is None:
        return [(m, coef)]
    res = P({m: coef}) * extra
    return list(res.t.items())


def _ppow(p, n):
    r = const(1)
    for _ in range(n):
        r = r * p
    return r


def split_content(p):
    """p = content (single monomial) * base, base normalised"""
    ms = list(p.t.items())
    common = dict(ms[0][0])
    for m, _ in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d:
                common[a] = min(common[a], d[a])
            else:
                e = common[a]
                if e < 0:
                    pass
                else:
                    del common[a]
        for a, e in m:
            if a not in common and e < 0:
                common[a] = e
    for a in list(common):
        # an atom with negative min exponent that is absent elsewhere counts as 0
        lo = min(dict(m).get(a, ZERO) for m, _ in ms)
        if lo == 0:
            del common[a]
        else:
            common[a] = lo
    cm = tuple(sorted(((a, e) for a, e in common.items() if e), key=lambda x: x[0].s))
    inv = P({tuple((a, -e) for a, e in cm): ONE})
    q = P({m: c for m, c in p.t.items()}) * inv
    lead = min(((P({m: ONE}).s), c) for m, c in q.t.items())[1]
    q = P({m: c / lead for m, c in q.t.items()})
    return P({cm: lead}), q


def _try_exact(a, b):
    """a / b when b is multi-term and a is a monomial multiple of b"""
    if len(b.t) < 2 or len(a.t) < 2 or len(a.t) != len(b.t):
        return None
    ca, qa = split_content(a)
    cb, qb = split_content(b)
    if qa == qb:
        return ca * cb.inv()
    return None


def const(v):
    v = Fraction(v)
    return P({(): v}) if v else P({})


def topoly(v):
    if isinstance(v, P):
        return v
    if isinstance(v, Atom):
        return P({((v, ONE),): ONE})
    if isinstance(v, bool):
        return const(int(v))
    if isinstance(v, (int, Fraction)):
        return const(v)
    if isinstance(v, float):
        return const(Fraction(repr(v)) if v == v and abs(v) < 1e300 else 0)
    raise TypeError(v)


def sym(name):
    return topoly(Atom("sym", name))


_ctr = itertools.count()


def fresh_iv():
    return next(_ctr)


def iv(i):
    return topoly(Atom("iv", i))


_uctr = itertools.count()


def unk(reason):
    return topoly(Atom("unk", "%s#%d" % (reason, next(_uctr))))


def ap(name, args=(), idx=()):
    return topoly(Atom("ap", name, (tuple(args), tuple(idx))))


def el(base, *idx):
    return ap(base, (), tuple(topoly(i) for i in idx))


def as_atom(p):
    """the single atom of p, or None"""
    if isinstance(p, Atom):
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


# ----------------------------------------------------------------------------
# binders
# ----------------------------------------------------------------------------
class Lam(Node):
    """lambda b_h..b_{h+n-1} in [0,ext): body ; body a P (or tuple of Nodes)"""
    __slots__ = ("hs", "exts", "body", "s", "fv", "bvs", "h", "unk")

    def __init__(self, hs, exts, body):
        self.hs, self.exts, self.body = hs, exts, body
        self.s = "\\" + ",".join("b%d<%s" % (h, e.s) for h, e in zip(hs, exts)) + "." + _astr(body)
        fv, bvs, h, u = frozenset(), frozenset(), 0, False
        for x in itertools.chain(_flat((body,)), exts):
            fv |= x.fv
            bvs |= x.bvs
            h = max(h, x.h)
            u = u or x.unk
        self.fv = fv
        self.bvs = bvs - set(hs)
        self.h = max([h] + list(hs))
        self.unk = u

    def __eq__(self, o):
        return isinstance(o, Lam) and self.s == o.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s


ZERO_P0 = P({})


def mk_lam(ivs, exts, body):
    """close body over index variables ivs (ids); exts may mention earlier ivs"""
    h = 0
    for x in itertools.chain(_flat((body,)), exts):
        h = max(h, x.h)
    # inner binder heights occupy 1..h ; ours come above
    hs = tuple(range(h + 1, h + 1 + len(ivs)))
    mp = {v: topoly(Atom("bv", hh)) for v, hh in zip(ivs, hs)}
    return Lam(hs, tuple(subst(e, mp) for e in exts), subst(body, mp))


def open_lam(lam, vals):
    mp = {hh: v for hh, v in zip(lam.hs, vals)}
    return subst_bv(lam.body, mp)


def open_fresh(lam):
    ids = [fresh_iv() for _ in lam.hs]
    mp = {hh: iv(i) for hh, i in zip(lam.hs, ids)}
    return ids, [subst_bv(e, mp) for e in lam.exts], subst_bv(lam.body, mp)


def _map_node(x, needs, f_atom, memo=None):
    """rebuild x applying f_atom on leaf atoms; needs(node) says whether to go in"""
    if memo is None:
        memo = {}
    if isinstance(x, tuple):
        return tuple(_map_node(y, needs, f_atom, memo) for y in x)
    if not isinstance(x, Node) or not needs(x):
        return x
    if isinstance(x, P):
        acc = {}

        def put(m, c):
            c = acc.get(m, ZERO) + c
            if c:
                acc[m] = c
            else:
                acc.pop(m, None)
        for m, c in x.t.items():
            keep, todo = [], []
            for ae in m:
                (todo if needs(ae[0]) else keep).append(ae)
            if not todo:
                put(m, c)
                continue
            term = P({tuple(keep): c})
            for a, e in todo:
                v = memo.get(a)
                if v is None:
                    v = memo[a] = topoly(_map_node(a, needs, f_atom, memo))
                term = term * v.pow(e)
            for m2, c2 in term.t.items():
                put(m2, c2)
        return P(acc)
    if isinstance(x, Lam):
        ids, exts, body = open_fresh(x)
        for i, e in zip(ids, exts):
            Bounds.iv[i] = (ZERO_P0, e)
        exts = [_map_node(e, needs, f_atom, memo) for e in exts]
        body = _map_node(body, needs, f_atom, memo)
        for i in ids:
            del Bounds.iv[i]
        return mk_lam(ids, exts, body)
    if isinstance(x, Cond):
        return cond_map(x, lambda y: _map_node(y, needs, f_atom, memo))
    if isinstance(x, Atom):
        r = f_atom(x)
        if r is not None:
            return r
        args = tuple(_map_node(y, needs, f_atom, memo) for y in x.args)
        return rebuild(x.kind, x.name, args)
    raise TypeError(x)


def rebuild(kind, name, args):
    if kind == "ap":
        return mk_ap(name, args[0], args[1])
    if kind == "sum":
        lam = args[0]
        ids, exts, body = open_fresh(lam)
        r = body
        for i, e in reversed(list(zip(ids, exts))):
            r = mk_sum(i, const(0), e, r)
        return r
    if kind == "ite":
        return mk_ite(*args)
    if kind == "cat":
        return mk_cat(args[0], args[1])
    if kind == "pw":
        b = args[0]
        if len(b.t) == 1 or b.is_const():
            return b
        c, q = split_content(b)
        if c == const(1):
            return topoly(Atom("pw", "", (q,)))
        return c * topoly(Atom("pw", "", (q,)))
    if kind == "delta":
        return mk_delta(args[0])
    if kind in ("arr",):
        return mk_arrel(args[0], args[1])
    return topoly(Atom(kind, name, args))


def subst(x, mp):
    if not mp:
        return x
    keys = frozenset(mp)

    def needs(n):
        return bool(n.fv & keys)

    def f(a):
        if a.kind == "iv" and a.name in mp:
            return mp[a.name]
        return None
    return _map_node(x, needs, f)


def subst_bv(x, mp):
    keys = frozenset(mp)

    def needs(n):
        return bool(n.bvs & keys)

    def f(a):
        if a.kind == "bv" and a.name in mp:
            return mp[a.name]
        return None
    return _map_node(x, needs, f)


def subst_atoms(x, mp):
    """replace atoms (by identity) anywhere; mp: Atom -> P"""
    names = {a.s for a in mp}
    cache = {}

    def contains(n):
        k = id(n)
        if k in cache:
            return cache[k][1]
        r = False
        if isinstance(n, Atom):
            r = n in mp or any(contains(y) for y in _flat(n.args))
        elif isinstance(n, P):
            r = any(contains(a) for m in n.t for a, _ in m)
        elif isinstance(n, Lam):
            r = any(contains(y) for y in _flat((n.body,))) or any(contains(e) for e in n.exts)
        elif isinstance(n, Cond):
            r = any(contains(y) for y in cond_children(n))
        cache[k] = (n, r)
        return r

    def f(a):
        return mp.get(a)
    return _map_node(x, contains, f)


def map_atoms(x, pred, fn):
    """replace atoms for which pred(atom) by fn(atom) (outermost first)"""
    cache = {}

    def contains(n):
        k = id(n)
        if k in cache:
            return cache[k][1]
        r = False
        if isinstance(n, Atom):
            r = bool(pred(n)) or any(contains(y) for y in _flat(n.args))
        elif isinstance(n, P):
            r = any(contains(a) for m in n.t for a, _ in m)
        elif isinstance(n, Lam):
            r = any(contains(y) for y in _flat((n.body,))) or any(contains(e) for e in n.exts)
        elif isinstance(n, Cond):
            r = any(contains(y) for y in cond_children(n))
        cache[k] = (n, r)
        return r

    def f(a):
        if pred(a):
            return fn(a)
        return None
    return _map_node(x, contains, f)


def walk(x, seen=None):
    """all atoms in x"""
    if seen is None:
        seen = set()
    if isinstance(x, tuple):
        for y in x:
            yield from walk(y, seen)
    elif isinstance(x, Atom):
        if x in seen:
            return
        seen.add(x)
        yield x
        yield from walk(x.args, seen)
    elif isinstance(x, P):
        for m in x.t:
            for a, _ in m:
                yield from walk(a, seen)
    elif isinstance(x, Lam):
        yield from walk(x.body, seen)
        for e in x.exts:
            yield from walk(e, seen)
    elif isinstance(x, Cond):
        for y in cond_children(x):
            yield from walk(y, seen)


# ----------------------------------------------------------------------------
# conditions
# ----------------------------------------------------------------------------
class Cond(Node):
    __slots__ = ("op", "args", "s", "fv", "bvs", "h", "unk")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.s = op + "(" + ",".join(_astr(a) for a in args) + ")"
        fv, bvs, h, u = frozenset(), frozenset(), 0, op == "unk"
        for x in _flat(args):
            fv |= x.fv
            bvs |= x.bvs
            h = max(h, x.h)
            u = u or x.unk
        self.fv, self.bvs, self.h, self.unk = fv, bvs, h, u

    def __eq__(self, o):
        return isinstance(o, Cond) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s


TRUE = Cond("true", ())
FALSE = Cond("false", ())


def c_not(c):
    if c is TRUE or c.op == "true":
        return FALSE
    if c.op == "false":
        return TRUE
    if c.op == "not":
        return c.args[0]
    if c.op == "and":
        return c_or(*[c_not(x) for x in c.args])
    if c.op == "or":
        return c_and(*[c_not(x) for x in c.args])
    return Cond("not", (c,))


def _cflat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            out.extend(c.args)
        else:
            out.append(c)
    return out


def c_and(*cs):
    d = {}
    for c in _cflat("and", cs):
        if c.op == "true":
            continue
        if c.op == "false":
            return FALSE
        if c_not(c).s in d:
            return FALSE
        d[c.s] = c
    if not d:
        return TRUE
    if len(d) == 1:
        return list(d.values())[0]
    return Cond("and", tuple(d[k] for k in sorted(d)))


def c_or(*cs):
    d = {}
    for c in _cflat("or", cs):
        if c.op == "false":
            continue
        if c.op == "true":
            return TRUE
        if c_not(c).s in d:
            return TRUE
        d[c.s] = c
    if not d:
        return FALSE
    if len(d) == 1:
        return list(d.values())[0]
    return Cond("or", tuple(d[k] for k in sorted(d)))


def c_lt(a, b):
    """a < b"""
    d = topoly(a) - topoly(b)
    c = d.const()
    if c is not None:
        return TRUE if c < 0 else FALSE
    pr = prove_neg(d)
    if pr is not None:
        return TRUE if pr else FALSE
    # positive content does not matter
    d = _strip_pos(d)
    lead = sorted((P({m: ONE}).s, abs(cc)) for m, cc in d.t.items() if m)[0][1]
    d = P({m: cc / lead for m, cc in d.t.items()})
    return Cond("lt", (d,))


def _strip_pos(d):
    """divide by the common power of symbols known to be positive"""
    ms = [dict(m) for m in d.t]
    fac = {}
    for a in {a for m in ms for a in m if a.kind == "sym" and (a.name in Bounds.pos or a.name == "pi" or (a.name.startswith("rt") and a.name[2:].isdigit()))}:
        lo = min(m.get(a, ZERO) for m in ms)
        hi = max(m.get(a, ZERO) for m in ms)
        if lo != 0 and (lo < 0 or hi >= lo > 0):
            fac[a] = lo
    if not fac:
        return d
    f = P({tuple(sorted(((a, -e) for a, e in fac.items()), key=lambda x: x[0].s)): ONE})
    r = d * f
    return r if r.t else d


def c_le(a, b):
    return c_not(c_lt(b, a))


def c_eq(a, b):
    d = topoly(a) - topoly(b)
    c = d.const()
    if c is not None:
        return TRUE if c == 0 else FALSE
    if prove_neg(d) is True or prove_neg(-d) is True:
        return FALSE
    lead = sorted((P({m: ONE}).s, cc) for m, cc in d.t.items() if m)[0][1]
    d = P({m: cc / lead for m, cc in d.t.items()})
    return Cond("eq", (d,))


def c_atom(op, *args):
    return Cond(op, args)


def cond_children(c):
    return [x for x in _flat(c.args)]


def cond_map(c, f):
    if c.op in ("true", "false"):
        return c
    if c.op == "not":
        return c_not(f(c.args[0]))
    if c.op == "and":
        return c_and(*[f(x) for x in c.args])
    if c.op == "or":
        return c_or(*[f(x) for x in c.args])
    if c.op == "lt":
        return c_lt(f(c.args[0]), const(0))
    if c.op == "eq":
        return c_eq(f(c.args[0]), const(0))
    return Cond(c.op, tuple(f(x) if isinstance(x, (Node, tuple)) else x for x in c.args))


# ----------------------------------------------------------------------------
# linear reasoning on sizes and index variables
# ----------------------------------------------------------------------------
def _bounds_of(a):
    """(lo, hi) inclusive bounds as P or None, for an atom"""
    if a.kind == "iv":
        b = Bounds.iv.get(a.name)
        if b:
            lo, hi = b
            return lo, (hi - 1 if hi is not None else None)
        return None, None
    if a.kind == "sym":
        if a.name in Bounds.pos:
            return const(1), None
        if a.name in Bounds.nonneg:
            return const(0), None
    if a.kind == "ap":
        if a.name == "min" and not a.args[1]:
            return None, None
        if a.name == "floordiv" and len(a.args[0]) == 2:
            n, d = a.args[0]
            dv = d.const() if isinstance(d, P) else None
            if dv is not None and dv > 0 and isinstance(n, P):
                # (n-dv+1)/dv <= floor(n/dv) <= n/dv
                return (n - (dv - 1)) * const(1 / dv), n * const(1 / dv)
        if a.name == "mod" and len(a.args[0]) == 2 and isinstance(a.args[0][1], P):
            return const(0), a.args[0][1] - 1
        if a.name == "hist_bins":
            return const(1), None
        if a.name in ("abs", "len", "count"):
            return const(0), None
        if a.name == "pow" and len(a.args[0]) == 2 and isinstance(a.args[0][0], P) and a.args[0][0].const() == 2:
            # 2**ceil(log(L)/log(2)) >= L
            c = as_atom(a.args[0][1])
            if c is not None and c.kind == "ap" and c.name == "ceil":
                l = as_atom(c.args[0][0] * mk_ap("log", (const(2),)))
                if l is not None and l.kind == "ap" and l.name == "log" and isinstance(l.args[0][0], P):
                    return l.args[0][0], l.args[0][0] * 2 - 1
            if c is not None and c.kind == "ap" and c.name == "floor":
                l = as_atom(c.args[0][0] * mk_ap("log", (const(2),)))
                if l is not None and l.kind == "ap" and l.name == "log" and isinstance(l.args[0][0], P):
                    return (l.args[0][0] + 1) * const(Fraction(1, 2)), l.args[0][0]
            return const(0), None
        if a.name == "nextfast":
            return a.args[0][0], None
        if a.name == "floor" and isinstance(a.args[0][0], P):
            return None, a.args[0][0]
        if a.name == "ceil" and isinstance(a.args[0][0], P):
            return a.args[0][0], None
    return None, None


def upper(p, depth=0):
    """constant upper bound of p (Fraction) or None (unknown)"""
    return _ub(p, depth)


def _ub(p, depth=0):
    c = p.const()
    if c is not None:
        return c
    if depth > 12:
        return None
    # case expansions for min / max atoms
    for m, cc in p.t.items():
        for a, e in m:
            if a.kind == "ap" and a.name in ("min", "max") and not a.args[1] and all(isinstance(z, P) for z in a.args[0]):
                if len(m) == 1 and e == 1:
                    cands = []
                    for z in a.args[0]:
                        q = p - P({m: cc}) + z * const(cc)
                        cands.append(_ub(q, depth + 1))
                    # p with min: coefficient>0 -> any candidate is an upper bound; coefficient<0 -> p = max over candidates
                    pick_any = (a.name == "min") == (cc > 0)
                    if pick_any:
                        cs = [x for x in cands if x is not None]
                        return min(cs) if cs else None
                    if any(x is None for x in cands):
                        return None
                    return max(cands)
    # eliminate one variable at a time; loop variables first (latest first)
    best = None
    atoms = {}
    for m, cc in p.t.items():
        if len(m) == 1 and m[0][1] == 1:
            atoms[m[0][0]] = cc
        elif m:
            # non linear monomial: product of nonneg things with negative coefficient
            if cc < 0 and all(_nonneg_atom(a) for a, e in m):
                continue
            return None
    order = sorted(atoms, key=lambda a: (0 if a.kind == "iv" else 1 if a.kind == "ap" else 2, -(a.name if a.kind == "iv" else 0), a.s))
    nl = P({m: cc for m, cc in p.t.items() if len(m) > 1 or (m and m[0][1] != 1)})
    if nl.t:
        p = p - nl
        if p.const() is not None:
            return p.const()
    for a in order:
        cc = atoms[a]
        lo, hi = _bounds_of(a)
        b = hi if cc > 0 else lo
        if b is None:
            continue
        q = p - P({((a, ONE),): cc}) + b * const(cc)
        r = _ub(q, depth + 1)
        if r is not None and (best is None or r < best):
            best = r
        if a.kind == "iv" and best is not None:
            break
    return best


def _nonneg_atom(a):
    lo, hi = _bounds_of(a)
    if lo is not None:
        c = lo.const()
        return c is not None and c >= 0
    return False


def prove_neg(p):
    """True: p<0 always ; False: p>=0 always ; None unknown"""
    u = _ub(p)
    if u is not None and u < 0:
        return True
    u = _ub(-p)
    if u is not None and u <= 0:
        return False
    return None


def prove_le(a, b):
    """a <= b provable"""
    u = _ub(topoly(a) - topoly(b))
    return u is not None and u <= 0


# ----------------------------------------------------------------------------
# constructors
# ----------------------------------------------------------------------------
def mk_delta(p):
    c = p.const()
    if c is not None:
        return const(1) if c == 0 else const(0)
    lead = sorted((P({m: ONE}).s, cc) for m, cc in p.t.items() if m)[0][1]
    p = P({m: cc / lead for m, cc in p.t.items()})
    return topoly(Atom("delta", "", (p,)))


def mk_sum(i, lo, hi, body):
    """sum_{i=lo}^{hi-1} body   (i an index-variable id, lo/hi P)"""
    lo, hi = topoly(lo), topoly(hi)
    n = hi - lo
    nc = n.intval()
    if nc is not None and nc <= 8:
        r = const(0)
        for k in range(nc):
            r = r + subst(body, {i: lo + k})
        return r
    acc = const(0)
    plain = {}
    for m, c in body.t.items():
        inn = [a for a, _ in m if i in a.fv]
        if not inn or any(a.kind == "delta" for a in inn):
            plain[m] = c
            continue
        acc = acc + const(c) * _anchored(i, lo, hi, m)
    if plain:
        acc = acc + _anchor(i, lo, hi, P(plain))
    return acc


def _lead(i, x):
    """smallest constant offset of the indices running with i"""
    best = None
    for a in walk(x):
        if a.kind not in ("ap", "arr") or i not in a.fv:
            continue
        for ix in a.args[1]:
            if isinstance(ix, P) and i in ix.fv:
                lin = _linear_in(ix, i)
                if lin is None:
                    continue
                k = lin[1].t.get((), ZERO)
                if lin[0] == 1 and k.denominator == 1 and (best is None or k < best):
                    best = k
    return best


def _anchored(i, lo, hi, m):
    """sum of one monomial, independent of how the running index was offset or reversed"""
    f = P({m: ONE})
    cands = []
    k = _lead(i, f)
    if k is not None:
        cands.append((subst(f, {i: iv(i) - k}), lo + k, hi + k))
    h0 = hi - const(hi.t.get((), ZERO))
    g = subst(f, {i: h0 - iv(i)})
    k = _lead(i, g)
    if k is not None and i not in h0.fv:
        cands.append((subst(g, {i: iv(i) - k}), h0 - hi + 1 + k, h0 - lo + 1 + k))
    if not cands:
        return _anchor(i, lo, hi, f)
    if len(cands) == 2:
        key = [(len(x.s), x.s) for x in (mk_lam([i], [ZERO_P0], cc[0]) for cc in cands)]
        if key[1] < key[0]:
            cands = cands[1:]
    b, l, h = cands[0]
    return _anchor(i, l, h, b)


def _anchor(i, lo, hi, body):
    # shift to start at 0, anchor both ends so that endpoint terms are explicit
    l_c = lo.t.get((), ZERO)
    if l_c.denominator != 1 or abs(l_c) > 6:
        l_c = ZERO
        lo0 = lo
    else:
        lo0 = lo - const(l_c)
    if not lo0.iszero():
        body = subst(body, {i: iv(i) + lo0})
    hi = hi - lo0
    h_c = hi.t.get((), ZERO)
    if h_c.denominator != 1 or abs(h_c) > 6:
        h_c = ZERO
        h0 = hi
    else:
        h0 = hi - const(h_c)
    r = const(0)
    l_c, h_c = int(l_c), int(h_c)
    for k in range(0, l_c):
        r = r - subst(body, {i: const(k)})
    for k in range(l_c, 0):
        r = r + subst(body, {i: const(k)})
    for k in range(0, h_c):
        r = r + subst(body, {i: h0 + k})
    for k in range(h_c, 0):
        r = r - subst(body, {i: h0 + k})
    if h0.iszero():
        return r
    acc = const(0)
    for m, c in body.t.items():
        acc = acc + const(c) * _sum_mono(i, h0, m)
    return r + acc


def _sum_mono(i, n, m):
    out = [(a, e) for a, e in m if i not in a.fv]
    inn = [(a, e) for a, e in m if i in a.fv]
    outer = P({tuple(out): ONE})
    if not inn:
        return outer * n
    # delta elimination
    for a, e in inn:
        if a.kind == "delta":
            p = a.args[0]
            lin = _linear_in(p, i)
            if lin is not None and lin[0] in (1, -1):
                val = lin[1] * const(-1 / lin[0])
                rest = P({tuple((b, ee) for b, ee in inn if b is not a): ONE})
                return outer * subst(rest, {i: val})
    # factorise nested sums
    vs = [(i, n)]
    factors = []
    for a, e in inn:
        if a.kind == "sum" and e == 1:
            ids, exts, body = open_fresh(a.args[0])
            vs.extend(zip(ids, exts))
            factors.append(body)
        else:
            factors.append(P({((a, e),): ONE}))
    prod = const(1)
    for f in factors:
        prod = prod * f
    if len(prod.t) != 1:
        # inner bodies are monomials, so this only happens after simplification
        acc = const(0)
        for mm, cc in prod.t.items():
            acc = acc + const(cc) * _close_sum(vs, P({mm: ONE}))
        return outer * acc
    (mm, cc), = prod.t.items()
    return outer * const(cc) * _close_sum(vs, P({mm: ONE}))


def _linear_in(p, i):
    """p = c*i + rest -> (c, rest) else None"""
    c = ZERO
    rest = {}
    for m, cc in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "iv" and m[0][0].name == i:
            c = cc
        elif any(i in a.fv for a, _ in m):
            return None
        else:
            rest[m] = cc
    if not c:
        return None
    return c, P(rest)


def _close_sum(vs, body):
    """canonical sum atom over variables vs=[(id,ext)] of monomial body"""
    used = [v for v in vs if v[0] in body.fv or any(v[0] in e.fv for _, e in vs)]
    mult = const(1)
    for v in vs:
        if v not in used:
            mult = mult * v[1]
    vs = used
    best = None
    perms = itertools.permutations(vs) if len(vs) <= 4 else [vs]
    for perm in perms:
        # a range may only mention earlier variables
        seen = set()
        ok = True
        for v, e in perm:
            if any(w != v and w in e.fv and w not in seen for w, _ in vs):
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        flips = itertools.product((0, 1), repeat=len(perm)) if len(perm) <= 2 else [_flip_choice(perm, body)]
        for fl in flips:
            mp = {v: e - 1 - iv(v) for (v, e), f in zip(perm, fl) if f}
            b = subst(body, mp) if mp else body
            if len(b.t) != 1 or list(b.t.values())[0] != 1:
                continue
            exts = [subst(e, mp) for _, e in perm]
            lam = mk_lam([v for v, _ in perm], exts, b)
            if best is None or (len(lam.s), lam.s) < (len(best.s), best.s):
                best = lam
    if best is None:
        lam = mk_lam([v for v, _ in vs], [e for _, e in vs], body)
        best = lam
    return mult * topoly(Atom("sum", "", (best,)))


def _flip_choice(perm, body):
    out = []
    for v, e in perm:
        pos = neg = 0
        for a in walk(body):
            if a.kind == "ap":
                for p in a.args[1]:
                    if isinstance(p, P) and v in p.fv:
                        l = _linear_in(p, v)
                        if l:
                            if l[0] > 0:
                                pos += 1
                            else:
                                neg += 1
        out.append(1 if neg > pos else 0)
    return tuple(out)


def mk_ite(c, a, b):
    if c.op == "true":
        return a
    if c.op == "false":
        return b
    if a == b:
        return a
    if c.op == "not":
        return mk_ite(c.args[0], b, a)
    a2 = restrict(a, [(c, True)])
    b2 = restrict(b, [(c, False)])
    if a2 == b2:
        return a2
    return topoly(Atom("ite", "", (c, a2, b2)))


def mk_cat(idx, pieces):
    """pieces: tuple of (ext P, Lam of one var)"""
    flat = []
    for ext, lam in pieces:
        if ext.iszero():
            continue
        (i,), (e,), body = open_fresh(lam)
        at = as_atom(body) if isinstance(body, P) else None
        if at is not None and at.kind == "cat" and at.args[0] == iv(i):
            flat.extend(at.args[1])
        else:
            flat.append((ext, lam))
    if not flat:
        return unk("empty concatenation")
    if len(flat) == 1:
        return open_lam(flat[0][1], [idx])
    off = const(0)
    for k, (ext, lam) in enumerate(flat):
        rel = idx - off
        lo_ok = prove_neg(rel) is False
        hi_ok = prove_neg(rel - ext) is True
        if lo_ok and hi_ok:
            return open_lam(lam, [rel])
        if lo_ok and k == len(flat) - 1:
            return open_lam(lam, [rel])
        off = off + ext
    return topoly(Atom("cat", "", (idx, tuple(flat))))


FOLD = {}


def mk_ap(name, args=(), idx=()):
    f = FOLD.get(name)
    if f is not None and not idx:
        r = f(args)
        if r is not None:
            return r
    return topoly(Atom("ap", name, (tuple(args), tuple(idx))))


def _fold_minmax(name):
    def f(args):
        flat = []
        for a in args:
            at = as_atom(a) if isinstance(a, P) else None
            if at is not None and at.kind == "ap" and at.name == name and not at.args[1]:
                flat.extend(at.args[0])
            else:
                flat.append(a)
        if not all(isinstance(a, P) for a in flat):
            return None
        u = {}
        for a in flat:
            u[a.s] = a
        vals = [u[k] for k in sorted(u)]
        keep = []
        for i, a in enumerate(vals):
            dominated = False
            for j, b in enumerate(vals):
                if i == j:
                    continue
                if name == "min":
                    worse = prove_le(b, a)      # b<=a : a not needed
                    tie = worse and prove_le(a, b)
                else:
                    worse = prove_le(a, b)
                    tie = worse and prove_le(b, a)
                if worse and (not tie or j < i):
                    dominated = True
                    break
            if not dominated:
                keep.append(a)
        if len(keep) == 1:
            return keep[0]
        return topoly(Atom("ap", name, (tuple(keep), ())))
    return f


CPLX = ("fft", "cfft", "ifft", "eigval", "eigvec", "complex", "cexp")


def is_complex(x):
    """may hold a complex number"""
    def at(a):
        if a.kind == "sym":
            return a.name == "I"
        if a.kind == "ap":
            if a.name in CPLX:
                return True
            if a.name in ("real", "imag", "abs"):
                return False
            return any(is_complex(u) for u in a.args[0] if isinstance(u, P)) or any(any(at(q) for q in walk(u)) for u in a.args[0] if isinstance(u, Lam))
        if a.kind in ("iv", "bv"):
            return False
        return any(at(q) for q in walk(topoly(a)) if q is not a and q.kind in ("sym", "ap"))
    return any(at(a) for m in x.t for a, _ in m)


def _fold_real(args):
    (p,) = args
    if not isinstance(p, P) or p.unk:
        return None
    r, n = const(0), 0
    for m, c in p.t.items():
        cx = tuple((a, e) for a, e in m if is_complex(topoly(a)))
        re = P({tuple((a, e) for a, e in m if (a, e) not in cx): c})
        if cx:
            q = P({cx: ONE})
            r = r + re * topoly(Atom("ap", "real", ((q,), ())))
        else:
            r = r + re
    return r


FOLD["real"] = _fold_real
FOLD["min"] = _fold_minmax("min")
FOLD["max"] = _fold_minmax("max")


def _fold_pow(args):
    b, e = args
    if isinstance(b, P) and isinstance(e, P):
        if b.const() == 1:
            return const(1)
        if e.const() is not None and abs(e.const()) <= 64:
            return b.pow(e.const())
    return None


FOLD["pow"] = _fold_pow


def _fold_floordiv(args):
    a, b = args
    if not (isinstance(a, P) and isinstance(b, P)):
        return None
    ca, cb = a.const(), b.const()
    if cb == 1:
        if ca is not None:
            return const(ca.numerator // ca.denominator)
        return None if not _intlike(a) else a
    if ca is not None and cb:
        q = ca / cb
        return const(q.numerator // q.denominator)
    if cb and cb.denominator == 1 and cb > 0 and _intlike(a):
        # split off multiples of b
        r = const(0)
        rest = {}
        for m, c in a.t.items():
            if c.denominator == 1:
                q = c.numerator // cb.numerator
                if m and c % cb == 0:
                    r = r + P({m: Fraction(q)})
                    continue
                if not m:
                    # keep remainder constant in [0,b)
                    q = c.numerator // cb.numerator
                    if q:
                        r = r + const(q)
                        c = c - q * cb
                    if c:
                        rest[m] = c
                    continue
            rest[m] = c
        rest = P(rest)
        if r.t:
            return r + mk_ap("floordiv", (rest, b))
        if rest.iszero():
            return const(0)
    return None


INTAP = ("floordiv", "mod", "min", "max", "len", "ceil", "floor", "rint", "trunc", "rank", "count", "nnz")


def _intatom(a):
    if a.kind in ("iv", "bv"):
        return True
    if a.kind == "sym":
        return a.name[0].isupper() or a.name in ("nk", "nc", "nobs") or a.name.startswith(("len", "n_"))
    if a.kind == "ap":
        if a.name in ("min", "max", "mod"):
            return all(isinstance(x, P) and _intlike(x) for x in a.args[0])
        if a.name == "pow":
            return all(isinstance(x, P) and _intlike(x) for x in a.args[0])
        return a.name in INTAP
    return False


def _intlike(p):
    return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and _intatom(a) for a, e in m) for m, c in p.t.items())


def _fold_mod(args):
    a, b = args
    if not (isinstance(a, P) and isinstance(b, P)):
        return None
    ca, cb = a.const(), b.const()
    if ca is not None and cb:
        return const(ca % cb)
    if cb and cb.denominator == 1 and cb > 0 and _intlike(a):
        rest = {}
        ch = False
        for m, c in a.t.items():
            r = c % cb
            if r != c:
                ch = True
            if r:
                rest[m] = r
        if ch:
            rp = P(rest)
            if rp.const() is not None:
                return const(rp.const() % cb)
            return mk_ap("mod", (rp, b))
    return None


FOLD["floordiv"] = _fold_floordiv
FOLD["mod"] = _fold_mod


def _num1(f):
    def g(args):
        a = args[0]
        if isinstance(a, P):
            c = a.const()
            if c is not None:
                return f(c)
        return None
    return g


def _round_fold(name, num):
    """floor / ceil of a number, and of a sum with an integer number taken out"""
    def g(args):
        a = args[0]
        if not isinstance(a, P):
            return None
        c = a.const()
        if c is not None:
            return num(c)
        k = a.t.get((), 0)
        k = k.numerator // k.denominator if k else 0
        if k:
            return mk_ap(name, (a - k,)) + k
        return None
    return g


def _nonneg_log(a):
    """log(L) of a positive integer, or its quotient by log of a number above one"""
    return a.kind == "ap" and a.name == "log" and isinstance(a.args[0][0], P) and prove_le(const(1), a.args[0][0]) is True


def _trunc_fold(args):
    a = args[0]
    if not isinstance(a, P):
        return None
    c = a.const()
    if c is not None:
        return const(c.numerator // c.denominator if c >= 0 else -((-c.numerator) // c.denominator))
    if all(c > 0 and all(_nonneg_log(x) or _nonneg_atom(x) for x, e in m) for m, c in a.t.items()):
        return mk_ap("floor", (a,))
    return None


FOLD["floor"] = _round_fold("floor", lambda c: const(c.numerator // c.denominator))
FOLD["ceil"] = _round_fold("ceil", lambda c: const(-((-c.numerator) // c.denominator)))
FOLD["trunc"] = _trunc_fold
FOLD["abs"] = _num1(lambda c: const(abs(c)))
def _fold_exp(args):
    """exp of a sum is the product of exp of its monomials, rational coefficients become exponents"""
    (p,) = args
    if not isinstance(p, P):
        return None
    if not p.t:
        return const(1)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1:
            return None
    if len(p.t) > 12:
        return None
    r = const(1)
    for m, c in p.t.items():
        r = r * P({((Atom("ap", "exp", ((P({m: ONE}),), ())), c),): ONE})
    return r


FOLD["exp"] = _fold_exp
FOLD["sin"] = _num1(lambda c: const(0) if c == 0 else None)
FOLD["cos"] = _num1(lambda c: const(1) if c == 0 else None)
FOLD["cosh"] = _num1(lambda c: const(1) if c == 0 else None)
FOLD["log"] = _num1(lambda c: const(0) if c == 1 else None)


def _odd_even(name, odd):
    base = FOLD.get(name)

    def f(args):
        if base:
            r = base(args)
            if r is not None:
                return r
        a = args[0]
        if isinstance(a, P) and a.t:
            lead = sorted((P({m: ONE}).s, c) for m, c in a.t.items())[0][1]
            if lead < 0:
                r = topoly(Atom("ap", name, ((-a,), ())))
                return -r if odd else r
        return None
    return f


FOLD["sin"] = _odd_even("sin", True)
FOLD["sinh"] = _odd_even("sinh", True)
FOLD["tanh"] = _odd_even("tanh", True)
FOLD["sign"] = _odd_even("sign", True)
FOLD["cos"] = _odd_even("cos", False)
FOLD["cosh"] = _odd_even("cosh", False)
FOLD["abs"] = _odd_even("abs", False)


# ----------------------------------------------------------------------------
# arrays defined by stores
# ----------------------------------------------------------------------------
class Store(Node):
    """forall q in quants (under guard): A[points] = value   (all closed in one Lam)"""
    __slots__ = ("lam", "s", "fv", "bvs", "h", "unk", "where")

    def __init__(self, lam, where=None):
        self.lam = lam           # body = (guard Cond, points tuple, value P)
        self.s = lam.s
        self.fv, self.bvs, self.h, self.unk = lam.fv, lam.bvs, lam.h, lam.unk
        self.where = where

    def __eq__(self, o):
        return isinstance(o, Store) and o.s == self.s

    def __hash__(self):
        return hash(self.s)


def mk_store(qs, guard, points, value, where=None):
    """qs: [(iv, ext)] with range [0,ext).  Canonical order of the quantifiers."""
    qs = list(qs)
    best = None
    # keep nesting order only where the value refers to the array itself
    perms = itertools.permutations(qs) if len(qs) <= 5 else [qs]
    for perm in perms:
        seen = set()
        ok = True
        for v, e in perm:
            if any(w != v and w in e.fv and w not in seen for w, _ in qs):
                ok = False
                break
            seen.add(v)
        if not ok:
            continue
        lam = mk_lam([v for v, _ in perm], [e for _, e in perm], (guard, tuple(points), value))
        if best is None or lam.s < best.s:
            best = lam
    return Store(best, where)


def mk_arr_def(exts, init, stores, self_id):
    """close an array definition.
    exts: tuple P; init: Lam over all axes (P body) or None (uninitialised);
    stores: list of (qs, guard, points, value, where); self_id: id of the iv standing for the
    array itself inside values (atoms ap('@self', (iv(self_id),), idx))."""
    sts = [mk_store(*s) for s in stores]
    body = (tuple(exts), init if init is not None else "uninit", tuple(x.lam for x in sts))
    lam = mk_lam([self_id], [const(0)], body)
    return lam


def mk_arrel(lam, idx):
    """element idx of array definition lam"""
    return topoly(Atom("arr", "", (lam, tuple(idx))))


# ----------------------------------------------------------------------------
# restriction under assumptions
# ----------------------------------------------------------------------------
def truth(c, facts):
    """value of condition c under facts [(cond,bool)] or None"""
    if c.op == "true":
        return True
    if c.op == "false":
        return False
    for f, v in facts:
        if f.s == c.s:
            return v
    if c.op == "not":
        r = truth(c.args[0], facts)
        return None if r is None else not r
    if c.op == "and":
        rs = [truth(x, facts) for x in c.args]
        if any(r is False for r in rs):
            return False
        if all(r is True for r in rs):
            return True
        return None
    if c.op == "or":
        rs = [truth(x, facts) for x in c.args]
        if any(r is True for r in rs):
            return True
        if all(r is False for r in rs):
            return False
        return None
    lits = list(_lits(facts))
    if c.op == "lt":
        p = c.args[0]
        for f, v in lits:
            if f.op == "lt":
                q = f.args[0]
                if v:      # q<0
                    d = (p - q).const()          # p = q + d
                    if d is not None and d <= 0:
                        return True
                    d = (p + q).const()          # p = d - q > d
                    if d is not None and d >= 0:
                        return False
                else:      # q>=0
                    d = (p - q).const()
                    if d is not None and d >= 0:
                        return False
                    d = (p + q).const()          # p = d - q <= d
                    if d is not None and d < 0:
                        return True
            elif f.op == "eq" and v:
                q = f.args[0]
                for sg in (1, -1):
                    d = (p - q * const(sg)).const()
                    if d is not None:
                        return d < 0
                # scaled
                d = _lin_mult(p, q)
                if d is not None:
                    return d < 0
    if c.op == "eq":
        p = c.args[0]
        for f, v in lits:
            if f.op == "eq" and v:
                d = _lin_mult(p, f.args[0])
                if d is not None:
                    return d == 0
            if f.op == "lt":
                q = f.args[0]
                if v:
                    for sg in (1, -1):
                        d = (p * const(sg) - q).const()   # sg*p = q + d < d
                        if d is not None and d <= 0:
                            return False
                else:
                    for sg in (1, -1):
                        d = (p * const(sg) - q).const()   # sg*p >= d
                        if d is not None and d > 0:
                            return False
    if c.op == "seq":
        for f, v in lits:
            if f.op == "seq" and v and f.args[0] == c.args[0] and f.args[1] != c.args[1]:
                return False
            if f.op == "isnone" and v and f.args[0] == c.args[0]:
                return False
    if c.op == "isnone":
        for f, v in lits:
            if f.op in ("seq", "isinst", "truthy") and v and f.args[0] == c.args[0]:
                return False
    return None


def _lin_mult(p, q):
    """constant d with p = k*q + d, or None"""
    nq = [m for m in q.t if m]
    if not nq:
        return None
    m0 = nq[0]
    if m0 not in p.t:
        return None
    k = p.t[m0] / q.t[m0]
    return (p - q * const(k)).const()


def _lits(facts):
    for f, v in facts:
        if f.op == "not":
            yield from _lits([(f.args[0], not v)])
        elif f.op == "and" and v:
            yield from _lits([(x, True) for x in f.args])
        elif f.op == "or" and not v:
            yield from _lits([(x, False) for x in f.args])
        else:
            yield f, v


def feasible(facts):
    lits = list(_lits(facts))
    for k, (f, v) in enumerate(lits):
        r = truth(f, lits[:k] + lits[k + 1:])
        if r is not None and r != v:
            return False
    return lin_feasible(lits)


_LF = {}


def _intvalued(p):
    return _intlike(p)


def lin_feasible(lits):
    """rational feasibility of the linear facts (polyhedral closure); monomials are the variables"""
    key = tuple(sorted("%s=%s" % (f.s, v) for f, v in lits if f.op in ("lt", "eq")))
    if not key:
        return True
    if key in _LF:
        return _LF[key]
    cons = []          # (dict monomial->coef, const, strict)  meaning  sum + const < / <= 0
    atoms = set()

    def add(p, strict):
        if strict and _intvalued(p):
            p, strict = p + 1, False
        d = {m: c for m, c in p.t.items() if m}
        cons.append((d, p.t.get((), ZERO), strict))
        for m in d:
            if len(m) == 1 and m[0][1] == 1:
                atoms.add(m[0][0])
    for f, v in lits:
        if f.op == "lt":
            add(f.args[0], True) if v else add(-f.args[0], False)
        elif f.op == "eq" and v:
            add(f.args[0], False)
            add(-f.args[0], False)
    done = set()
    while atoms - done and len(done) < 12:
        a = sorted(atoms - done, key=lambda x: x.s)[0]
        done.add(a)
        lo, hi = _bounds_of(a)
        pa = P({((a, ONE),): ONE})
        if lo is not None:
            add(lo - pa, False)
        if hi is not None:
            add(pa - hi, False)
    ne = [f.args[0] for f, v in lits if f.op == "eq" and not v and isinstance(f.args[0], P)]

    def split(k):
        """disequalities: either side"""
        if not _fm(cons):
            return False
        if k >= min(len(ne), 4):
            return True
        n = len(cons)
        for q in (ne[k], -ne[k]):
            add(q, True)
            ok = split(k + 1)
            del cons[n:]
            if ok:
                return True
        return False
    r = split(0)
    _LF[key] = r
    return r


def _fm(cons):
    for _ in range(40):
        vars_ = {}
        out = []
        for d, c, st in cons:
            if not d:
                if c > 0 or (st and c >= 0):
                    return False
                continue
            out.append((d, c, st))
            for m, k in d.items():
                u = vars_.setdefault(m, [0, 0])
                u[0 if k > 0 else 1] += 1
        cons = out
        if not vars_:
            return True
        m = min(vars_, key=lambda x: (vars_[x][0] * vars_[x][1] - vars_[x][0] - vars_[x][1], str(x)))
        up = [x for x in cons if x[0].get(m, 0) > 0]
        lo = [x for x in cons if x[0].get(m, 0) < 0]
        rest = [x for x in cons if m not in x[0]]
        new = {}
        for d1, c1, s1 in up:
            for d2, c2, s2 in lo:
                k1, k2 = d1[m], -d2[m]
                d = {}
                for q, v in d1.items():
                    d[q] = v * k2
                for q, v in d2.items():
                    t = d.get(q, ZERO) + v * k1
                    if t:
                        d[q] = t
                    else:
                        d.pop(q, None)
                d.pop(m, None)
                c = c1 * k2 + c2 * k1
                if d:
                    n = abs(next(iter(sorted(d.items(), key=lambda z: str(z[0]))))[1])
                    d = {q: v / n for q, v in d.items()}
                    c = c / n
                kk = tuple(sorted((str(q), v) for q, v in d.items()))
                o = new.get(kk)
                if o is None or (c, s1 or s2) > (o[1], o[2]):
                    new[kk] = (d, c, s1 or s2)
        cons = rest + list(new.values())
        if len(cons) > 400:
            return True
    return True


def infer_eq(facts):
    """a pair of facts that pins a value:  not p<0 and not -p<0"""
    lits = [(f, v) for f, v in _lits(facts) if f.op == "lt"]
    ivs = set()
    for f, v in lits:
        ivs |= f.fv
    for i in sorted(ivs, key=str):
        if i in Bounds.iv:
            lo, hi = Bounds.iv[i]
            lits += [(c, w) for c, w in _lits([(c_le(lo, iv(i)), True), (c_lt(iv(i), hi), True)]) if c.op == "lt"]
    for k, (f, v) in enumerate(lits):
        if v:
            continue
        p = f.args[0]
        for g, w in lits[k + 1:] + lits[:k]:
            q = g.args[0]
            if not w:
                d = _lin_mult(q, p)
                if d == 0 and len(p.t) and _neg_mult(q, p):
                    return c_eq(p, const(0))
            elif _intvalued(p) and _intvalued(q) and (q - p).const() == -1:
                return c_eq(p, const(0))
    return None


def _neg_mult(q, p):
    m = next(iter(m for m in p.t if m))
    return m in q.t and q.t[m] / p.t[m] < 0


_ITE = {}      # atom -> contains a case distinction (atoms are unique and live for ever)


def has_ite(n):
    if isinstance(n, P):
        for m in n.t:
            for a, _ in m:
                r = _ITE.get(a)
                if r is None:
                    r = has_ite(a)
                if r:
                    return True
        return False
    if isinstance(n, Atom):
        r = _ITE.get(n)
        if r is None:
            r = _ITE[n] = n.kind == "ite" or any(has_ite(y) for y in _flat(n.args))
        return r
    if isinstance(n, Lam):
        return any(has_ite(y) for y in _flat((n.body,))) or any(has_ite(y) for y in n.exts)
    if isinstance(n, Cond):
        return any(has_ite(y) for y in cond_children(n))
    return False


def restrict(x, facts):
    if not facts:
        return x
    def f(a):
        if a.kind == "ite":
            c, u, v = a.args
            t = truth(c, facts)
            if t is True:
                return restrict(u, facts)
            if t is False:
                return restrict(v, facts)
        return None
    return _map_node(x, has_ite, f)


# ----------------------------------------------------------------------------
# differentiation
# ----------------------------------------------------------------------------
def diff(p, a):
    """derivative of p with respect to atom a (P) ; unknown dependence -> unk"""
    r = const(0)
    for m, c in p.t.items():
        for k, (b, e) in enumerate(m):
            db = _datom(b, a)
            if db.iszero():
                continue
            rest = list(m)
            rest[k] = (b, e - 1)
            term = const(c * e)
            for bb, ee in rest:
                if ee:
                    term = term * P({((bb, ee),): ONE})
            r = r + term * db
    return r


def depends(b, a):
    return any(x is a for x in walk(b))


def _datom(b, a):
    if b is a:
        return const(1)
    if not depends(b, a):
        if any(x.kind == "unk" for x in walk(b)):   # an unknown value may depend on anything
            return unk("derivative of an unknown value")
        return const(0)
    if b.kind == "pw":
        return diff(b.args[0], a)
    if b.kind == "ite":
        c, u, v = b.args
        return mk_ite(c, diff(u, a), diff(v, a))
    if b.kind == "sum":
        ids, exts, body = open_fresh(b.args[0])
        r = diff(body, a)
        for i, e in reversed(list(zip(ids, exts))):
            r = mk_sum(i, const(0), e, r)
        return r
    if b.kind == "ap" and not b.args[1]:
        n = b.name
        args = b.args[0]
        if n == "sin":
            return mk_ap("cos", args) * diff(args[0], a)
        if n == "cos":
            return -mk_ap("sin", args) * diff(args[0], a)
        if n == "exp":
            return mk_ap("exp", args) * diff(args[0], a)
        if n == "log":
            return args[0].inv() * diff(args[0], a)
        if n == "fapp":           # fapp(fn-key, order, arg)
            key, order, arg = args
            return mk_ap("fapp", (key, order + 1, arg)) * diff(arg, a)
    return unk("derivative of " + b.kind + ":" + str(b.name))


def _fold_fapp(args):
    return None


# ----------------------------------------------------------------------------
# comparison
# ----------------------------------------------------------------------------
EQ, HARD, SOFT = "eq", "hard", "soft"


class Cmp:
    def __init__(self, status, why="", facts=()):
        self.status, self.why, self.facts = status, why, list(facts)

    def __repr__(self):
        return "%s: %s %s" % (self.status, self.why, [("" if v else "not ") + f.s for f, v in self.facts])


def clear_denoms(d):
    """multiply by the positive powers of pw / monomial denominators"""
    for _ in range(6):
        pws = {}
        for m in d.t:
            for a, e in m:
                if e < 0 and (a.kind == "pw" or e.denominator == 1):
                    pws[a] = min(pws.get(a, 0), e)
        pws = {a: e for a, e in pws.items() if a.kind == "pw"}
        if not pws:
            break
        for a, e in pws.items():
            r = const(0)
            for m, c in d.t.items():
                mm = dict(m)
                k = mm.pop(a, ZERO) - e
                base = P({tuple(sorted(mm.items(), key=lambda x: x[0].s)): c})
                if k.denominator == 1 and k >= 0:
                    r = r + base * _ppow(a.args[0], int(k))
                else:
                    r = r + base * P({((a, k),): ONE})
            d = r
    return d


def top_conds(x, out, depth=0):
    """conditions of ite atoms (free of bound variables) reachable in x; cat atoms too"""
    for a in walk(x):
        if a.kind == "ite" and not a.args[0].bvs:
            out.setdefault(a.args[0].s, a.args[0])
        elif a.kind == "ap" and False:
            pass


def top_cats(x):
    for a in walk(x):
        if a.kind == "cat" and not a.args[0].bvs and not a.bvs:
            yield a


def split_cat(x, idx, offs, k):
    """x where every cat atom with index idx and matching offsets takes its k-th piece"""
    def pred(a):
        return a.kind == "cat" and a.args[0] == idx

    def f(a):
        off = const(0)
        for j, (ext, lam) in enumerate(a.args[1]):
            nxt = off + ext
            if off == offs[k] and (j == len(a.args[1]) - 1 or nxt == offs[k + 1]):
                return open_lam(lam, [idx - off])
            off = nxt
        return None
    return map_atoms(x, pred, f)


def _basic(c):
    """conditions we split on: literals"""
    if c.op in ("and", "or"):
        return [y for x in c.args for y in _basic(x)]
    if c.op == "not":
        return _basic(c.args[0])
    return [c]


def expand_minmax(x):
    """min / max of scalars without bound variables as a case distinction"""
    if isinstance(x, (tuple, list, Lam)):
        return x
    for _ in range(4):
        mp = {}
        for a in walk(x):
            if isinstance(a, Atom) and a.kind == "ap" and a.name in ("min", "max") and not a.args[1] and not a.bvs and all(isinstance(z, P) for z in a.args[0]) and len(a.args[0]) <= 3:
                r = a.args[0][0]
                for z in a.args[0][1:]:
                    r = mk_ite(c_lt(z, r) if a.name == "min" else c_lt(r, z), z, r)
                mp[a] = r
        if not mp:
            return x
        x = subst_atoms(x, mp)
    return x


def _odd_fact(f):
    """a condition over logarithms, symbolic powers or roundings: whether it can hold is not decided"""
    return any(a.kind == "ap" and a.name in ("pow", "log", "nextfast", "trunc", "rint", "round", "floor", "ceil") for a in walk(f))


def compare(code, spec, facts=(), vocab=None, depth=0, ctx=""):
    """three valued comparison of two P (or tuples / Lams) -> Cmp.

    EQ    : same canonical value
    HARD  : different canonical values, wholly inside the understood vocabulary
    SOFT  : cannot be decided"""
    facts = list(facts)
    if depth == 0:
        code, spec = expand_minmax(code), expand_minmax(spec)
        facts = [(expand_minmax(f), v) for f, v in facts]
    if isinstance(code, (P, Atom)) and isinstance(spec, (P, Atom)):
        r = _cmp_p(topoly(code), topoly(spec), facts, vocab, depth)
    else:
        r = _cmp_struct(code, spec, facts, vocab, depth)
    if r.status != EQ and depth == 0:
        rs = residues(code, spec, facts)
        if rs:
            worst = None
            for c2, s2, f2 in rs:
                q = compare(c2, s2, f2, vocab, 1, ctx)
                if q.status == HARD:
                    if any(f.unk or _odd_fact(f) for f, _ in q.facts):
                        q = Cmp(SOFT, "differ under an unknown condition", q.facts)
                    else:
                        return q
                if q.status == SOFT:
                    worst = q
            return worst or Cmp(EQ)
        if r.status == HARD and any(f.unk or _odd_fact(f) for f, _ in r.facts):
            return Cmp(SOFT, "differ under an unknown condition", r.facts)
    return r


def _modulus(a, syms):
    """common period of nested integer divisions in an atom (0: not periodic)"""
    L = 1
    for x in walk(a.args[0][0]):
        if x.kind == "ap" and x.name in ("floordiv", "mod") and x is not a:
            m = _modulus(x, syms)
            if not m:
                return 0
            L = L * m // math.gcd(L, m)
    d = a.args[0][1].const()
    if d is None or d.denominator != 1 or d <= 0:
        return 0
    return L * int(d)


def residues(code, spec, facts):
    """integer divisions of a size by constants: decide class by class (size = L*q + r), which makes every division exact"""
    syms, L = set(), 1
    for x in list(walk(code)) + list(walk(spec)):
        if x.kind == "ap" and x.name in ("floordiv", "mod") and len(x.args[0]) == 2 and not x.bvs and all(isinstance(z, P) for z in x.args[0]):
            fr = {y for y in walk(x) if y.kind == "sym" or (y.kind == "ap" and not y.args[0] and not y.args[1])}
            if len(fr) != 1 or any(y.kind in ("iv", "bv", "unk", "sum") for y in walk(x)):
                continue
            m = _modulus(x, fr)
            if not m:
                continue
            syms |= fr
            L = L * m // math.gcd(L, m)
    if len(syms) != 1 or L > 36:
        return None
    a = syms.pop()
    if a.kind != "sym" or not _intatom(a):
        return None
    q = sym("N_q_" + a.name)
    Bounds.nonneg.add("N_q_" + a.name)
    out = []
    for r in range(L):
        v = q * L + r
        f = lambda x: subst_atoms(x, {a: v})
        nf = [(f(c), k) for c, k in facts]
        if a.name in Bounds.pos:
            nf.append((c_le(const(1), v), True))
        if feasible(nf):
            out.append((expand_minmax(f(code)), expand_minmax(f(spec)), nf))
    return out


MAXSPLIT = 14


def elim_eq(code, spec, facts, b):
    """use the equality b to eliminate an index variable (or a symbol).
    -> (code, spec, facts) | None when infeasible | False when nothing can be eliminated"""
    p = b.args[0]
    best = None
    for m, c in p.t.items():
        if len(m) == 1 and m[0][1] == 1 and (m[0][0].kind in ("iv", "sym") or (m[0][0].kind == "ap" and not m[0][0].args[0])):
            a = m[0][0]
            rest = P({k: v for k, v in p.t.items() if k != m})
            if any(x == a for x in walk(rest)):
                continue
            cand = ({"iv": 0, "ap": 1}.get(a.kind, 2), a.s, a, rest * const(-1 / c))
            if best is None or cand[:2] < best[:2]:
                best = cand
    if best is None:
        return False
    a, val = best[2], best[3]
    f = (lambda x: subst(x, {a.name: val})) if a.kind == "iv" else (lambda x: subst_atoms(x, {a: val}))
    nf = []
    if a.kind == "iv" and a.name in Bounds.iv:
        lo, hi = Bounds.iv[a.name]
        nf = [(c_le(lo, val), True), (c_lt(val, hi), True)]
    elif a.kind == "sym" and a.name in Bounds.pos:
        nf = [(c_le(const(1), val), True)]
    elif a.kind == "sym" and a.name in Bounds.nonneg:
        nf = [(c_le(const(0), val), True)]
    nf += [(f(c), v) for c, v in facts]
    out = []
    for c, v in nf:
        if c.op in ("true", "false"):
            if (c.op == "true") != v:
                return None
            continue
        out.append((c, v))
    if not feasible(out):
        return None
    return f(code), f(spec), out


def _cmp_p(code, spec, facts, vocab, depth):
    if code == spec:
        return Cmp(EQ)
    code = restrict(code, facts)
    spec = restrict(spec, facts)
    d = clear_denoms(code - spec)
    if d.iszero():
        return Cmp(EQ)
    conds = {}
    top_conds(d, conds)
    if conds and depth >= MAXSPLIT:
        return Cmp(SOFT, "too many cases")
    if conds:
        lits = {}
        for c in conds.values():
            for b in _basic(c):
                if truth(b, facts) is None:
                    lits[b.s] = b
        if lits:
            k = sorted(lits, key=lambda s: (len(s), s))[0]
            b = lits[k]
            worst = None
            for v in (True, False):
                nf = facts + [(b, v)]
                if not feasible(nf):
                    continue
                c2, s2, nf2 = code, spec, nf
                if v and b.op == "eq":
                    e = elim_eq(code, spec, facts, b)
                    if e is None:
                        continue
                    if e is not False:
                        c2, s2, nf2 = e
                r = _cmp_p(restrict(c2, nf2), restrict(s2, nf2), nf2, vocab, depth + 1)
                if r.status == HARD:
                    if not r.facts or len(r.facts) < len(nf):
                        r.facts = nf
                    return r
                if r.status == SOFT:
                    worst = r
            return worst or Cmp(EQ)
    if facts and depth < MAXSPLIT + 2:
        b = infer_eq(facts)
        if b is not None and b.op == "eq":
            e = elim_eq(code, spec, facts, b)
            if e is None:
                return Cmp(EQ)
            if e is not False:
                return _cmp_p(e[0], e[1], e[2], vocab, depth + 1)
    cats = list(top_cats(d))
    if cats and depth < MAXSPLIT:
        # region split on a common refinement
        a = sorted(cats, key=lambda x: x.s)[0]
        idx = a.args[0]
        same = [c for c in cats if c.args[0] == idx]
        offs = []
        ok = True
        layouts = set()
        for c in same:
            off, l = const(0), []
            for ext, _ in c.args[1]:
                l.append(off)
                off = off + ext
            layouts.add(tuple(x.s for x in l))
            if not offs:
                offs = l
        if len(layouts) == 1:
            worst = None
            for k in range(len(offs)):
                r = _cmp_p(split_cat(code, idx, offs, k), split_cat(spec, idx, offs, k), facts, vocab, depth + 1)
                if r.status == HARD:
                    return r
                if r.status == SOFT:
                    worst = r
            return worst or Cmp(EQ)
        # layouts differ: hard only if everything is understood
        if len(layouts) == 2 and not d.unk:
            return Cmp(HARD, "concatenation layouts differ: " + " vs ".join(sorted(map(str, layouts))))
        return Cmp(SOFT, "concatenation layouts")
    if depth < MAXSPLIT + 2:
        c2, s2 = expand_const_sums(code), expand_const_sums(spec)
        if c2 is not code or s2 is not spec:
            return _cmp_p(c2, s2, facts, vocab, MAXSPLIT + 2)
        fin = finite_index(d, facts)
        if fin is not None:
            v, lo, hi = fin
            worst = None
            for k in range(lo, hi + 1):
                b = c_eq(iv(v), const(k))
                if b.op == "false":
                    continue
                e = elim_eq(code, spec, facts, b) if b.op == "eq" else False
                if e is None:
                    continue
                if e is False:
                    return _judge(code, spec, d, facts, vocab, depth)
                r = _cmp_p(e[0], e[1], e[2], vocab, depth + 4)
                if r.status == HARD:
                    r.facts = facts + [(b, True)]
                    return r
                if r.status == SOFT:
                    worst = r
            return worst or Cmp(EQ)
    return _judge(code, spec, d, facts, vocab, depth)


def expand_const_sums(x):
    """write out the sums over a constant range"""
    def pred(a):
        return a.kind == "sum" and all(e.intval() is not None for e in a.args[0].exts) and math.prod(e.intval() for e in a.args[0].exts) <= 64

    def fn(a):
        lam = a.args[0]
        r = const(0)
        for pt in itertools.product(*[range(e.intval()) for e in lam.exts]):
            r = r + open_lam(lam, [const(k) for k in pt])
        return r
    if not any(a.kind == "sum" and pred(a) for a in walk(x)):
        return x
    return map_atoms(x, pred, fn)


def finite_index(d, facts):
    """an index variable in the extent of a sum that the facts confine to a few integers: (id, lo, hi)"""
    cand = set()
    for a in walk(d):
        if a.kind == "sum":
            for e in a.args[0].exts:
                cand |= {v for v in e.fv}
    for v in sorted(cand, key=str):
        if not isinstance(v, int):
            continue
        lo, hi = Bounds.iv.get(v, (const(0), None))
        lc = lo.const()
        if lc is None or lc.denominator != 1:
            continue
        for k in range(int(lc), int(lc) + 7):
            if not feasible(facts + [(c_le(const(k + 1), iv(v)), True)]):
                return v, int(lc), k
    return None


FRAGILE = {"arr", "mu", "sum", "cat", "ite", "map"}


def heads(x):
    r = set()
    for a in walk(x):
        if a.kind == "ap":
            r.add(a.name)
        elif a.kind not in ("sym", "iv", "bv"):
            r.add("#" + a.kind)
        elif a.kind == "sym":
            r.add("$" + a.name)
    return r


def _compound(ms, other):
    r = []
    for m in ms:
        for a, e in m:
            if a.kind == "ap" and a.args[0] and a not in r:
                r.append(a)
    return r


def _unify(code, spec, dc, ds, facts, vocab, depth):
    """calls of one function whose arguments are equal but written differently: (code with the reference's spelling | None, undecided reason | None)"""
    if depth > 30:
        return None, None
    ca, sa = _compound(dc, ds), _compound(ds, dc)
    only = [a for a in ca if a not in sa]
    cand = [b for b in sa if b not in ca]
    if not only or not cand or len(only) * len(cand) > 64:
        return None, None
    mp, soft = {}, None
    for a in only:
        why, n = None, 0
        for b in cand:
            if b.name != a.name or len(b.args[0]) != len(a.args[0]) or len(a.args[1]) != len(b.args[1]):
                continue
            n += 1
            r = _cmp_atom(a, b, facts, vocab, depth + 1)
            if r.status == EQ:
                mp[a] = topoly(b)
                why = None
                break
            if r.status == SOFT:
                why = r.why
        if why is not None:
            soft = "arguments of %s: %s" % (a.name, why)
    if mp:
        c2 = map_atoms(code, lambda a: a in mp, lambda a: mp[a])
        if c2 != code:
            return c2, soft
    return None, soft


def _judge(code, spec, d, facts, vocab, depth):
    if d.unk:
        # undecided part may sit in some monomials only
        return Cmp(SOFT, "unknown value: " + next((a.s for a in walk(d) if a.kind == "unk"), "?")[:200])
    if d.const() is not None:
        return Cmp(HARD, "differ by constant %s" % d.s, facts)
    # monomials that remain
    dc, ds = {}, {}
    diff_ = code - spec
    for m, c in diff_.t.items():
        if m in code.t:
            dc[m] = code.t[m]
        if m in spec.t:
            ds[m] = spec.t[m]
    c2, soft = _unify(code, spec, dc, ds, facts, vocab, depth)
    if c2 is not None:
        return _cmp_p(c2, spec, facts, vocab, depth + 2)
    if soft:
        return Cmp(SOFT, soft)
    hs = heads(spec) | (set(vocab) if vocab else set())
    hyp = {"cosh", "sinh", "tanh"}
    if (hs & hyp) != (heads(code) & hyp) and "exp" in hs | heads(code):
        return Cmp(SOFT, "hyperbolic function written with exponentials")
    hc = set()
    for m in dc:
        hc |= heads(P({m: ONE}))
    new = {h for h in hc if h not in hs and h not in BASIC}
    if new:
        # functions the reference does not mention: not decided
        if new - TRUSTED - INPUTS:
            return Cmp(SOFT, "vocabulary: " + ",".join(sorted(new))[:200])
    # pair fragile atoms
    fc = _fragile_atoms(dc)
    fs = _fragile_atoms(ds)
    fs_only = [a for a in fs if a not in fc]
    fc_only = [a for a in fc if a not in fs]
    if fc_only:
        if not fs_only:
            if all(a.kind == "sum" for a in fc_only):
                return Cmp(HARD, _short(code, spec, diff_), facts)
            return Cmp(SOFT, "structure: " + fc_only[0].s[:300])
        used = set()
        anyhard = None
        for a in fc_only:
            best = None
            for b in fs_only:
                if b.kind != a.kind or b in used:
                    continue
                r = _cmp_atom(a, b, facts, vocab, depth + 1)
                if best is None or (r.status == HARD and best[0].status == SOFT):
                    best = (r, b)
            if best is None or best[0].status == SOFT:
                return Cmp(SOFT, "structure: " + (best[0].why if best else a.s[:200]))
            used.add(best[1])
            if best[0].status == HARD:
                anyhard = best[0]
        if anyhard is not None:
            return Cmp(HARD, anyhard.why, anyhard.facts or facts)
    return Cmp(HARD, _short(code, spec, diff_), facts)


BASIC = {"$pi", "$dt", "min", "max", "abs", "floordiv", "mod", "#delta", "#pw", "floor", "ceil", "sin", "cos", "exp", "log", "sqrt", "#ite", "#cat"}
INPUTS = set()          # heads of the inputs declared by the rule
TRUSTED = {"#sum", "sign", "fapp", "argmax", "argmin", "any", "all", "real", "imag", "conj", "cumsum", "round", "alias", "f32"}


def _short(code, spec, d):
    def cut(s, n=600):
        return s if len(s) <= n else s[:n] + "..."
    return "found %s ; required %s" % (cut(code.s), cut(spec.s))


def _fragile_atoms(ms):
    r = []
    for m in ms:
        for a, e in m:
            if a.kind in FRAGILE and a not in r:
                r.append(a)
    return r


def _cmp_atom(a, b, facts, vocab, depth):
    if a is b:
        return Cmp(EQ)
    if a.kind != b.kind or a.name != b.name or depth > 40:
        return Cmp(SOFT, "different constructs %s / %s" % (a.kind, b.kind))
    if a.kind == "sum":
        return _cmp_struct(a.args[0], b.args[0], facts, vocab, depth)
    return _cmp_struct(a.args, b.args, facts, vocab, depth)


def _cmp_struct(x, y, facts, vocab, depth):
    if isinstance(x, tuple) and isinstance(y, tuple):
        if len(x) != len(y):
            return Cmp(SOFT, "different number of components (%d / %d)" % (len(x), len(y)))
        hard = None
        for u, v in zip(x, y):
            r = _cmp_struct(u, v, facts, vocab, depth + 1)
            if r.status == SOFT:
                return r
            if r.status == HARD and hard is None:
                hard = r
        return hard or Cmp(EQ)
    if isinstance(x, (P, Atom)) and isinstance(y, (P, Atom)):
        return _cmp_p(topoly(x), topoly(y), facts, vocab, depth + 1)
    if isinstance(x, Lam) and isinstance(y, Lam):
        if x.s == y.s:
            return Cmp(EQ)
        if len(x.hs) != len(y.hs):
            return Cmp(SOFT, "different binders")
        ids = [fresh_iv() for _ in x.hs]
        vals = [iv(i) for i in ids]
        mx = {h: v for h, v in zip(x.hs, vals)}
        my = {h: v for h, v in zip(y.hs, vals)}
        ex = tuple(subst_bv(e, mx) for e in x.exts)
        ey = tuple(subst_bv(e, my) for e in y.exts)
        bx, by = subst_bv(x.body, mx), subst_bv(y.body, my)
        for i, e in zip(ids, ex):
            Bounds.iv.setdefault(i, (const(0), e))
        if ex == ey and all(e.intval() is not None for e in ex) and math.prod(e.intval() for e in ex) <= 16:
            worst = None
            for pt in itertools.product(*[range(e.intval()) for e in ex]):
                q = _cmp_struct(open_lam(x, [const(k) for k in pt]), open_lam(y, [const(k) for k in pt]), facts, vocab, depth + 1)
                if q.status == SOFT:
                    return q
                if q.status == HARD and worst is None:
                    worst = q
            return worst or Cmp(EQ)
        r = _cmp_struct(ex, ey, facts, vocab, depth + 1)
        if r.status == SOFT:
            return r
        r2 = _cmp_struct(bx, by, facts, vocab, depth + 1)
        if r2.status == SOFT:
            return r2
        return r if r.status == HARD else r2
    if isinstance(x, Cond) and isinstance(y, Cond):
        if x == y:
            return Cmp(EQ)
        if x.op == y.op and len(x.args) == len(y.args):
            hard = None
            for u, v in zip(x.args, y.args):
                r = _cmp_struct(u, v, facts, vocab, depth + 1)
                if r.status == SOFT:
                    return r
                if r.status == HARD:
                    hard = r
            return hard or Cmp(EQ)
        if not x.unk and not y.unk and {x.op, y.op} <= {"lt", "eq", "not", "true"}:
            return Cmp(HARD, "condition %s instead of %s" % (x.s, y.s), facts)
        return Cmp(SOFT, "condition %s / %s" % (x.s[:100], y.s[:100]))
    if isinstance(x, Node) != isinstance(y, Node):
        return Cmp(SOFT, "different kinds of component %r / %r" % (str(x)[:80], str(y)[:80]))
    if x == y:
        return Cmp(EQ)
    return Cmp(HARD, "%r instead of %r" % (x, y), facts) if isinstance(x, str) and isinstance(y, str) else Cmp(SOFT, "%r / %r" % (x, y))
