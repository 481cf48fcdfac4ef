"""Run-time value descriptions used by the abstract interpreter."""
from alg import *


class Ax:
    __slots__ = ("v", "ext", "label")

    def __init__(self, ext, label=None, v=None):
        self.v = fresh_iv() if v is None else v
        self.ext = topoly(ext)
        self.label = label
        Bounds.iv.setdefault(self.v, (const(0), self.ext))

    def p(self):
        return iv(self.v)

    def clone(self, label="__same__"):
        return Ax(self.ext, self.label if label == "__same__" else label)

    def __repr__(self):
        return "%s%%%d<%s" % (self.label + ":" if self.label else "", self.v, self.ext)


class Val:
    __slots__ = ()


class T(Val):
    """tensor (or scalar, when it has no axes) in index notation; body is P or Cond.
    buf/bidx: view of a heap buffer (body is then ignored)."""
    __slots__ = ("axes", "body", "xr", "coords", "buf", "bidx", "name")

    def __init__(self, axes, body, xr=False, coords=None, buf=None, bidx=None, name=None):
        self.axes = tuple(axes)
        self.body = body
        self.xr = xr
        self.coords = coords or {}
        self.buf = buf
        self.bidx = bidx
        self.name = name

    def __repr__(self):
        return "T[%s]%s" % (",".join(map(repr, self.axes)), self.body if self.buf is None else "buf%d[%s]" % (self.buf, self.bidx))

    @property
    def ndim(self):
        return len(self.axes)

    def dims(self):
        return tuple(a.label for a in self.axes)

    def ax(self, label):
        for a in self.axes:
            if a.label == label:
                return a
        return None


def S(p):
    """scalar"""
    return T((), topoly(p) if not isinstance(p, Cond) else p)


class K(Val):
    """python constant: None, str, Ellipsis, bytes, complex"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "K(%r)" % (self.v,)


NONE = K(None)
ELL = K(Ellipsis)


class Tup(Val):
    __slots__ = ("items", "names", "cls")

    def __init__(self, items, names=None, cls=None):
        self.items = tuple(items)
        self.names = names
        self.cls = cls

    def __repr__(self):
        return "Tup%r" % (self.items,)


class SetT(Tup):
    """a set, in order of insertion"""
    __slots__ = ()


class Sl(Val):
    __slots__ = ("lo", "hi", "step")

    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def __repr__(self):
        return "Sl(%r,%r,%r)" % (self.lo, self.hi, self.step)


class Ref(Val):
    __slots__ = ("id",)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return "Ref%d" % self.id


class Fn(Val):
    """function of the analysed program (or a spec / lambda)"""
    __slots__ = ("node", "mod", "env", "cls", "name")

    def __init__(self, node, mod, env, cls=None, name=None):
        self.node, self.mod, self.env, self.cls = node, mod, env, cls
        self.name = name or getattr(node, "name", "<lambda>")

    def __repr__(self):
        return "Fn(%s)" % self.name


class Bound(Val):
    __slots__ = ("fn", "self")

    def __init__(self, fn, self_):
        self.fn, self.self = fn, self_


class Meth(Val):
    """method of a modelled value: (receiver, name)"""
    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "Meth(%r.%s)" % (self.obj, self.name)


class Cls(Val):
    __slots__ = ("node", "mod", "name", "fields")

    def __init__(self, node, mod, name, fields=None):
        self.node, self.mod, self.name, self.fields = node, mod, name, fields

    def __repr__(self):
        return "Cls(%s)" % self.name


class Ext(Val):
    """name from an external library"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "Ext(%s)" % self.name


class Partial(Val):
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Opq(Val):
    """symbolic object / parameter of unknown type identified by a path."""
    __slots__ = ("path", "attrs", "hook", "notnone", "typ", "args")

    def __init__(self, path, attrs=None, hook=None, notnone=True, typ=None, args=()):
        self.path, self.attrs, self.hook, self.notnone, self.typ, self.args = path, attrs or {}, hook, notnone, typ, args

    def __repr__(self):
        return "Opq(%s)" % self.path


class FnObj(Val):
    """function object with known derivative structure: D^order of the function `key`"""
    __slots__ = ("key", "order")

    def __init__(self, key, order=0):
        self.key, self.order = key, order


class Seq(Val):
    """symbolic sequence: n elements, at(P index) -> value"""
    __slots__ = ("n", "at", "name")

    def __init__(self, n, at, name="seq"):
        self.n, self.at, self.name = topoly(n), at, name


class Phi(Val):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return "Phi(%s,%r,%r)" % (self.c, self.a, self.b)


class Unk(Val):
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Unk(%s)" % self.why


# heap objects (treated as immutable, replaced on write) -----------------------
class HEnv:
    __slots__ = ("d", "parent")

    def __init__(self, d, parent=None):
        self.d, self.parent = d, parent


class HList:
    """items: tuple of ('i', value) | ('m', ivid, n P, value)"""
    __slots__ = ("items", "owner")

    def __init__(self, items, owner=None):
        self.items, self.owner = tuple(items), owner


class HDict:
    __slots__ = ("items", "owner")

    def __init__(self, items, owner=None):
        self.items, self.owner = tuple(items), owner   # ((key Val, value), ...)


class HInst:
    __slots__ = ("cls", "attrs", "owner")

    def __init__(self, cls, attrs, owner=None):
        self.cls, self.attrs, self.owner = cls, attrs, owner


class HBuf:
    """array buffer: extents, initial contents (function of idx: list of ivs + P) and stores"""
    __slots__ = ("exts", "ivs", "init", "stores", "owner", "selfid")

    def __init__(self, exts, ivs, init, stores, owner, selfid):
        self.exts, self.ivs, self.init, self.stores, self.owner, self.selfid = tuple(exts), tuple(ivs), init, tuple(stores), owner, selfid

    def repl(self, **kw):
        d = dict(exts=self.exts, ivs=self.ivs, init=self.init, stores=self.stores, owner=self.owner, selfid=self.selfid)
        d.update(kw)
        return HBuf(**d)


class HDs:
    """dataset"""
    __slots__ = ("vars", "coords", "attrs", "dropped", "owner")

    def __init__(self, vars, coords, attrs, dropped=(), owner=None):
        self.vars, self.coords, self.attrs, self.dropped, self.owner = vars, coords, attrs, tuple(dropped), owner

    def repl(self, **kw):
        d = dict(vars=self.vars, coords=self.coords, attrs=self.attrs, dropped=self.dropped, owner=self.owner)
        d.update(kw)
        return HDs(**d)


class St:
    """one store: forall (iv,ext) in qs, if guard: A[points] = value"""
    __slots__ = ("qs", "guard", "points", "value", "where")

    def __init__(self, qs, guard, points, value, where):
        self.qs, self.guard, self.points, self.value, self.where = tuple(qs), guard, tuple(points), value, where

    def __repr__(self):
        return "St(%s %s %s := %s)" % ([("%%%d" % q, e) for q, e in self.qs], self.guard, self.points, self.value)


class AlwaysRaises(Exception):
    def __init__(self, what, where):
        self.what, self.where = what, where
