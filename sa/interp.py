"""Flow sensitive abstract interpreter: Python (and translated Fortran) syntax
trees -> value graphs in the domain of alg.py.

No input is ever chosen and no loop with a symbolic bound is unrolled: a
function is traversed once, branches are merged into gated (`ite`) values,
loops become binders (sums, quantified stores, maps or recurrences).
"""
import ast
import copy
import os
import itertools
import alg
from values import *


ZERO_P = const(0)


class Unsupported(Exception):
    pass


class Outcome:
    """result of a statement list"""
    __slots__ = ("nxt", "ret", "brk", "cont")

    def __init__(self):
        self.nxt = None       # (cond, heap)
        self.ret = []         # (cond, value, heap)
        self.brk = []         # (cond, heap)
        self.cont = []        # (cond, heap)


class LoopCtx:
    __slots__ = ("changed", "marks")

    def __init__(self, changed, marks):
        self.changed, self.marks = changed, marks


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.env = None


MAXDEPTH = 40


class Interp:
    def __init__(self, root, pkg="VolterraBasis"):
        self.root = root
        self.pkg = pkg
        self.mods = {}
        self.heap = {}
        self._ids = itertools.count(1)
        self.events = []         # (kind, detail, where, pc)
        self.raises = []         # (pc, what, where)
        self.pc = []
        self.loops = []
        self.depth = 0
        self.where = ("?", 0)
        self.fnstack = []
        self.notes = set()
        self.called = set()
        self.fortran = None
        self.iters = set()       # lists that stand for iterators
        self.instdict = {}       # dictionaries that are the attributes of an instance
        self.taint = None        # why the state of objects may be out of date
        self.narrow = set()      # buffers kept in a narrower type than their values
        self.hooks = {}          # qualified function name -> python callable(interp, args, kwargs)
        self.index_hook = None
        self.budget = 400000
        import models
        self.models = models

    # ------------------------------------------------------------------ heap
    def new(self, obj):
        i = next(self._ids)
        self.heap[i] = obj
        return i

    def ref(self, obj):
        return Ref(self.new(obj))

    def h(self, ref):
        return self.heap[ref.id]

    def fork(self):
        return dict(self.heap)

    # --------------------------------------------------------------- modules
    def module(self, name):
        """package module by dotted name relative to the package ('' = package)"""
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.root, self.pkg, *[p for p in name.split(".") if p])
        path = None
        if os.path.isdir(base):
            path = os.path.join(base, "__init__.py")
        elif os.path.exists(base + ".py"):
            path = base + ".py"
        if path is None or not os.path.exists(path):
            return None
        src = open(path, encoding="utf-8").read()
        tree = ast.parse(src, path)
        m = Module(name, path, tree, src)
        m.ispkg = path.endswith("__init__.py")
        self.mods[name] = m
        m.env = self.new(HEnv({"__name__": K(self.pkg + ("." + name if name else ""))}))
        saved = (self.pc, self.loops, self.where)
        self.pc, self.loops = [], []
        try:
            for st in tree.body:
                try:
                    self.exec_block([st], m.env, m, None)
                except (Unsupported, AlwaysRaises) as e:
                    self.notes.add("module %s: %s" % (name, e))
        finally:
            self.pc, self.loops, self.where = saved
        return m

    def modattr(self, mod, attr):
        d = self.heap[mod.env].d
        if attr in d:
            return d[attr]
        if mod.ispkg:
            sub = self.module((mod.name + "." if mod.name else "") + attr)
            if sub is not None:
                return Opq("module:" + sub.name, hook=("module", sub))
        return None

    def lookup(self, modname, qual):
        """value of a top level definition, or None ('Class.method' allowed)"""
        m = self.module(modname)
        if m is None:
            return None
        parts = qual.split(".")
        v = self.modattr(m, parts[0])
        for p in parts[1:]:
            if isinstance(v, Cls):
                v = self.class_attr(v, p)
            else:
                return None
        return v

    # ----------------------------------------------------------- environments
    def env_get(self, envid, name):
        e = envid
        while e is not None:
            o = self.heap[e]
            if name in o.d:
                return o.d[name]
            e = o.parent
        return None

    def env_set(self, envid, name, v):
        o = self.heap[envid]
        d = dict(o.d)
        d[name] = v
        self.heap[envid] = HEnv(d, o.parent)

    # -------------------------------------------------------------- buffers
    def mkbuf(self, t, owner=None):
        """allocate a buffer holding tensor t (with body); returns view T"""
        t = self.d(t)
        b = HBuf([a.ext for a in t.axes], [a.v for a in t.axes], t.body, (), owner, fresh_iv())
        i = self.new(b)
        if t.name == "@f32":
            self.narrow.add(i)
            t = T(t.axes, t.body, t.xr, t.coords)
        axes = [a.clone() for a in t.axes]
        return T(axes, None, t.xr, t.coords, i, tuple(a.p() for a in axes), t.name)

    def d(self, t):
        """dereference: tensor with body"""
        if isinstance(t, T):
            if t.buf is None:
                return t
            return T(t.axes, self.read_buf(t.buf, t.bidx), t.xr, t.coords, None, None, t.name)
        return t

    def changed_ctx(self, buf):
        for c in reversed(self.loops):
            if buf in c.changed:
                return c
        return None

    def read_buf(self, buf, idx):
        hb = self.heap[buf]
        if hb.stores:
            idx = tuple(ZERO_P if self.unit_iv(p) else p for p in idx)
        ctx = self.changed_ctx(buf)
        stores = hb.stores
        lo = 0
        if ctx is not None:
            lo = min(ctx.marks.get(buf, 0), len(stores))
        k = len(stores) - 1
        pend = []
        kk = k

        def wrap(v):
            if isinstance(v, Cond):
                v = mk_ite(v, const(1), const(0))
            for c, w in reversed(pend):
                v = mk_ite(c, w, v)
            return v
        while k >= lo:
            r, val = self.match_store(stores[k], idx)
            if r == "yes":
                return wrap(val) if pend else val
            if r == "cond" and len(pend) < 80:
                pend.append(val)
                k -= 1
                continue
            if r in ("maybe", "cond"):
                break
            k -= 1
        if k < lo and pend and (ctx is None or lo > 0 or True):
            if ctx is not None:
                return wrap(ap("@self", (iv(hb.selfid),), idx))
            if hb.init is not None:
                return wrap(subst(hb.init, dict(zip(hb.ivs, idx))))
        if pend:
            k = kk
            while k >= lo:
                if self.match_store(stores[k], idx)[0] != "no":
                    break
                k -= 1
        if ctx is not None:
            tag = k - lo + 1
            return ap("@self", (iv(hb.selfid),) + ((const(tag),) if tag else ()), idx)
        if k < 0:
            if hb.init is None:
                return ap("@uninit", (), idx)
            return subst(hb.init, dict(zip(hb.ivs, idx)))
        if isinstance(hb.init, Cond):
            return unk("boolean buffer with stores")
        return self.arr_elem(hb, idx)

    @staticmethod
    def unit_iv(p):
        a = as_atom(p)
        if a is None or a.kind != "iv":
            return False
        b = Bounds.iv.get(a.name)
        return b is not None and b[0] == const(0) and b[1] == const(1)

    def arr_elem(self, hb, idx):
        init = mk_lam(hb.ivs, hb.exts, hb.init) if hb.init is not None else None
        sts = [(list(s.qs), s.guard, s.points, s.value, s.where) for s in hb.stores]
        lam = mk_arr_def(hb.exts, init, sts, hb.selfid)
        return mk_arrel(lam, idx)

    def match_store(self, st, idx):
        sol = {}
        qids = {q: e for q, e in st.qs}
        pend = list(zip(st.points, idx))
        maybe = False
        conds = []
        progress = True
        while pend and progress:
            progress = False
            rest = []
            for pt, ix in pend:
                d = subst(pt, sol) if sol else pt
                un = [q for q in qids if q not in sol and q in d.fv]
                if not un:
                    df = d - ix
                    progress = True
                    if df.iszero():
                        continue
                    if prove_neg(df) is True or prove_neg(-df) is True:
                        return "no", None
                    conds.append(c_eq(d, ix))
                    continue
                if len(un) == 1:
                    lin = self._lin(d, un[0])
                    if lin is not None and lin[0] in (1, -1):
                        sol[un[0]] = (ix - lin[1]) * const(1 / lin[0])
                        progress = True
                        continue
                rest.append((pt, ix))
            pend = rest
        if pend:
            maybe = True
        for q, e in st.qs:
            if q in sol:
                v = sol[q]
                ee = subst(e, sol)
                a, b = prove_neg(v), prove_neg(v - ee)
                if a is True or b is False:
                    return "no", None
                if a is not False:
                    conds.append(c_le(const(0), v))
                if b is not True:
                    conds.append(c_lt(v, ee))
            else:
                if q in st.value.fv if isinstance(st.value, Node) else False:
                    maybe = True
                elif prove_neg(-e) is not True:
                    maybe = True
        if maybe:
            return "maybe", None
        g = subst(st.guard, sol)
        if g.op == "false":
            return "no", None
        if g.op != "true":
            conds.append(g)
        val = subst(st.value, sol)
        if not conds:
            return "yes", val
        c = c_and(*conds)
        if c.op == "false":
            return "no", None
        if c.op == "true":
            return "yes", val
        if any(a.kind == "ap" and a.name == "@self" or a.kind == "unk" for a in walk(val)) or any(a.kind == "ap" and a.name == "@self" for a in walk(c)):
            return "maybe", None
        return "cond", (c, val)

    @staticmethod
    def _lin(p, i):
        c = Fraction(0)
        rest = {}
        for m, cc in p.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "iv" and m[0][0].name == i:
                c = cc
            elif any(i in a.fv for a, _ in m):
                return None
            else:
                rest[m] = cc
        return (c, P(rest)) if c else None

    def store(self, view, value, guard=TRUE):
        """view[...] = value  (view: T with buffer; value tensor)"""
        hb = self.heap[view.buf]
        if hb.owner:
            self.event("mutate", hb.owner)
        val = self.d(self.num(value))
        tops = self.models.tops
        axes, bodies = tops.align_to(self, view, val)
        body = bodies
        qs, points = [], list(view.bidx)
        mp = {}
        for a in view.axes:
            if a.ext == const(1):
                mp[a.v] = const(0)
            else:
                qs.append((a.v, a.ext))
        if mp:
            points = [subst(p, mp) for p in points]
            body = subst(body, mp)
        # fresh quantifier ids
        ren = {}
        nq = []
        for v, e in qs:
            nv = fresh_iv()
            Bounds.iv[nv] = (const(0), e)
            ren[v] = iv(nv)
            nq.append((nv, e))
        points = [subst(p, ren) for p in points]
        body = subst(body, ren)
        if isinstance(body, Cond):
            body = mk_ite(body, const(1), const(0))
        st = St(nq, guard, points, body, self.where)
        if self.changed_ctx(view.buf) is None and self.covers(hb, st):
            # complete overwrite
            solve = {}
            for p, hv in zip(st.points, hb.ivs):
                (at,) = [as_atom(p)]
                if at is not None and at.kind == "iv":
                    solve[at.name] = iv(hv)
            self.heap[view.buf] = hb.repl(init=subst(st.value, solve), stores=())
            return
        self.heap[view.buf] = hb.repl(stores=hb.stores + (st,))

    def covers(self, hb, st):
        if st.guard.op != "true":
            return False
        qd = dict(st.qs)
        seen = set()
        for p, e in zip(st.points, hb.exts):
            at = as_atom(p)
            if at is None or at.kind != "iv" or at.name not in qd or at.name in seen:
                if e == const(1) and p == const(0):
                    continue
                return False
            seen.add(at.name)
            if qd[at.name] != e:
                return False
        return seen == set(qd)

    def event(self, kind, detail):
        self.events.append((kind, detail, self.where, list(self.pc), self.fnstack[-1] if self.fnstack else "?"))

    # -------------------------------------------------------------- coercions
    def num(self, v):
        """value -> T"""
        if isinstance(v, T):
            return v
        if isinstance(v, K):
            if isinstance(v.v, complex):
                if v.v == 0 and getattr(self, "track_complex", False):
                    return S(mk_ap("complex", (const(0),)))
                return S(topoly(v.v.real) + topoly(v.v.imag) * sym("I"))
            return S(unk("numeric use of %r" % (v.v,)))
        if isinstance(v, Opq):
            if v.hook and v.hook[0] == "num":
                return v.hook[1]
            return S(sym(v.path))
        if isinstance(v, Phi):
            return self.merge_val(v.c, self.num(v.a), self.num(v.b))
        if isinstance(v, (Tup, Ref, Seq)):
            r = self.models.to_array(self, v)
            if r is not None:
                return r
        if isinstance(v, Unk):
            return S(unk(v.why))
        return S(unk("numeric use of %s" % type(v).__name__))

    def sc(self, v):
        """value -> scalar P"""
        t = self.d(self.num(v))
        if t.axes:
            if all(a.ext == const(1) for a in t.axes):
                b = subst(t.body, {a.v: const(0) for a in t.axes})
            else:
                return unk("scalar use of array")
        else:
            b = t.body
        if isinstance(b, Cond):
            return mk_ite(b, const(1), const(0))
        return b

    def truth(self, v):
        """value -> Cond"""
        if isinstance(v, T):
            t = self.d(v)
            b = t.body
            if t.axes:
                if all(a.ext == const(1) for a in t.axes):
                    b = subst(b, {a.v: const(0) for a in t.axes})
                else:
                    return Cond("unk", ("truth of array#%d" % next(self._ids),))
            if isinstance(b, Cond):
                return b
            return c_not(c_eq(b, const(0)))
        if isinstance(v, K):
            return TRUE if v.v else FALSE
        if isinstance(v, Tup):
            return TRUE if v.items else FALSE
        if isinstance(v, (Fn, Bound, Meth, Cls, Ext, Partial, FnObj)):
            return TRUE
        if isinstance(v, Phi):
            return c_or(c_and(v.c, self.truth(v.a)), c_and(c_not(v.c), self.truth(v.b)))
        if isinstance(v, Opq):
            return Cond("truthy", (v.path,))
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HList):
                n = self.seqlen(v)
                return c_not(c_eq(n, const(0)))
            if isinstance(o, HDict):
                return TRUE if o.items else FALSE
            return TRUE
        if isinstance(v, Seq):
            return c_not(c_eq(v.n, const(0)))
        return Cond("unk", ("truth#%d" % next(self._ids),))

    # ---------------------------------------------------------------- merging
    def merge_val(self, c, a, b):
        if a is b or c.op == "true":
            return a
        if c.op == "false":
            return b
        if isinstance(a, T) and isinstance(b, T):
            if a.buf is not None and a.buf == b.buf and len(a.axes) == len(b.axes):
                ren = {y.v: x.p() for x, y in zip(a.axes, b.axes)}
                if tuple(subst(p, ren) for p in b.bidx) == tuple(a.bidx):
                    return a
            da, db = self.d(a), self.d(b)
            if len(da.axes) == len(db.axes) and da.dims() == db.dims():
                ren = {y.v: x.p() for x, y in zip(da.axes, db.axes)}
                bb = subst(db.body, ren)
                exts_same = all(x.ext == subst(y.ext, ren) for x, y in zip(da.axes, db.axes))
                if isinstance(da.body, Cond) or isinstance(bb, Cond):
                    ca = da.body if isinstance(da.body, Cond) else c_not(c_eq(da.body, const(0)))
                    cb = bb if isinstance(bb, Cond) else c_not(c_eq(bb, const(0)))
                    body = c_or(c_and(c, ca), c_and(c_not(c), cb))
                else:
                    body = mk_ite(c, da.body, bb)
                if exts_same:
                    return T(da.axes, body, da.xr or db.xr, da.coords or db.coords)
                axes = []
                mp = {}
                for x, y in zip(da.axes, db.axes):
                    na = Ax(mk_ite(c, x.ext, subst(y.ext, ren)), x.label)
                    mp[x.v] = na.p()
                    axes.append(na)
                return T(axes, subst(body, mp), da.xr or db.xr, da.coords or db.coords)
            return Phi(c, a, b)
        if isinstance(a, K) and isinstance(b, K) and a.v == b.v and type(a.v) == type(b.v):
            return a
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], a.names, a.cls)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id == b.id:
            return a
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name == b.name:
            return a
        if isinstance(a, Fn) and isinstance(b, Fn) and a.node is b.node and a.env == b.env:
            return a
        if isinstance(a, Cls) and isinstance(b, Cls) and a.node is b.node:
            return a
        if isinstance(a, Opq) and isinstance(b, Opq) and a.path == b.path:
            return a
        if isinstance(a, Sl) and isinstance(b, Sl):
            return Sl(*[self.merge_val(c, x, y) for x, y in ((a.lo, b.lo), (a.hi, b.hi), (a.step, b.step))])
        return Phi(c, a, b)

    def merge_heaps(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = {}
        for i in h1.keys() | h2.keys():
            a, b = h1.get(i), h2.get(i)
            if a is b:
                out[i] = a
            elif a is None:
                out[i] = b
            elif b is None:
                out[i] = a
            else:
                # values are merged while both heaps are visible
                out[i] = None
        base1, base2 = h1, h2
        todo = [i for i, v in out.items() if v is None]
        for i in todo:
            out[i] = h1[i]
        saved = self.heap
        for i in todo:
            out[i] = self.merge_obj(c, h1[i], h2[i], h1, h2, out)
        self.heap = saved
        return out

    def _mv(self, c, a, b, h1, h2, out):
        """merge two values living in heaps h1/h2; dereferences in the right heap"""
        if a is b:
            return a
        if isinstance(a, T) and isinstance(b, T):
            if a.buf is not None and a.buf == b.buf:
                r = None
                if len(a.axes) == len(b.axes):
                    ren = {y.v: x.p() for x, y in zip(a.axes, b.axes)}
                    if tuple(subst(p, ren) for p in b.bidx) == tuple(a.bidx):
                        return a
            self.heap = h1
            da = self.d(a)
            self.heap = h2
            db = self.d(b)
            self.heap = out
            return self.merge_val(c, da, db)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self._mv(c, x, y, h1, h2, out) for x, y in zip(a.items, b.items)], a.names, a.cls)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.id != b.id and a.id in out and b.id in out:
            oa, ob = h1.get(a.id), h2.get(b.id)
            if type(oa) is type(ob) and not isinstance(oa, HInst) and oa is not None:
                m = self.merge_obj(c, oa, ob, h1, h2, out)
                if m is not oa and m is not None:
                    i = next(self._ids)
                    out[i] = m
                    return Ref(i)
        self.heap = out
        return self.merge_val(c, a, b)

    def merge_obj(self, c, a, b, h1, h2, out):
        mv = lambda x, y: self._mv(c, x, y, h1, h2, out)
        if type(a) is not type(b):
            return a
        if isinstance(a, HEnv):
            d = {}
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                x, y = a.d.get(k), b.d.get(k)
                if x is None:
                    d[k] = Phi(c, Unk("unbound"), y)
                elif y is None:
                    d[k] = Phi(c, x, Unk("unbound"))
                else:
                    d[k] = mv(x, y)
            return HEnv(d, a.parent)
        if isinstance(a, HList):
            if len(a.items) == len(b.items) and all(p[0] == q[0] == "i" for p, q in zip(a.items, b.items)):
                return HList([("i", mv(p[1], q[1])) for p, q in zip(a.items, b.items)], a.owner)
            n = 0
            while n < min(len(a.items), len(b.items)) and a.items[n] == b.items[n]:
                n += 1
            return HList(a.items[:n] + (("i", Unk("list of different length on two branches")),), a.owner)
        if isinstance(a, HDict):
            ka = [self.keystr(k) for k, _ in a.items]
            kb = [self.keystr(k) for k, _ in b.items]
            da, db = dict(zip(ka, a.items)), dict(zip(kb, b.items))
            res = []
            for k in ka + [k for k in kb if k not in da]:
                if k in da and k in db:
                    res.append((da[k][0], mv(da[k][1], db[k][1])))
                elif k in da:
                    res.append((da[k][0], Phi(c, da[k][1], Unk("missing key"))))
                else:
                    res.append((db[k][0], Phi(c, Unk("missing key"), db[k][1])))
            return HDict(res, a.owner)
        if isinstance(a, HInst):
            d = {}
            for k in list(a.attrs) + [k for k in b.attrs if k not in a.attrs]:
                x, y = a.attrs.get(k), b.attrs.get(k)
                if x is None:
                    d[k] = Phi(c, Unk("unset"), y)
                elif y is None:
                    d[k] = Phi(c, x, Unk("unset"))
                else:
                    d[k] = mv(x, y)
            return HInst(a.cls, d, a.owner)
        if isinstance(a, HDs):
            vs = {}
            for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
                x, y = a.vars.get(k), b.vars.get(k)
                if x is None:
                    vs[k] = Phi(c, Unk("unset"), y)
                elif y is None:
                    vs[k] = Phi(c, x, Unk("unset"))
                else:
                    vs[k] = mv(x, y)
            co = {}
            for k in list(a.coords) + [k for k in b.coords if k not in a.coords]:
                x, y = a.coords.get(k), b.coords.get(k)
                co[k] = mv(x, y) if x is not None and y is not None else (x if x is not None else y)
            at = mv(a.attrs, b.attrs) if a.attrs is not None and b.attrs is not None else a.attrs
            return HDs(vs, co, at, a.dropped if a.dropped == b.dropped else ("?",), a.owner)
        if isinstance(a, HBuf):
            if a.init is b.init or (isinstance(a.init, Node) and isinstance(b.init, Node) and type(a.init) == type(b.init) and a.init == b.init and a.ivs == b.ivs):
                n = 0
                while n < min(len(a.stores), len(b.stores)) and a.stores[n] is b.stores[n]:
                    n += 1
                sa, sb = a.stores[n:], b.stores[n:]
                out_st = list(a.stores[:n])
                used = set()
                for x in sa:
                    hit = None
                    for k, y in enumerate(sb):
                        if k in used:
                            continue
                        ren = self._same_region(x, y)
                        if ren is not None:
                            hit = (k, ren)
                            break
                    if hit and len(sa) == len(sb) == 1:
                        used.add(hit[0])
                        y = sb[hit[0]]
                        out_st.append(St(x.qs, x.guard, x.points, mk_ite(c, x.value, subst(y.value, hit[1])), x.where))
                    else:
                        out_st.append(St(x.qs, c_and(x.guard, c), x.points, x.value, x.where))
                nc = c_not(c)
                for k, y in enumerate(sb):
                    if k not in used:
                        out_st.append(St(y.qs, c_and(y.guard, nc), y.points, y.value, y.where))
                return a.repl(stores=tuple(out_st))
            # different initial contents: snapshot element-wise
            if not a.stores and not b.stores and a.init is not None and b.init is not None and len(a.exts) == len(b.exts):
                ren = {y: iv(x) for x, y in zip(a.ivs, b.ivs)}
                bi = subst(b.init, ren)
                if isinstance(a.init, P) and isinstance(bi, P):
                    return a.repl(init=mk_ite(c, a.init, bi))
            if a.init is not None and b.init is not None:
                # materialise both
                ids = [fresh_iv() for _ in a.exts]
                for i_, e_ in zip(ids, a.exts):
                    Bounds.iv[i_] = (const(0), e_)
                va = self.arr_elem(a, [iv(i) for i in ids]) if a.stores else subst(a.init, dict(zip(a.ivs, [iv(i) for i in ids])))
                vb = self.arr_elem(b, [iv(i) for i in ids]) if b.stores else subst(b.init, dict(zip(b.ivs, [iv(i) for i in ids])))
                if isinstance(va, P) and isinstance(vb, P):
                    return HBuf(a.exts, ids, mk_ite(c, va, vb), (), a.owner, fresh_iv())
            return a.repl(init=unk("buffer merge"), stores=())
        return a

    def _same_region(self, x, y):
        """renaming of y's quantifiers onto x's when both stores have the same region"""
        if x.guard != y.guard or len(x.points) != len(y.points) or len(x.qs) != len(y.qs):
            return None
        for perm in itertools.permutations(x.qs):
            ren = {q: iv(v) for (q, _), (v, _) in zip(y.qs, perm)}
            if all(subst(e, ren) == e2 for (_, e), (_, e2) in zip(y.qs, perm)) and all(subst(p, ren) == p2 for p, p2 in zip(y.points, x.points)):
                return ren
        return None

    # ------------------------------------------------------------- statements
    def loc(self, node, mod):
        self.where = (mod.path if mod else "<spec>", getattr(node, "lineno", 0))
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported("analysis budget exhausted")

    def exec_block(self, stmts, env, mod, cls):
        """returns Outcome; self.heap is the fallthrough heap if nxt is not None"""
        out = Outcome()
        cond = TRUE
        npush = 0
        try:
            for st in stmts:
                self.loc(st, mod)
                r = self.exec_stmt(st, env, mod, cls)
                if r is None:
                    continue
                for c, v, hp in r.ret:
                    out.ret.append((c_and(cond, c), v, hp))
                for c, hp in r.brk:
                    out.brk.append((c_and(cond, c), hp))
                for c, hp in r.cont:
                    out.cont.append((c_and(cond, c), hp))
                if r.nxt is None:
                    return out
                cond = c_and(cond, r.nxt[0])
                if r.nxt[0].op != "true":
                    self.pc.append(r.nxt[0])
                    npush += 1
                self.heap = r.nxt[1]
            out.nxt = (cond, self.heap)
            return out
        finally:
            for _ in range(npush):
                self.pc.pop()

    def exec_stmt(self, st, env, mod, cls):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(st).__name__)
        try:
            return m(st, env, mod, cls)
        except AlwaysRaises as e:
            self.raises.append((list(self.pc), e.what, e.where))
            return Outcome()

    def s_Expr(self, st, env, mod, cls):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, (ast.Yield, ast.YieldFrom)):
            raise Unsupported("yield")
        self.ev(st.value, env, mod)

    def s_Pass(self, st, env, mod, cls):
        return

    def s_Global(self, st, env, mod, cls):
        o = self.heap[env]
        d = dict(o.d)
        d["__globals__"] = K(tuple(st.names) + tuple((d["__globals__"].v if "__globals__" in d else ())))
        self.heap[env] = HEnv(d, o.parent)

    s_Nonlocal = s_Global

    def s_Import(self, st, env, mod, cls):
        for a in st.names:
            nm = a.name
            if nm.split(".")[0] == self.pkg:
                m = self.module(nm[len(self.pkg) + 1:])
                self.env_set(env, a.asname or nm.split(".")[0], Opq("module:" + m.name, hook=("module", m)) if m else Unk("import"))
                continue
            if a.asname:
                self.env_set(env, a.asname, Ext(nm))
            else:
                self.env_set(env, nm.split(".")[0], Ext(nm.split(".")[0]))

    def s_ImportFrom(self, st, env, mod, cls):
        if st.level or (st.module or "").split(".")[0] == self.pkg:
            if st.level:
                parts = mod.name.split(".") if mod.name else []
                up = st.level - (1 if mod.ispkg else 0)
                if not mod.ispkg:
                    up = st.level
                basep = parts[:len(parts) - up] if up else parts
                name = ".".join(basep + ([st.module] if st.module else []))
            else:
                name = ".".join((st.module or "").split(".")[1:])
            if name.split(".")[-1] == "fkernel":
                for a in st.names:
                    self.env_set(env, a.asname or a.name, Ext("fkernel." + a.name))
                return
            m = self.module(name)
            if m is None:
                for a in st.names:
                    self.env_set(env, a.asname or a.name, Unk("import %s" % name))
                return
            for a in st.names:
                if a.name == "*":
                    for k, v in self.heap[m.env].d.items():
                        if not k.startswith("_"):
                            self.env_set(env, k, v)
                    continue
                v = self.modattr(m, a.name)
                if v is None:
                    sub = self.module((name + "." if name else "") + a.name)
                    v = Opq("module:" + sub.name, hook=("module", sub)) if sub else Unk("import %s.%s" % (name, a.name))
                self.env_set(env, a.asname or a.name, v)
            return
        for a in st.names:
            self.env_set(env, a.asname or a.name, Ext((st.module or "") + "." + a.name))

    def s_FunctionDef(self, st, env, mod, cls):
        f = Fn(st, mod, env, cls)
        v = f
        for dec in reversed(st.decorator_list):
            dn = ast.unparse(dec)
            if dn in ("staticmethod", "classmethod", "property"):
                continue
            if dn.startswith("abstractmethod") or dn.endswith("wraps(func)"):
                continue
            v = Unk("decorated by %s" % dn)
        self.env_set(env, st.name, v)

    def s_ClassDef(self, st, env, mod, cls):
        self.env_set(env, st.name, Cls(st, mod, st.name))

    def s_Return(self, st, env, mod, cls):
        v = self.ev(st.value, env, mod) if st.value is not None else NONE
        o = Outcome()
        o.ret.append((TRUE, v, self.heap))
        return o

    def s_Break(self, st, env, mod, cls):
        o = Outcome()
        o.brk.append((TRUE, self.heap))
        return o

    def s_Continue(self, st, env, mod, cls):
        o = Outcome()
        o.cont.append((TRUE, self.heap))
        return o

    def s_Raise(self, st, env, mod, cls):
        what = ast.unparse(st.exc)[:80] if st.exc is not None else "re-raise"
        raise AlwaysRaises(what, self.where)

    def s_Assert(self, st, env, mod, cls):
        c = self.truth(self.ev(st.test, env, mod))
        if c.op == "false":
            raise AlwaysRaises("AssertionError", self.where)
        if c.op != "true":
            self.raises.append((self.pc + [c_not(c)], "AssertionError", self.where))
            o = Outcome()
            o.nxt = (c, self.heap)
            return o

    def s_Delete(self, st, env, mod, cls):
        for t in st.targets:
            if isinstance(t, ast.Name):
                o = self.heap[env]
                d = {k: v for k, v in o.d.items() if k != t.id}
                self.heap[env] = HEnv(d, o.parent)
            elif isinstance(t, ast.Attribute):
                r = self.ev(t.value, env, mod)
                if isinstance(r, Ref) and isinstance(self.h(r), HInst):
                    o = self.h(r)
                    self.heap[r.id] = HInst(o.cls, {k: v for k, v in o.attrs.items() if k != t.attr}, o.owner)
            else:
                raise Unsupported("del")

    def s_With(self, st, env, mod, cls):
        for it in st.items:
            v = self.ev(it.context_expr, env, mod)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, Unk("with"), env, mod)
        return self.exec_block(st.body, env, mod, cls)

    def s_Try(self, st, env, mod, cls):
        n0 = len(self.raises)
        h0 = self.heap
        self.heap = self.fork()
        o = self.exec_block(st.body, env, mod, cls)
        if len(self.raises) > n0 and st.handlers:
            # handlers may run: approximate by their effect under an unknown condition
            c = Cond("unk", ("exception#%d" % next(self._ids),))
            rc = [c_and(*r[0][len(self.pc):]) if r[0][len(self.pc):] else TRUE for r in self.raises[n0:]]
            cc = c_or(*rc)
            if cc.op != "true" and not cc.unk:
                c = cc
            elif o.nxt is None and not o.ret:
                c = TRUE
            self.heap = dict(h0)
            ho = self.exec_block(st.handlers[0].body, env, mod, cls)
            return self.merge_outcomes(c, ho, o)
        if o.nxt is not None:
            self.heap = o.nxt[1]
            if st.orelse or st.finalbody:
                o2 = self.exec_block(list(st.orelse) + list(st.finalbody), env, mod, cls)
                o2.ret = o.ret + o2.ret
                return o2
        return o

    def s_If(self, st, env, mod, cls):
        v = self.ev(st.test, env, mod)
        c = self.truth(v)
        facts = [(x, True) for x in self.pc]
        t = truth(c, facts)
        if t is True or c.op == "true":
            return self.exec_block(st.body, env, mod, cls)
        if t is False or c.op == "false":
            return self.exec_block(st.orelse, env, mod, cls)
        h0 = self.heap
        self.heap = dict(h0)
        self.pc.append(c)
        a = self.exec_block(st.body, env, mod, cls)
        self.pc.pop()
        self.heap = dict(h0)
        self.pc.append(c_not(c))
        b = self.exec_block(st.orelse, env, mod, cls)
        self.pc.pop()
        return self.merge_outcomes(c, a, b)

    def merge_outcomes(self, c, a, b):
        o = Outcome()
        nc = c_not(c)
        for src, g in ((a, c), (b, nc)):
            for cc, v, hp in src.ret:
                o.ret.append((c_and(g, cc), v, hp))
            for cc, hp in src.brk:
                o.brk.append((c_and(g, cc), hp))
            for cc, hp in src.cont:
                o.cont.append((c_and(g, cc), hp))
        if a.nxt is not None and b.nxt is not None:
            hp = self.merge_heaps(c, a.nxt[1], b.nxt[1])
            o.nxt = (c_or(c_and(c, a.nxt[0]), c_and(nc, b.nxt[0])), hp)
        elif a.nxt is not None:
            o.nxt = (c_and(c, a.nxt[0]), a.nxt[1])
        elif b.nxt is not None:
            o.nxt = (c_and(nc, b.nxt[0]), b.nxt[1])
        return o

    def s_Assign(self, st, env, mod, cls):
        v = self.ev(st.value, env, mod)
        for t in st.targets:
            self.assign(t, v, env, mod)

    def s_AnnAssign(self, st, env, mod, cls):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env, mod), env, mod)

    def s_AugAssign(self, st, env, mod, cls):
        tgt = st.target
        if isinstance(tgt, ast.Name):
            cur = self.ev(ast.copy_location(ast.Name(tgt.id, ast.Load()), tgt), env, mod)
            new = self.inplace(cur, st.op, self.ev(st.value, env, mod))
            self.assign(tgt, new, env, mod, aug=True)
        elif isinstance(tgt, ast.Attribute):
            obj = self.ev(tgt.value, env, mod)
            cur = self.getattr(obj, tgt.attr)
            new = self.inplace(cur, st.op, self.ev(st.value, env, mod))
            self.setattr(obj, tgt.attr, new)
        elif isinstance(tgt, ast.Subscript):
            obj = self.ev(tgt.value, env, mod)
            idx = self.ev(tgt.slice, env, mod)
            cur = self.getitem(obj, idx)
            rhs = self.ev(st.value, env, mod)
            if isinstance(cur, T) and cur.ndim and isinstance(obj, Ref):
                new = self.inplace(cur, st.op, rhs)
            else:
                new = self.binop(st.op, self.d(cur) if isinstance(cur, T) else cur, rhs)
            self.setitem(obj, idx, new)
        else:
            raise Unsupported("augmented assignment")

    def inplace(self, cur, op, rhs):
        """cur op= rhs; arrays are updated in place"""
        if isinstance(cur, T) and cur.buf is not None and cur.ndim and not cur.xr:
            new = self.binop(op, self.d(cur), rhs)
            self.store(cur, new)
            return cur
        if isinstance(cur, T) and cur.buf is not None and cur.ndim and cur.xr:
            new = self.binop(op, self.d(cur), rhs)
            if isinstance(new, T) and len(new.axes) == len(cur.axes):
                self.store(cur, new)
                return cur
            return new
        if isinstance(cur, Ref) and isinstance(self.h(cur), HList) and isinstance(op, ast.Add):
            self.models.list_extend(self, cur, rhs)
            return cur
        return self.binop(op, cur, rhs)

    def bindable(self, v):
        """arrays get a buffer when they are bound to a name, so that aliases share it"""
        if isinstance(v, T) and v.ndim and v.buf is None:
            return self.mkbuf(v)
        return v

    def assign(self, t, v, env, mod, aug=False):
        if isinstance(t, ast.Name):
            o = self.heap[env]
            e = env
            if "__globals__" in o.d and t.id in o.d["__globals__"].v:
                e = o.parent
                while e is not None and t.id not in self.heap[e].d and self.heap[e].parent is not None:
                    e = self.heap[e].parent
                self.event("global-write", t.id)
            self.env_set(e, t.id, self.bindable(v))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, t.elts)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    x = x.value
                self.assign(x, y, env, mod)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env, mod), t.attr, self.bindable(v))
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, env, mod)
            idx = self.ev(t.slice, env, mod)
            self.setitem(obj, idx, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, mod)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, elts):
        n = len(elts)
        stars = [k for k, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if isinstance(v, Unk):
            return [v] * n
        if isinstance(v, Phi):
            return self.split(v.c, lambda: self.unpack(v.a, elts), lambda: self.unpack(v.b, elts), lambda c, a, b: [self.merge_val(c, x, y) for x, y in zip(a, b)])
        it = self.iterate(v)
        if it[0] == "c":
            items = it[1]
            if stars:
                k = stars[0]
                tail = n - k - 1
                mid = items[k:len(items) - tail]
                return list(items[:k]) + [self.ref(HList([("i", x) for x in mid]))] + list(items[len(items) - tail:] if tail else [])
            if len(items) != n:
                raise AlwaysRaises("ValueError: unpack %d into %d" % (len(items), n), self.where)
            return items
        if stars:
            raise Unsupported("starred unpack of symbolic sequence")
        return [it[2](const(k)) for k in range(n)]

    # ------------------------------------------------------------------ loops
    def iterate(self, v):
        """('c', [values]) or ('s', n P, at(P)->value)"""
        if isinstance(v, Tup):
            return ("c", list(v.items))
        if isinstance(v, K) and isinstance(v.v, str):
            return ("c", [K(ch) for ch in v.v])
        if isinstance(v, Seq):
            k = v.n.intval()
            if k is not None and k <= 12:
                return ("c", [v.at(const(i)) for i in range(k)])
            return ("s", v.n, v.at)
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HList):
                if all(x[0] == "i" for x in o.items):
                    if v.id in self.iters:   # an iterator is used up
                        self.heap[v.id] = HList([], o.owner)
                    return ("c", [x[1] for x in o.items])
                if len(o.items) == 1:
                    _, i, n, val = o.items[0]
                    return ("s", n, lambda p, i=i, val=val: self.subst_val(val, {i: p}))
                raise Unsupported("iteration over mixed list")
            if isinstance(o, HDict):
                return ("c", [k for k, _ in o.items])
            if isinstance(o, HDs):
                return ("c", [K(k) for k in o.vars])
            if isinstance(o, HInst):
                f = self.class_attr(o.cls, "__iter__")
                if f is not None:
                    return self.iterate(self.call(Bound(f, v), [], {}))
        if isinstance(v, T):
            if v.ndim:
                n = v.axes[0].ext
                at = lambda p: self.getitem(v, S(p))
                k = n.intval()
                if k is not None and k <= 12:
                    return ("c", [at(const(i)) for i in range(k)])
                return ("s", n, at)
        if isinstance(v, Opq):
            r = self.models.opq_iter(self, v)
            if r is not None:
                return r
        if isinstance(v, Phi):
            raise Unsupported("iteration over alternative values")
        raise Unsupported("iteration over %s" % type(v).__name__ + (": " + v.why if isinstance(v, Unk) else ""))

    def subst_val(self, v, mp):
        if not mp:
            return v
        if isinstance(v, T):
            t = self.d(v)
            axes = []
            ren = {}
            for a in t.axes:
                na = Ax(subst(a.ext, mp), a.label)
                ren[a.v] = na.p()
                axes.append(na)
            body = subst(subst(t.body, ren), mp)
            return T(axes, body, t.xr, {k: self.subst_val(c, mp) for k, c in t.coords.items()})
        if isinstance(v, Tup):
            return Tup([self.subst_val(x, mp) for x in v.items], v.names, v.cls)
        if isinstance(v, Phi):
            return self.merge_val(subst(v.c, mp), self.subst_val(v.a, mp), self.subst_val(v.b, mp))
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HDs):
                return self.ref(HDs({k: self.subst_val(x, mp) for k, x in o.vars.items()}, {k: self.subst_val(x, mp) for k, x in o.coords.items()}, self.subst_val(o.attrs, mp), o.dropped, o.owner))
            if isinstance(o, HDict):
                return self.ref(HDict([(k, self.subst_val(x, mp)) for k, x in o.items], o.owner))
            if isinstance(o, HList):
                return self.ref(HList([("i", self.subst_val(x[1], mp)) if x[0] == "i" else ("m", x[1], subst(x[2], mp), self.subst_val(x[3], mp)) for x in o.items], o.owner))
            return v
        if isinstance(v, FnObj):
            return FnObj(tuple(subst(x, mp) if isinstance(x, Node) else x for x in v.key), v.order)
        if isinstance(v, Partial):
            return Partial(self.subst_val(v.fn, mp), [self.subst_val(x, mp) for x in v.args], {k: self.subst_val(x, mp) for k, x in v.kw.items()})
        if isinstance(v, Seq):
            return Seq(subst(v.n, mp), lambda p, v=v: self.subst_val(v.at(p), mp), v.name)
        if isinstance(v, Sl):
            return Sl(*[self.subst_val(x, mp) for x in (v.lo, v.hi, v.step)])
        return v

    def s_For(self, st, env, mod, cls):
        it = self.iterate(self.ev(st.iter, env, mod))
        if it[0] == "c":
            return self.concrete_loop(it[1], st, env, mod, cls)
        return self.sym_loop(it[1], it[2], st, env, mod, cls)

    def concrete_loop(self, vals, st, env, mod, cls):
        out = Outcome()
        cond = TRUE
        brk = []
        for v in vals:
            self.assign(st.target, v, env, mod)
            r = self.exec_block(st.body, env, mod, cls)
            for c, val, hp in r.ret:
                out.ret.append((c_and(cond, c), val, hp))
            for c, hp in r.brk:
                brk.append((c_and(cond, c), hp))
            nx = [(c, hp) for c, hp in r.cont]
            if r.nxt is not None:
                nx.append(r.nxt)
            if not nx:
                cond = FALSE
                break
            hp = nx[-1][1]
            cc = nx[-1][0]
            for c, h2 in reversed(nx[:-1]):
                hp = self.merge_heaps(c, h2, hp)
                cc = c_or(c, cc)
            self.heap = hp
            cond = c_and(cond, cc)
        fin = []
        if cond.op != "false":
            h0 = self.heap
            if st.orelse:
                r = self.exec_block(st.orelse, env, mod, cls)
                out.ret += [(c_and(cond, c), v, hp) for c, v, hp in r.ret]
                if r.nxt is not None:
                    fin.append((cond, r.nxt[1]))
            else:
                fin.append((cond, h0))
        fin = brk + fin
        if fin:
            hp = fin[-1][1]
            cc = fin[-1][0]
            for c, h2 in reversed(fin[:-1]):
                hp = self.merge_heaps(c, h2, hp)
                cc = c_or(c, cc)
            out.nxt = (cc, hp)
            self.heap = hp
        return out

    def s_While(self, st, env, mod, cls):
        conv = self.while_to_for(st, env, mod)
        if conv is not None:
            return conv(cls)
        # constant false
        c = self.truth(self.ev(st.test, env, mod))
        if c.op == "false":
            return self.exec_block(st.orelse, env, mod, cls)
        # concrete unrolling as long as the test folds to a constant
        n = 0
        while c.op == "true" and n < 16:
            r = self.exec_block(st.body, env, mod, cls)
            if r.ret or r.brk or r.cont or r.nxt is None:
                raise Unsupported("while with exits")
            self.heap = r.nxt[1]
            c = self.truth(self.ev(st.test, env, mod))
            n += 1
        if c.op == "false":
            return
        raise Unsupported("while loop")

    _pinc = {}

    def plain_increments(self, st, name):
        """i = i + k as i += k; uses after the increment refer to i + k"""
        key = (id(st), name)
        if key in self._pinc:
            return self._pinc[key][1]
        body, inc = [], None
        for s in st.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name \
                    and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, (ast.Add, ast.Sub)):
                l, r = s.value.left, s.value.right
                if isinstance(r, ast.Name) and r.id == name and isinstance(s.value.op, ast.Add):
                    l, r = r, l
                if isinstance(l, ast.Name) and l.id == name and isinstance(r, ast.Constant):
                    s = ast.copy_location(ast.AugAssign(ast.copy_location(ast.Name(name, ast.Store()), s), s.value.op, r), s)
            if inc is None and isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name and isinstance(s.value, ast.Constant):
                inc = s
            elif inc is not None and any(isinstance(n, ast.Name) and n.id == name for n in ast.walk(s)):
                if any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) for n in ast.walk(s)):
                    self._pinc[key] = (st, st)
                    return st
                inc_ = inc

                class Sub(ast.NodeTransformer):
                    def visit_Name(self, n):
                        if n.id == name:
                            return ast.copy_location(ast.BinOp(ast.copy_location(ast.Name(name, ast.Load()), n), inc_.op, inc_.value), n)
                        return n
                s = ast.fix_missing_locations(Sub().visit(copy.deepcopy(s)))
            body.append(s)
        if inc is None or body == st.body:
            r = st
        else:
            # the increment moves to the end
            body.remove(inc)
            r = ast.copy_location(ast.While(st.test, body + [inc], st.orelse), st)
        self._pinc[key] = (st, r)
        return r

    def while_to_for(self, st, env, mod):
        """while i < n: body; i += s    ->   counted loop"""
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name)):
            return None
        name = t.left.id
        if not st.body:
            return None
        st = self.plain_increments(st, name)
        incs = [k for k, s in enumerate(st.body) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name]
        if len(incs) != 1:
            return None
        inc = st.body[incs[0]]
        after = st.body[incs[0] + 1:]
        for s in st.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Continue):
                    return None
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) and n is not inc.target:
                    return None
        for s in after:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == name:
                    return None
        if not isinstance(inc.op, (ast.Add, ast.Sub)):
            return None
        start = self.env_get(env, name)
        stp = self.ev(inc.value, env, mod)
        bound = self.ev(t.comparators[0], env, mod)
        if not isinstance(start, T) or not isinstance(stp, T):
            return None
        sp = self.sc(stp)
        if isinstance(inc.op, ast.Sub):
            sp = -sp
        step = sp.intval()
        lo, hi = self.sc(start), self.sc(bound)
        if step is None or step == 0:
            return None
        op = t.ops[0]
        if isinstance(op, ast.LtE) and step > 0:
            hi = hi + 1
        elif isinstance(op, ast.GtE) and step < 0:
            hi = hi - 1
        elif (isinstance(op, ast.Lt) and step > 0) or (isinstance(op, ast.Gt) and step < 0) or (isinstance(op, ast.NotEq) and abs(step) == 1):
            pass
        else:
            return None
        body = [s for k, s in enumerate(st.body) if k != incs[0]]

        def run(cls):
            seq = self.models.mkrange(self, lo, hi, const(step))
            f = ast.For(target=ast.Name(name, ast.Store()), iter=ast.Constant(0), body=body or [ast.Pass()], orelse=st.orelse)
            ast.copy_location(f, st)
            ast.fix_missing_locations(f)
            it = self.iterate(seq)
            r = self.concrete_loop(it[1], f, env, mod, cls) if it[0] == "c" else self.sym_loop(it[1], it[2], f, env, mod, cls)
            if r is None or r.nxt is not None:
                n = seq.n if isinstance(seq, Seq) else const(len(it[1]))
                self.env_set(env, name, S(lo + n * step))
                if r is not None:
                    r.nxt = (r.nxt[0], self.heap)
            return r
        return run

    # symbolic loop --------------------------------------------------------
    def same_val(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, T):
            if a.buf is not None or b.buf is not None:
                return a.buf == b.buf and a.bidx == b.bidx
            return len(a.axes) == 0 and len(b.axes) == 0 and a.body == b.body
        if isinstance(a, K):
            return a.v == b.v
        if isinstance(a, Ref):
            return a.id == b.id
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(self.same_val(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Ext):
            return a.name == b.name
        if isinstance(a, Fn):
            return a.node is b.node
        if isinstance(a, Opq):
            return a.path == b.path
        return False

    def diff_heap(self, h0, h1):
        """changed locations between two heaps (only objects of h0)"""
        locs, bufs, lists = [], [], []
        for i, a in h0.items():
            b = h1.get(i)
            if a is b or b is None:
                continue
            if isinstance(a, HEnv):
                for k, v in b.d.items():
                    if k in a.d and not self.same_val(a.d[k], v):
                        locs.append(("env", i, k))
            elif isinstance(a, HInst):
                for k, v in b.attrs.items():
                    if k in a.attrs and not self.same_val(a.attrs[k], v):
                        locs.append(("attr", i, k))
            elif isinstance(a, HList):
                n = len(a.items)
                if len(b.items) < n:
                    raise Unsupported("list shrinks in loop")
                for k in range(n):
                    if a.items[k] is not b.items[k] and not (a.items[k][0] == "i" == b.items[k][0] and self.same_val(a.items[k][1], b.items[k][1])):
                        if a.items[k][0] != "i" or b.items[k][0] != "i":
                            raise Unsupported("list element of mapped part changes in loop")
                        locs.append(("item", i, k))
                if len(b.items) > n:
                    lists.append(i)
            elif isinstance(a, HDict):
                da = {self.keystr(k): v for k, v in a.items}
                for k, v in b.items:
                    ks = self.keystr(k)
                    if ks in da and not self.same_val(da[ks], v):
                        locs.append(("dict", i, ks))
            elif isinstance(a, HDs):
                for k, v in b.vars.items():
                    if k in a.vars and not self.same_val(a.vars[k], v):
                        locs.append(("dsvar", i, k))
            elif isinstance(a, HBuf):
                if a.stores != b.stores or a.init is not b.init:
                    bufs.append(i)
        return locs, bufs, lists

    def loc_get(self, hp, loc):
        kind, i, k = loc
        o = hp[i]
        if kind == "env":
            return o.d.get(k)
        if kind == "attr":
            return o.attrs.get(k)
        if kind == "item":
            return o.items[k][1]
        if kind == "dict":
            for kk, v in o.items:
                if self.keystr(kk) == k:
                    return v
        if kind == "dsvar":
            return o.vars.get(k)

    def loc_set(self, hp, loc, v):
        kind, i, k = loc
        o = hp[i]
        if kind == "env":
            d = dict(o.d)
            d[k] = v
            hp[i] = HEnv(d, o.parent)
        elif kind == "attr":
            d = dict(o.attrs)
            d[k] = v
            hp[i] = HInst(o.cls, d, o.owner)
        elif kind == "item":
            it = list(o.items)
            it[k] = ("i", v)
            hp[i] = HList(it, o.owner)
        elif kind == "dict":
            hp[i] = HDict([(kk, v if self.keystr(kk) == k else x) for kk, x in o.items], o.owner)
        elif kind == "dsvar":
            d = dict(o.vars)
            d[k] = v
            hp[i] = o.repl(vars=d)

    def sym_loop(self, n, at, st, env, mod, cls):
        h0 = self.heap
        self._has_brk = False
        i = fresh_iv()
        Bounds.iv[i] = (const(0), n)
        known, kbufs = {}, set()          # loc -> (cid, token T or None)
        klists = set()
        shapes = {}
        where0 = self.where
        nev = len(self.events)
        nra = len(self.raises)
        for attempt in range(6):
            # fresh pass
            del self.events[nev:]
            del self.raises[nra:]
            hp = dict(h0)
            tokens = {}
            for loc, sh in shapes.items():
                tk, info = self.token(sh, self.loc_get(h0, loc))
                tokens[loc] = (tk, info)
                self.loc_set(hp, loc, tk)
            self.heap = hp
            marks = {}
            for b in kbufs:
                marks[b] = len(hp[b].stores)
            self.loops.append(LoopCtx(set(kbufs), marks))
            lencheck = {l: len(hp[l].items) for l in klists}
            try:
                self.assign(st.target, at(iv(i)), env, mod)
                o = self.exec_block(st.body, env, mod, cls)
            finally:
                self.loops.pop()
            ends = [(c, h_) for c, h_ in o.cont]
            if o.nxt is not None:
                ends.append(o.nxt)
            exits = bool(o.ret or o.brk)
            if not ends:
                if exits:
                    raise Unsupported("loop that always leaves in its first iteration")
                # body always raises
                self.heap = h0
                return Outcome()
            hend = ends[-1][1]
            for c, h2 in reversed(ends[:-1]):
                hend = self.merge_heaps(c, h2, hend)
            if exits:
                for c, *_rest in [(x[0], x[-1]) for x in o.ret] + [(x[0], x[1]) for x in o.brk]:
                    hend = self.merge_heaps(c, _rest[0], hend)
            locs, bufs, lists = self.diff_heap(h0, hend)
            newl = [l for l in locs if l not in shapes]
            newb = [b for b in bufs if b not in kbufs]
            newli = [l for l in lists if l not in klists]
            # drop the loop target itself
            if not newl and not newb and not newli:
                break
            self.heap = hend
            for l in newl:
                shapes[l] = self.shape_of(self.loc_get(hend, l), self.loc_get(h0, l), h0)
            kbufs |= set(newb)
            klists |= set(newli)
        else:
            raise Unsupported("loop analysis does not stabilise")
        self.heap = hend
        if exits:
            # early exits: everything changed is unknown
            for l in shapes:
                self.loc_set(hend, l, Unk("loop with early exit"))
            for b in kbufs:
                hb = hend[b]
                hend[b] = HBuf(hb.exts, hb.ivs, unk("loop with early exit"), (), hb.owner, fresh_iv())
            for l in klists:
                hend[l] = HList(h0[l].items + (("i", Unk("loop with early exit")),), hend[l].owner)
            self.loops_cleanup(h0, hend, env)
            if o.ret:
                out = Outcome()
                c = Cond("unk", ("return in loop#%d" % next(self._ids),))
                out.ret.append((c, Unk("return inside a loop"), hend))
                out.nxt = (c_not(c), hend)
                return out
            return
        self.close_loop(i, n, h0, hend, shapes, tokens, kbufs, klists, env, st)
        return

    def loops_cleanup(self, h0, hend, env):
        pass

    def shape_of(self, v, v0, h0):
        """shape descriptor of a carried value"""
        if isinstance(v, T):
            t = self.d(v)
            return ("T", [(a.ext, a.label) for a in t.axes], t.xr, isinstance(t.body, Cond), t.coords)
        if isinstance(v, Tup):
            i0 = v0.items if isinstance(v0, Tup) and len(v0.items) == len(v.items) else [None] * len(v.items)
            return ("Tup", [self.shape_of(x, y, h0) for x, y in zip(v.items, i0)], v.names, v.cls)
        return ("U",)

    def token(self, sh, v0):
        if sh[0] == "T" and not sh[3]:
            cid = fresh_iv()
            axes = [Ax(e, l) for e, l in sh[1]]
            t = T(axes, ap("@car", (iv(cid),), [a.p() for a in axes]), sh[2], sh[4])
            return self.bindable(t) if axes else t, [cid]
        if sh[0] == "Tup":
            ts = [self.token(s, None) for s in sh[1]]
            return Tup([t for t, _ in ts], sh[2], sh[3]), [c for _, cs in ts for c in cs]
        return Unk("loop carried value"), []

    def flat_pairs(self, tok, post, init, hp0):
        """list of (token T, post T, init T) leaves; None when structures differ"""
        if isinstance(tok, T):
            if not isinstance(post, T):
                if isinstance(post, Opq):
                    post = self.num(post)
                else:
                    return None
            return [(tok, post, init)]
        if isinstance(tok, Tup) and isinstance(post, Tup) and len(tok.items) == len(post.items):
            out = []
            ii = init.items if isinstance(init, Tup) and len(init.items) == len(tok.items) else [None] * len(tok.items)
            for a, b, c in zip(tok.items, post.items, ii):
                r = self.flat_pairs(a, b, c, hp0)
                if r is None:
                    return None
                out += r
            return out
        return None

    def close_loop(self, i, n, h0, hend, shapes, tokens, kbufs, klists, env, st):
        items = []          # carried tensors: dict
        tokid = {}
        failed = []
        for loc in shapes:
            tok, cids = tokens[loc]
            post = self.loc_get(hend, loc)
            init = self.loc_get(h0, loc)
            pr = self.flat_pairs(tok, post, init, h0)
            if pr is None or len(pr) != len(cids):
                failed.append(loc)
                continue
            for (tk, po, ini), cid in zip(pr, cids):
                items.append(dict(loc=loc, cid=cid, tok=tk, post=po, init=ini))
        selfids = {hend[b].selfid: b for b in kbufs}
        # contents of carried values at the end of the body
        self.heap = hend
        self.loops.append(LoopCtx(set(kbufs), {b: len(h0[b].stores) for b in kbufs}))
        for it in items:
            p = self.d(it["post"])
            axes = [Ax(a.ext, a.label) for a in self.token_axes(it["tok"])]
            it["axes"] = axes
            al = self.models.tops.broadcast_body(self, p, axes)
            it["step"] = al if al is not None else unk("shape of carried value changes")
            if isinstance(it["step"], Cond):
                it["step"] = mk_ite(it["step"], const(1), const(0))
            it["tokp"] = ap("@car", (iv(it["cid"]),), [a.p() for a in axes])
        new_items = {}
        for l in klists:
            tail = hend[l].items[len(h0[l].items):]
            new_items[l] = [("i", self.deref_val(x[1])) if x[0] == "i" else x for x in tail]
        self.loops.pop()
        cset = {it["cid"]: it for it in items}
        live = {it["cid"] for it in items if it["step"] != it["tokp"]}

        def cars(node):
            r = set()
            for a in walk(node):
                if a.kind == "ap" and a.name == "@car":
                    for x in a.args[0]:
                        for v in x.fv:
                            if v in cset:
                                r.add(v)
            return r

        def selfs(node):
            r = set()
            for a in walk(node):
                if a.kind == "ap" and a.name == "@self":
                    for v in a.args[0][0].fv:
                        if v in selfids:
                            r.add(v)
            return r
        # a carry that never changes
        const_c = [it for it in items if it["step"] == it["tokp"]]
        body_stores = {}
        for b in kbufs:
            if hend[b].init is not h0[b].init and not (isinstance(hend[b].init, Node) and hend[b].init == h0[b].init):
                body_stores[b] = None
            else:
                body_stores[b] = list(hend[b].stores[len(h0[b].stores):])
        used_out = {}
        for it in items:
            used_out[it["cid"]] = (cars(it["step"]), selfs(it["step"]))
        # buffers rewritten as a whole in every iteration carry nothing between iterations
        scratch = set()
        for b, sts in list(body_stores.items()):
            if sts and self.covers(h0[b], sts[0]) and i not in sts[0].guard.fv:
                if any(selfids[x] != b for s in sts for nd in (s.value, s.guard) + tuple(s.points) for x in selfs(nd)):
                    scratch.add(b)
                    body_stores[b] = []
        st_use = {}
        for b, sts in body_stores.items():
            u, s_ = set(), set()
            for s in sts or []:
                for nd in (s.value, s.guard) + tuple(s.points):
                    u |= cars(nd)
                    s_ |= selfs(nd)
            st_use[b] = (u, s_)
        list_use = set()
        list_self = set()
        for l, its in new_items.items():
            for x in its:
                for nd in self.val_nodes(x[-1]):
                    list_use |= cars(nd)
                    list_self |= selfs(nd)
        # fresh objects created in the body may mention tokens too, they are loop local
        consumers = {}
        for it in items:
            for c in used_out[it["cid"]][0]:
                consumers.setdefault(c, set()).add(("c", it["cid"]))
        for b, (u, s_) in st_use.items():
            for c in u:
                consumers.setdefault(c, set()).add(("b", b))
        for c in list_use:
            consumers.setdefault(c, set()).add(("l", 0))
        plain, accum, hard = [], [], []
        for it in items:
            cid = it["cid"]
            if cid not in live:
                continue
            cons = consumers.get(cid, set())
            own, slf = used_out[cid]
            if not own and not slf and not cons:
                plain.append(it)
                continue
            term = it["step"] - it["tokp"]
            if cons <= {("c", cid)} and not cars(term) and not selfs(term) and not term.unk:
                it["term"] = term
                accum.append(it)
                continue
            hard.append(it)
        # values that depend on hard carries must be in the recurrence as well
        changed = True
        hardset = {it["cid"] for it in hard}
        hbufs = set()
        while changed:
            changed = False
            for it in list(plain) + list(accum):
                if used_out[it["cid"]][0] & hardset or any(selfids[s] in hbufs for s in used_out[it["cid"]][1]):
                    if it in plain:
                        plain.remove(it)
                    if it in accum:
                        accum.remove(it)
                    hard.append(it)
                    hardset.add(it["cid"])
                    changed = True
            for it in hard:
                for s in used_out[it["cid"]][1]:
                    if selfids[s] not in hbufs:
                        hbufs.add(selfids[s])
                        changed = True
            for b, (u, s_) in st_use.items():
                if b in hbufs:
                    continue
                if u & hardset or any(selfids[s] in hbufs for s in s_) or any(selfids[s] != b for s in s_):
                    hbufs.add(b)
                    changed = True
            for b in list(hbufs):
                for c in st_use[b][0]:
                    if c not in hardset and c in live:
                        its = cset[c]
                        if its in plain:
                            plain.remove(its)
                        if its in accum:
                            accum.remove(its)
                        hard.append(its)
                        hardset.add(c)
                        changed = True
                for s in st_use[b][1]:
                    if selfids[s] not in hbufs:
                        hbufs.add(selfids[s])
                        changed = True
        cmap = {}       # @car atoms of constant carries -> init
        res = {}
        outer_heap = dict(hend)
        # restore buffers to pre loop contents for reads of initial values
        for b in kbufs:
            outer_heap[b] = h0[b]
        self.heap = outer_heap

        def init_body(it):
            ini = it["init"]
            if ini is None or not isinstance(ini, (T, Opq)):
                return unk("initial value of carried variable")
            return self.models.tops.broadcast_body(self, self.d(self.num(ini)), it["axes"])
        for it in items:
            it["ib"] = init_body(it)
            if it["ib"] is None:
                it["ib"] = unk("initial value shape")
            if isinstance(it["ib"], Cond):
                it["ib"] = mk_ite(it["ib"], const(1), const(0))
        last = {i: n - 1}
        subc = {}
        for it in const_c:
            pass
        for it in plain:
            it["res"] = subst(it["step"], last)
            # zero trip loops keep the initial value
            if prove_neg(-n) is not True and it["ib"] is not None and not it["ib"].unk:
                it["res"] = mk_ite(c_lt(const(0), n), it["res"], it["ib"])
        for it in accum:
            it["res"] = it["ib"] + mk_sum(i, const(0), n, it["term"])
        lam = None
        if hard or hbufs:
            if any(body_stores[b] is None for b in hbufs):
                for it in hard:
                    it["res"] = unk("recurrence over a rewritten buffer")
                for b in hbufs:
                    body_stores[b] = None
            else:
                lam, hard, hb_order = self.mk_mu(i, n, hard, hbufs, h0, body_stores)
                for k, it in enumerate(hard):
                    it["res"] = topoly(Atom("mu", "v%d" % k, (lam, tuple(a.p() for a in it["axes"]))))
        if list_use & hardset:
            # values appended depend on the recurrence: element at iteration i
            pass
        # write back carried values
        byloc = {}
        for it in items:
            if it["cid"] not in live:
                r = it["init"] if it["init"] is not None else it["tok"]
            else:
                p0 = self.d(it["post"])
                mp = {}
                axes = []
                for a in it["axes"]:
                    na = Ax(subst(a.ext, last), a.label)
                    mp[a.v] = na.p()
                    axes.append(na)
                r = T(axes, subst(it["res"], mp), p0.xr, {k: self.subst_val(c, last) for k, c in p0.coords.items()})
                if axes:
                    r = self.bindable(r)
            byloc.setdefault(it["loc"], []).append(r)
        self.heap = hend
        # buffers
        for b in kbufs:
            hb = h0[b]
            sts = body_stores[b]
            if b in scratch:
                hend[b] = HBuf(hb.exts, hb.ivs, unk("scratch array of a loop"), (), hb.owner, fresh_iv())
                continue
            if b in hbufs and lam is not None:
                k = hb_order.index(b)
                ids = [fresh_iv() for _ in hb.exts]
                for v, e in zip(ids, hb.exts):
                    Bounds.iv[v] = (const(0), e)
                hend[b] = HBuf(hb.exts, ids, topoly(Atom("mu", "b%d" % k, (lam, tuple(iv(v) for v in ids)))), (), hb.owner, fresh_iv())
                continue
            if sts is None:
                hend[b] = HBuf(hb.exts, hb.ivs, unk("buffer rewritten in loop"), (), hb.owner, fresh_iv())
                continue
            new = self.close_stores(i, n, b, h0, sts)
            ok = True
            hend[b] = h0[b]
            for s in new:
                ctx = self.changed_ctx(b)
                cur = hend[b]
                if ctx is None and self.covers(cur, s) and s.value is not None and not any(a.kind == "ap" and a.name == "@self" and any(v == cur.selfid for v in a.args[0][0].fv) for a in walk(s.value)):
                    solve = {}
                    for p, hv in zip(s.points, cur.ivs):
                        at_ = as_atom(p)
                        if at_ is not None and at_.kind == "iv":
                            solve[at_.name] = iv(hv)
                    hend[b] = cur.repl(init=subst(s.value, solve), stores=())
                else:
                    hend[b] = cur.repl(stores=cur.stores + (s,))
        for l in klists:
            its = new_items[l]
            if len(its) == 1 and its[0][0] == "i" and not ((list_use & hardset) or list_self):
                hend[l] = HList(h0[l].items + (("m", i, n, its[0][1]),), hend[l].owner)
            elif its and not ((list_use & hardset) or list_self) and all(x[0] == "i" for x in its):
                k = len(its)
                j = fresh_iv()
                Bounds.iv[j] = (const(0), n * k)
                hend[l] = HList(h0[l].items + (("i", Unk("several items appended per iteration")),), hend[l].owner)
            else:
                hend[l] = HList(h0[l].items + (("i", Unk("list built by recurrence")),), hend[l].owner)
        for loc, rs in byloc.items():
            tok = tokens[loc][0]
            if isinstance(tok, Tup):
                it = iter(rs)
                self.loc_set(hend, loc, self.rebuild_tup(tok, it))
            else:
                self.loc_set(hend, loc, rs[0])
        for loc in failed:
            self.loc_set(hend, loc, Unk("value carried by a loop"))
        # names first bound in the body: value of the last iteration
        e0, e1 = h0.get(env), hend.get(env)
        if e1 is not None and e0 is not None:
            d = dict(e1.d)
            for k, v in e1.d.items():
                if k not in e0.d:
                    try:
                        d[k] = self.last_iter(v, i, n)
                    except Exception:
                        d[k] = Unk("loop local")
            hend[env] = HEnv(d, e1.parent)
        self.heap = hend

    def last_iter(self, v, i, n):
        if isinstance(v, (T, Tup)):
            r = self.deref_val(v)
            if any(any(a.kind == "ap" and a.name in ("@car", "@self") for a in walk(nd)) for nd in self.val_nodes(r)):
                return Unk("loop local value of a recurrence")
            return self.subst_val(r, {i: n - 1})
        return v

    def rebuild_tup(self, tok, it):
        return Tup([self.rebuild_tup(x, it) if isinstance(x, Tup) else next(it) for x in tok.items], tok.names, tok.cls)

    def token_axes(self, tok):
        return tok.axes

    def deref_val(self, v):
        if isinstance(v, T):
            return self.d(v)
        if isinstance(v, Tup):
            return Tup([self.deref_val(x) for x in v.items], v.names, v.cls)
        return v

    def val_nodes(self, v):
        if isinstance(v, T):
            t = self.d(v)
            yield t.body
            for a in t.axes:
                yield a.ext
        elif isinstance(v, Tup):
            for x in v.items:
                yield from self.val_nodes(x)

    def mk_mu(self, i, n, hard, hbufs, h0, body_stores):
        """recurrence node; canonical order of components"""
        cids = [it["cid"] for it in hard]
        bl = sorted(hbufs)
        mask = {c: sym("@") for c in cids}
        mask.update({h0[b].selfid: sym("@@") for b in bl})
        mask[i] = sym("@i")

        def key(it):
            l1 = mk_lam([a.v for a in it["axes"]], [a.ext for a in it["axes"]], it["step"])
            l0 = mk_lam([a.v for a in it["axes"]], [a.ext for a in it["axes"]], it["ib"])
            return (l0.s, subst(l1, mask).s)
        hard = sorted(hard, key=key)

        def bkey(b):
            return (str([e.s for e in h0[b].exts]), str([self.st_lam(s, mask).s for s in body_stores[b]]))
        bl = sorted(bl, key=bkey)
        inits = tuple(mk_lam([a.v for a in it["axes"]], [a.ext for a in it["axes"]], it["ib"]) for it in hard)
        steps = tuple(mk_lam([a.v for a in it["axes"]], [a.ext for a in it["axes"]], it["step"]) for it in hard)
        bufs = []
        for b in bl:
            hb = h0[b]
            ids = [fresh_iv() for _ in hb.exts]
            for v, e in zip(ids, hb.exts):
                Bounds.iv[v] = (const(0), e)
            cur = self.heap
            self.heap = dict(h0)
            ini = self.read_buf(b, [iv(v) for v in ids])
            self.heap = cur
            bufs.append((tuple(hb.exts), mk_lam(ids, hb.exts, ini), tuple(mk_store(list(s.qs), s.guard, s.points, s.value).lam for s in body_stores[b])))
        lam = mk_lam([i] + [it["cid"] for it in hard] + [h0[b].selfid for b in bl], [n] + [const(0)] * (len(hard) + len(bl)), (inits, steps, tuple(bufs)))
        return lam, hard, bl

    def st_lam(self, s, mask):
        return subst(mk_store(list(s.qs), s.guard, s.points, s.value).lam, mask)

    def own_rows(self, i, b, hb, sts):
        """when every store of the loop writes the row of its own iteration, a read of that row at the start of the
        iteration sees the contents from before the loop"""
        pred = lambda a: a.kind == "ap" and a.name == "@self" and hb.selfid in a.args[0][0].fv
        if not any(pred(a) for s in sts for nd in (s.value, s.guard) for a in walk(nd)):
            return sts
        ax = None
        for k, p in enumerate(sts[0].points):
            lin = self._lin(p, i)
            if lin is not None and lin[0] in (1, -1) and all(s.points[k] == p for s in sts) and not any(q in p.fv for s in sts for q, _ in s.qs):
                ax = (k, p)
                break
        if ax is None or any(pred(a) and (len(a.args[0]) > 1 or a.args[1][ax[0]] != ax[1]) for s in sts for nd in (s.value, s.guard) for a in walk(nd)):
            return sts

        def one(a):
            cur = self.heap
            self.heap = dict(cur)
            self.heap[b] = hb
            r = self.read_buf(b, a.args[1])
            self.heap = cur
            return r
        return [St(s.qs, alg.map_atoms(s.guard, pred, one), s.points, alg.map_atoms(s.value, pred, one), s.where) for s in sts]

    def close_stores(self, i, n, b, h0, sts):
        """quantify the stores of one loop iteration over the loop variable"""
        hb = h0[b]
        out = []
        sts = self.own_rows(i, b, hb, sts)
        single = len(sts) == 1
        for s in sts:
            dep = any(i in p.fv for p in s.points)
            if not dep and i not in s.guard.fv:
                slf = ap("@self", (iv(hb.selfid),), s.points)
                term = s.value - slf
                has_self = any(a.kind == "ap" and a.name == "@self" and hb.selfid in a.args[0][0].fv for a in walk(term))
                if single and not has_self:
                    # accumulation into fixed elements
                    cur = self.heap
                    self.heap = dict(cur)
                    self.heap[b] = hb
                    pre = self.read_buf(b, s.points)
                    self.heap = cur
                    out.append(St(s.qs, s.guard, s.points, pre + mk_sum(i, const(0), n, term), s.where))
                    continue
                has_self2 = any(a.kind == "ap" and a.name == "@self" and hb.selfid in a.args[0][0].fv for a in walk(s.value))
                if single and not has_self2:
                    out.append(St(s.qs, c_and(s.guard, c_lt(const(0), n)), s.points, subst(s.value, {i: n - 1}), s.where))
                    continue
            out.append(St(((i, n),) + s.qs, s.guard, s.points, s.value, s.where))
        return out

    # ------------------------------------------------------------ expressions
    def ev(self, e, env, mod):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        ln = getattr(e, "lineno", None)
        if ln is not None and mod is not None:
            self.where = (mod.path, ln)
        return m(e, env, mod)

    def e_Constant(self, e, env, mod):
        v = e.value
        if isinstance(v, bool):
            return S(TRUE if v else FALSE)
        if isinstance(v, (int, float)):
            return S(topoly(v))
        return K(v)

    def e_Name(self, e, env, mod):
        v = self.env_get(env, e.id)
        if v is None:
            v = self.models.builtin(e.id)
            if v is None:
                raise AlwaysRaises("NameError: %s" % e.id, self.where)
        return self.chk_bound(v, e.id)

    def chk_bound(self, v, name):
        if isinstance(v, Phi):
            for side, c in (("a", v.c), ("b", c_not(v.c))):
                x = getattr(v, side)
                if isinstance(x, Unk) and x.why == "unbound":
                    other = v.b if side == "a" else v.a
                    facts = [(p, True) for p in self.pc]
                    t = truth(c, facts)
                    if t is False:
                        return self.chk_bound(other, name)
                    if t is True:
                        raise AlwaysRaises("UnboundLocalError: %s" % name, self.where)
                    self.raises.append((self.pc + [c], "UnboundLocalError: %s" % name, self.where))
                    return self.chk_bound(other, name)
        if isinstance(v, Unk) and v.why == "unbound":
            raise AlwaysRaises("UnboundLocalError: %s" % name, self.where)
        return v

    def e_Tuple(self, e, env, mod):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, env, mod))
                if it[0] != "c":
                    raise Unsupported("star of symbolic sequence")
                out.extend(it[1])
            else:
                out.append(self.ev(x, env, mod))
        return Tup(out)

    def e_List(self, e, env, mod):
        t = self.e_Tuple(e, env, mod)
        return self.ref(HList([("i", x) for x in t.items]))

    def e_Set(self, e, env, mod):
        v = self.e_Tuple(e, env, mod)
        return SetT(v.items) if isinstance(v, Tup) else v

    def e_Dict(self, e, env, mod):
        items = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(v, env, mod)
                if isinstance(d, Ref) and isinstance(self.h(d), HDict):
                    items.extend(self.h(d).items)
                    continue
                raise Unsupported("dict unpack")
            items.append((self.ev(k, env, mod), self.ev(v, env, mod)))
        d = {}
        for k, v in items:
            d[self.keystr(k)] = (k, v)
        return self.ref(HDict(d.values()))

    def keystr(self, k):
        if isinstance(k, K):
            return "k:%r" % (k.v,)
        if isinstance(k, T):
            t = self.d(k)
            if not t.axes:
                return "n:" + t.body.s
            return "arr%d" % id(k)
        if isinstance(k, Tup):
            return "t:(" + ",".join(self.keystr(x) for x in k.items) + ")"
        if isinstance(k, Opq):
            return "o:" + k.path
        if isinstance(k, Ref):
            return "r:%d" % k.id
        return "?%d" % id(k)

    def e_Lambda(self, e, env, mod):
        return Fn(e, mod, env)

    def e_IfExp(self, e, env, mod):
        c = self.truth(self.ev(e.test, env, mod))
        t = truth(c, [(x, True) for x in self.pc])
        if t is True:
            return self.ev(e.body, env, mod)
        if t is False:
            return self.ev(e.orelse, env, mod)
        h0 = self.heap
        a = b = None
        self.heap = dict(h0)
        self.pc.append(c)
        try:
            a = self.ev(e.body, env, mod)
        except AlwaysRaises as ex:
            self.raises.append((list(self.pc), ex.what, ex.where))
        finally:
            self.pc.pop()
        h1 = self.heap
        self.heap = dict(h0)
        self.pc.append(c_not(c))
        try:
            b = self.ev(e.orelse, env, mod)
        except AlwaysRaises as ex:
            self.raises.append((list(self.pc), ex.what, ex.where))
        finally:
            self.pc.pop()
        h2 = self.heap
        self.heap = self.merge_heaps(c, h1, h2)
        if a is None and b is None:
            raise AlwaysRaises("both alternatives raise", self.where)
        if a is None:
            return b
        if b is None:
            return a
        return self.merge_val(c, a, b)

    def e_BoolOp(self, e, env, mod):
        isand = isinstance(e.op, ast.And)
        vals = []
        push = 0
        acc = None
        try:
            conds = []
            for x in e.values:
                v = self.ev(x, env, mod)
                c = self.truth(v)
                vals.append(v)
                conds.append(c)
                t = truth(c, [(p, True) for p in self.pc])
                if t is not None:
                    c = TRUE if t else FALSE
                    conds[-1] = c
                if isand and c.op == "false":
                    break
                if not isand and c.op == "true":
                    break
                g = c if isand else c_not(c)
                if g.op != "true":
                    self.pc.append(g)
                    push += 1
        finally:
            for _ in range(push):
                self.pc.pop()
        allb = all(isinstance(v, T) and isinstance(self.d(v).body, Cond) for v in vals)
        if allb or all(c.op in ("true", "false") for c in conds[:-1]) is False:
            if not allb and not isand and len(vals) == 2:
                # value semantics of `a or b`
                return self.merge_val(conds[0], vals[0], vals[1])
            return S(c_and(*conds) if isand else c_or(*conds))
        return vals[-1] if len(conds) == len(vals) else vals[-1]

    def e_UnaryOp(self, e, env, mod):
        v = self.ev(e.operand, env, mod)
        if isinstance(e.op, ast.Not):
            if isinstance(v, T) and v.ndim:
                t = self.d(v)
                return T(t.axes, c_not(t.body), t.xr, t.coords) if isinstance(t.body, Cond) else Unk("not array")
            return S(c_not(self.truth(v)))
        if isinstance(v, Ref) and isinstance(self.h(v), HDs):
            return self.models.ds_map(self, v, lambda t: self.models.tops.unary(self, t, lambda p: -p))
        t = self.d(self.num(v))
        if isinstance(e.op, ast.Invert):
            if isinstance(t.body, Cond):
                return T(t.axes, c_not(t.body), t.xr, t.coords)
            return Unk("invert")
        b = t.body
        if isinstance(b, Cond):
            b = mk_ite(b, const(1), const(0))
        if isinstance(e.op, ast.USub):
            return T(t.axes, -b, t.xr, t.coords)
        return T(t.axes, b, t.xr, t.coords)

    def e_BinOp(self, e, env, mod):
        a = self.ev(e.left, env, mod)
        b = self.ev(e.right, env, mod)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Compare(self, e, env, mod):
        left = self.ev(e.left, env, mod)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env, mod)
            c = self.models.compare(self, op, left, right)
            if res is None:
                res = c
            else:
                a, b = self.d(res), self.d(c)
                if a.axes or b.axes:
                    res = Unk("chained array comparison")
                    break
                res = S(c_and(a.body, b.body))
            left = right
        return res

    def e_Attribute(self, e, env, mod):
        return self.getattr(self.ev(e.value, env, mod), e.attr)

    def e_Subscript(self, e, env, mod):
        obj = self.ev(e.value, env, mod)
        idx = self.ev(e.slice, env, mod)
        return self.getitem(obj, idx)

    def e_Slice(self, e, env, mod):
        f = lambda x: self.ev(x, env, mod) if x is not None else NONE
        return Sl(f(e.lower), f(e.upper), f(e.step))

    def e_Index(self, e, env, mod):
        return self.ev(e.value, env, mod)

    def e_Starred(self, e, env, mod):
        raise Unsupported("starred expression")

    def e_JoinedStr(self, e, env, mod):
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env, mod)
        return K("<fstring>")

    def e_NamedExpr(self, e, env, mod):
        v = self.ev(e.value, env, mod)
        self.assign(e.target, v, env, mod)
        return v

    def e_ListComp(self, e, env, mod):
        return self.comp(e, env, mod, "list")

    def e_GeneratorExp(self, e, env, mod):
        return self.comp(e, env, mod, "list")

    def e_SetComp(self, e, env, mod):
        return self.models.call(self, Ext("builtins.set"), [self.comp(e, env, mod, "list")], {})

    def e_DictComp(self, e, env, mod):
        g = e.generators
        if len(g) != 1:
            raise Unsupported("nested dict comprehension")
        it = self.iterate(self.ev(g[0].iter, env, mod))
        if it[0] != "c":
            raise Unsupported("symbolic dict comprehension")
        ce = self.new(HEnv({}, env))
        d = {}
        for v in it[1]:
            self.assign(g[0].target, v, ce, mod)
            skip = False
            for cnd in g[0].ifs:
                c = self.truth(self.ev(cnd, ce, mod))
                if c.op == "false":
                    skip = True
                elif c.op != "true":
                    raise Unsupported("filtered comprehension")
            if skip:
                continue
            k = self.ev(e.key, ce, mod)
            d[self.keystr(k)] = (k, self.ev(e.value, ce, mod))
        return self.ref(HDict(d.values()))

    def comp(self, e, env, mod, kind, gi=0, ce=None):
        g = e.generators[gi]
        ce = self.new(HEnv({}, env)) if ce is None else ce
        it = self.iterate(self.ev(g.iter, ce, mod))
        items = []
        if it[0] == "c":
            for v in it[1]:
                self.assign(g.target, v, ce, mod)
                skip = False
                for cnd in g.ifs:
                    c = self.truth(self.ev(cnd, ce, mod))
                    if c.op == "false":
                        skip = True
                        break
                    if c.op != "true":
                        raise Unsupported("filtered comprehension")
                if skip:
                    continue
                if gi + 1 < len(e.generators):
                    r = self.comp(e, env, mod, kind, gi + 1, ce)
                    items.extend(self.h(r).items)
                else:
                    items.append(("i", self.ev(e.elt, ce, mod)))
            return self.ref(HList(items))
        if g.ifs or gi + 1 < len(e.generators):
            raise Unsupported("comprehension over symbolic sequence")
        n, at = it[1], it[2]
        i = fresh_iv()
        Bounds.iv[i] = (const(0), n)
        self.assign(g.target, at(iv(i)), ce, mod)
        v = self.deref_val(self.ev(e.elt, ce, mod))
        return self.ref(HList([("m", i, n, v)]))

    def seqlen(self, v):
        """length as P or None"""
        if isinstance(v, Tup):
            return const(len(v.items))
        if isinstance(v, K) and isinstance(v.v, str):
            return const(len(v.v))
        if isinstance(v, Seq):
            return v.n
        if isinstance(v, T):
            return v.axes[0].ext if v.ndim else None
        if isinstance(v, Ref):
            o = self.h(v)
            if isinstance(o, HList):
                r = const(0)
                for x in o.items:
                    if x[0] == "i" and isinstance(x[1], Unk):
                        return unk("length")
                    r = r + (const(1) if x[0] == "i" else x[2])
                return r
            if isinstance(o, HDict):
                return const(len(o.items))
            if isinstance(o, HDs):
                return const(len(o.vars))
        if isinstance(v, Phi):
            a, b = self.seqlen(v.a), self.seqlen(v.b)
            if a is not None and b is not None:
                return mk_ite(v.c, a, b)
        if isinstance(v, Opq):
            return ap("len", (sym(v.path),))
        return None

    # ------------------------------------------------------------------ calls
    def e_Call(self, e, env, mod):
        f = self.ev(e.func, env, mod) if not (isinstance(e.func, ast.Name) and e.func.id == "super") else Ext("super")
        if isinstance(f, Ext) and f.name == "super" and not e.args:
            return Opq("super", hook=("super", self.env_get(env, "__class__"), self.env_get(env, "__self__")))
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, env, mod))
                if it[0] != "c":
                    raise Unsupported("star argument of symbolic length")
                args.extend(it[1])
            else:
                args.append(self.ev(a, env, mod))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env, mod)
            if k.arg is None:
                if isinstance(v, Ref) and isinstance(self.h(v), HDict):
                    for kk, vv in self.h(v).items:
                        if isinstance(kk, K):
                            kw[kk.v] = vv
                        else:
                            raise Unsupported("symbolic keyword")
                elif isinstance(v, Opq):
                    kw["**" + v.path] = v
                else:
                    raise Unsupported("keyword unpack")
            else:
                kw[k.arg] = v
        w = self.where
        self.where = (mod.path if mod else "<spec>", e.lineno)
        r = self.call(f, args, kw)
        self.where = w
        return r

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self] + list(args), kw)
        if isinstance(f, Fn):
            return self.call_fn(f, list(args), dict(kw))
        if isinstance(f, Partial):
            k = dict(f.kw)
            k.update(kw)
            return self.call(f.fn, list(f.args) + list(args), k)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kw)
        if isinstance(f, Phi):
            return self.split(f.c, lambda: self.call(f.a, args, kw), lambda: self.call(f.b, args, kw))
        if isinstance(f, (Ext, Meth, Opq, FnObj)):
            return self.models.call(self, f, list(args), dict(kw))
        if isinstance(f, Ref):
            o = self.h(f)
            if isinstance(o, HInst):
                c = self.class_attr(o.cls, "__call__")
                if c is not None:
                    return self.call(Bound(c, f), args, kw)
        if isinstance(f, Unk):
            return Unk("call of unknown (%s)" % f.why)
        return Unk("call of %s" % type(f).__name__)

    def qual(self, f):
        m = f.mod.name if f.mod else "<spec>"
        return "%s:%s%s" % (m, f.cls.name + "." if f.cls else "", f.name)

    def call_fn(self, f, args, kw):
        q = self.qual(f)
        if q in self.hooks:
            return self.hooks[q](self, args, kw)
        self.called.add(q)
        if self.depth > MAXDEPTH or self.fnstack.count(q) > 3:
            return Unk("recursion limit at %s" % q)
        a = f.node.args
        params = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        extra = []
        for k, v in enumerate(args):
            if k < len(params):
                d[params[k]] = v
            else:
                extra.append(v)
        if a.vararg:
            d[a.vararg.arg] = Tup(extra)
        elif extra:
            raise AlwaysRaises("TypeError: too many arguments for %s" % f.name, self.where)
        rest = {}
        for k, v in kw.items():
            if k.startswith("**"):
                rest[k] = v
            elif k in params or k in [x.arg for x in a.kwonlyargs]:
                if k in d:
                    raise AlwaysRaises("TypeError: duplicate argument %s" % k, self.where)
                d[k] = v
            else:
                rest[k] = v
        if a.kwarg:
            opq = [v for k, v in rest.items() if k.startswith("**")]
            if opq and len(rest) == 1:
                d[a.kwarg.arg] = opq[0]
            else:
                d[a.kwarg.arg] = self.ref(HDict([(K(k), v) for k, v in rest.items() if not k.startswith("**")]))
        elif any(not k.startswith("**") for k in rest):
            raise AlwaysRaises("TypeError: unexpected argument %s for %s" % (sorted(rest)[0], f.name), self.where)
        defaults = a.defaults
        for p, dv in zip(params[len(params) - len(defaults):], defaults):
            if p not in d:
                d[p] = self.default(f, dv)
        for p, dv in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in d and dv is not None:
                d[p.arg] = self.default(f, dv)
        for p in params + [x.arg for x in a.kwonlyargs]:
            if p not in d:
                raise AlwaysRaises("TypeError: missing argument %s of %s" % (p, f.name), self.where)
        for p in list(d):
            d[p] = self.bindable(d[p])
        if f.cls is not None:
            d["__class__"] = f.cls
            if params and args:
                d["__self__"] = args[0]
        env = self.new(HEnv(d, f.env))
        saved_where = self.where
        self.depth += 1
        self.fnstack.append(q)
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env, f.mod)
            if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(f.node)):
                return self.run_generator(f, env)
            h0 = self.heap
            try:
                o = self.exec_block(f.node.body, env, f.mod, None)
            except Unsupported as ex:
                self.notes.add("%s: %s (line %s)" % (q, ex, self.where[1]))
                if self.effects(f.node):
                    self.taint = self.taint or "%s was not followed to its end: %s" % (q, ex)
                return Unk("%s: %s" % (q, ex))
            rets = list(o.ret)
            if o.nxt is not None:
                rets.append((o.nxt[0], NONE, o.nxt[1]))
            if not rets:
                raise AlwaysRaises("%s always raises" % f.name, self.where)
            # merge
            c, v, hp = rets[-1]
            for c2, v2, h2 in reversed(rets[:-1]):
                out = self.merge_heaps(c2, h2, hp)
                v = self._mv(c2, v2, v, h2, hp, out)
                hp = out
            self.heap = hp
            return v
        finally:
            self.depth -= 1
            self.fnstack.pop()
            self.where = saved_where

    def run_generator(self, f, env):
        """generator function -> list of yielded values"""
        class Y(ast.NodeTransformer):
            def visit_Expr(s, n):
                if isinstance(n.value, ast.Yield):
                    c = ast.Expr(ast.Call(ast.Attribute(ast.Name("__yield__", ast.Load()), "append", ast.Load()), [n.value.value or ast.Constant(None)], []))
                    return ast.fix_missing_locations(ast.copy_location(c, n))
                return n
        import copy
        node = Y().visit(copy.deepcopy(f.node))
        lst = self.ref(HList([]))
        self.env_set(env, "__yield__", lst)
        o = self.exec_block(node.body, env, f.mod, None)
        if o.ret or o.nxt is None:
            return Unk("generator with return")
        self.heap = o.nxt[1]
        return lst

    def default(self, f, node):
        key = ("default", id(node))
        if key not in self.__dict__.setdefault("_defaults", {}):
            v = self.ev(node, f.env, f.mod)
            self._defaults[key] = v
            return v
        v = self._defaults[key]
        return v

    MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "fill", "sort", "put", "itemset", "add", "discard", "popitem", "reverse", "resize",
                "setattr", "copyto", "putmask", "place", "fill_diagonal", "shuffle", "__setattr__", "__setitem__"}

    def effects(self, node, seen=None):
        """may this function write to anything but its own new objects?"""
        seen = set() if seen is None else seen
        if node in seen or isinstance(node, ast.Lambda):
            return False
        seen.add(node)
        local = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    local |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
        table = self.__dict__.get("_fntable")
        if table is None:
            table = self._fntable = {}
            for m in self.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.FunctionDef):
                        table.setdefault(x.name, []).append(x)
        for x in ast.walk(node):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                return True
            if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                return True
            if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                b = x.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if not (isinstance(b, ast.Name) and b.id in local):
                    return True
            if isinstance(x, ast.Call):
                n = x.func.attr if isinstance(x.func, ast.Attribute) else x.func.id if isinstance(x.func, ast.Name) else None
                if n in self.MUTATORS:
                    b = x.func.value if isinstance(x.func, ast.Attribute) else None
                    if not (isinstance(b, ast.Name) and b.id in local):
                        return True
                if any(k.arg == "out" for k in x.keywords):
                    return True
                for y in table.get(n, ()):
                    if self.effects(y, seen):
                        return True
        return False

    # ---------------------------------------------------------------- classes
    def mro(self, cls):
        out = [cls]
        if cls.node is None:
            return out
        for b in cls.node.bases:
            try:
                v = self.ev(b, cls.mod.env, cls.mod)
            except (Unsupported, AlwaysRaises):
                continue
            if isinstance(v, Cls):
                for x in self.mro(v):
                    if all(x.node is not y.node for y in out):
                        out.append(x)
        return out

    def class_body(self, cls):
        k = ("cls", cls.node)
        cache = self.__dict__.setdefault("_clsenv", {})
        if k not in cache:
            e = self.new(HEnv({}, cls.mod.env))
            saved = (self.pc, self.loops)
            self.pc, self.loops = [], []
            for st in cls.node.body:
                if isinstance(st, (ast.FunctionDef, ast.Assign, ast.AnnAssign)):
                    try:
                        self.exec_stmt(st, e, cls.mod, cls)
                    except Unsupported:
                        pass
            self.pc, self.loops = saved
            d = self.heap[e].d
            for n_, v in list(d.items()):
                if isinstance(v, Fn) and v.cls is None:
                    d[n_] = Fn(v.node, v.mod, cls.mod.env, cls)
                elif isinstance(v, Fn):
                    d[n_] = Fn(v.node, v.mod, cls.mod.env, v.cls)
            cache[k] = d
        return cache[k]

    def class_attr(self, cls, name):
        for c in self.mro(cls):
            if c.node is None:
                continue
            d = self.class_body(c)
            if name in d:
                return d[name]
        return None

    def decorators(self, fn):
        return [ast.unparse(d) for d in getattr(fn.node, "decorator_list", [])]

    def instantiate(self, cls, args, kw):
        if cls.fields is not None:       # namedtuple
            vals = list(args)
            for f in cls.fields[len(vals):]:
                if f in kw:
                    vals.append(kw[f])
                else:
                    raise AlwaysRaises("TypeError: missing field %s" % f, self.where)
            return Tup(vals, cls.fields, cls.name)
        r = self.ref(HInst(cls, {}))
        init = self.class_attr(cls, "__init__")
        if init is not None:
            self.call(Bound(init, r), args, kw)
        return r

    # ------------------------------------------------------- attributes, items
    def getattr(self, obj, name, default=None):
        if isinstance(obj, Phi):
            return self.split(obj.c, lambda: self.getattr(obj.a, name), lambda: self.getattr(obj.b, name))
        if isinstance(obj, Ref):
            o = self.h(obj)
            if isinstance(o, HInst):
                if name in o.attrs:
                    return self.chk_unset(o.attrs[name], name)
                if name == "__dict__":
                    r = self.ref(HDict([(K(k), v) for k, v in o.attrs.items()]))
                    self.instdict[r.id] = obj
                    return r
                if name == "__class__":
                    return o.cls
                v = self.class_attr(o.cls, name)
                if v is None:
                    g = self.class_attr(o.cls, "__getattr__")
                    if g is not None:
                        return self.call(Bound(g, obj), [K(name)], {})
                    if default is not None:
                        return default
                    raise AlwaysRaises("AttributeError: %s" % name, self.where)
                if isinstance(v, Fn):
                    dec = self.decorators(v)
                    if "staticmethod" in dec:
                        return v
                    if "classmethod" in dec:
                        return Bound(v, o.cls)
                    if "property" in dec:
                        return self.call(Bound(v, obj), [], {})
                    return Bound(v, obj)
                return v
        if isinstance(obj, Cls):
            v = self.class_attr(obj, name)
            if v is None:
                if name == "__name__":
                    return K(obj.name)
                raise AlwaysRaises("AttributeError: %s.%s" % (obj.name, name), self.where)
            if isinstance(v, Fn) and "classmethod" in self.decorators(v):
                return Bound(v, obj)
            return v
        if isinstance(obj, Opq) and obj.hook and obj.hook[0] == "module":
            v = self.modattr(obj.hook[1], name)
            return v if v is not None else Unk("module attribute " + name)
        if isinstance(obj, Opq) and obj.hook and obj.hook[0] == "super":
            cls, slf = obj.hook[1], obj.hook[2]
            o = self.h(slf)
            chain = self.mro(o.cls)
            k = [i for i, c in enumerate(chain) if c.node is cls.node]
            for c in chain[k[0] + 1 if k else 1:]:
                d = self.class_body(c)
                if name in d:
                    return Bound(d[name], slf)
            return Ext("object." + name)
        if isinstance(obj, Tup) and obj.names and name in obj.names:
            return obj.items[obj.names.index(name)]
        return self.models.getattr(self, obj, name)

    def chk_unset(self, v, name):
        if isinstance(v, Phi):
            for side, c in (("a", v.c), ("b", c_not(v.c))):
                x = getattr(v, side)
                if isinstance(x, Unk) and x.why == "unset":
                    other = v.b if side == "a" else v.a
                    t = truth(c, [(p, True) for p in self.pc])
                    if t is True:
                        raise AlwaysRaises("AttributeError: %s" % name, self.where)
                    if t is None:
                        self.raises.append((self.pc + [c], "AttributeError: %s" % name, self.where))
                    return other
        return v

    def setattr(self, obj, name, v):
        if isinstance(obj, Ref):
            o = self.h(obj)
            if isinstance(o, HInst):
                if o.owner:
                    self.event("setattr", (o.owner, name))
                d = dict(o.attrs)
                d[name] = v
                self.heap[obj.id] = HInst(o.cls, d, o.owner)
                return
        if isinstance(obj, Phi):
            for x in (obj.a, obj.b):
                if isinstance(x, Ref):
                    raise Unsupported("attribute store to alternative objects")
        self.models.setattr(self, obj, name, v)

    def split(self, c, fa, fb, merge=None):
        """both alternatives of a value; one that always raises leaves the other, under its condition"""
        res = []
        h0 = self.heap
        for cond, f in ((c, fa), (c_not(c), fb)):
            self.heap = dict(h0)
            self.pc.append(cond)
            try:
                res.append((f(), None, self.heap))
            except AlwaysRaises as e:
                res.append((None, e, self.heap))
            finally:
                self.pc.pop()
        (a, ea, ha), (b, eb, hb) = res
        if ea is not None and eb is not None:
            raise ea
        self.heap = self.merge_heaps(c, ha, hb) if ea is None and eb is None else hb if ea is not None else ha
        if ea is not None or eb is not None:
            e = ea or eb
            self.raises.append((self.pc + [c if ea is not None else c_not(c)], e.what, e.where))
            return b if ea is not None else a
        return (merge or self.merge_val)(c, a, b)

    def getitem(self, obj, idx):
        if isinstance(obj, Phi):
            return self.split(obj.c, lambda: self.getitem(obj.a, idx), lambda: self.getitem(obj.b, idx))
        return self.models.getitem(self, obj, idx)

    def setitem(self, obj, idx, v):
        if isinstance(obj, Phi):
            raise Unsupported("item store to alternative objects")
        self.models.setitem(self, obj, idx, v)

    # -------------------------------------------------------------- utilities
    def spec(self, src, name, env=None):
        """parse reference source and return the function value `name`"""
        tree = ast.parse(src)
        m = Module("<spec>", "<spec>", tree, src)
        m.ispkg = False
        e = self.new(HEnv(dict(env or {}), None))
        m.env = e
        d = {"np": Ext("numpy"), "xr": Ext("xarray"), "scipy": Ext("scipy")}
        d.update(env or {})
        self.heap[e] = HEnv(d)
        for st in tree.body:
            self.exec_block([st], e, m, None)
        return self.heap[e].d[name]
