"""Obligation runner and comparison helpers shared by the rules.

An obligation is a function  f(C)  that builds the abstract value of some piece of
the analysed program through the interpreter  C.I  and compares it with a reference.
Statuses: proved / violated / undecided.
"""
import ast
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)

from values import *          # noqa: E402,F401,F403
from interp import *          # noqa: E402,F401,F403
import alg                     # noqa: E402
import models as M            # noqa: E402
import m_np, m_np2, m_xr, m_xr2, m_misc, m_group, m_fem, m_std   # noqa: E402,F401

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "VolterraBasis"


PAST = [""]          # suffix of the inputs of an earlier use of the program in the same process
PAST_SYMS = {"dt", "dt0", "dt2", "kT", "lam", "h", "w", "y0", "sa", "sb", "sc", "tol", "thr"}


def sym(name):
    """a symbol introduced by a rule (part of the understood vocabulary)"""
    if PAST[0] and name in PAST_SYMS:
        name += PAST[0]
    alg.INPUTS.add("$" + name)
    return alg.sym(name)


def el(base, *idx):
    base += PAST[0]
    alg.INPUTS.add(base)
    return alg.el(base, *idx)


class Missing(Exception):
    """a public entry point the rule starts from is not there"""


class Stop(Exception):
    """the obligation cannot be evaluated further (undecided)"""


class C:
    """context of one obligation"""

    def __init__(self, name, tier="quick"):
        self.name = name
        self.tier = tier
        self.recs = []           # (status, label, why)
        alg._LF.clear()
        alg.INPUTS.clear()
        Bounds.iv.clear()
        Bounds.pos.clear()
        Bounds.nonneg.clear()
        for n in ("N", "M", "L"):
            Bounds.pos.add(n)
        self.I = Interp(REPO)

    # ---- verdicts ----
    def rec(self, status, label, why=""):
        self.recs.append((status, label, str(why)[:600]))

    def ok(self, label):
        self.rec("proved", label)

    def bad(self, label, why):
        self.rec("violated", label, why)

    def und(self, label, why):
        self.rec("undecided", label, why)

    # ---- program access ----
    def get(self, mod, name):
        r = None
        try:
            r = self.I.lookup(mod, name)
        except KeyError:
            r = None
        if r is None or isinstance(r, Unk):
            raise Missing("%s.%s" % (mod or PKG, name))
        return r

    def call(self, f, *args, **kw):
        return self.I.call(f, list(args), kw)

    pre = False
    on_before = None

    def meth(self, obj, name, *args, **kw):
        if self.pre:
            self.before(obj, name, args, kw)
        return self.I.call(self.I.getattr(obj, name), list(args), kw)

    def holders(self, obj):
        """the models among the object and the objects it keeps"""
        r = []
        if isinstance(obj, Ref) and isinstance(self.I.h(obj), HInst):
            r.append(obj)
            r += [v for v in self.I.h(obj).attrs.values() if isinstance(v, Ref) and isinstance(self.I.h(v), HInst)]
        return [o for o in r if "rank_projection" in self.I.h(o).attrs]      # models

    def before(self, obj, name, args, kw):
        """the same method called on other data of the same sizes first"""
        I = self.I
        npc, nev = len(I.pc), len(I.events)
        kept = []
        for o in self.holders(obj):
            for a in ("force_coeff", "kernel"):       # results of earlier estimations, replaced by later ones
                v = I.h(o).attrs.get(a)
                if isinstance(v, T):
                    w = older(I, v)
                    I.setattr(o, a, w)
                    kept.append((o, a, v, w))
        try:
            I.call(I.getattr(obj, name), [older(I, a) for a in args], {k: older(I, v) for k, v in kw.items()})
        except (AlwaysRaises, Unsupported):
            pass
        for o, a, v, w in kept:
            if I.h(o).attrs.get(a) is w:
                I.setattr(o, a, v)
        del I.pc[npc:]
        del I.events[nev:]
        if self.on_before:
            self.on_before()

    def raises(self, label, thunk, promised="an exception"):
        """the call must raise on every path"""
        n0 = len(self.I.raises)
        try:
            r = thunk()
        except AlwaysRaises:
            self.ok(label)
            return
        if any(x.unk for rr in self.I.raises[n0:] for x in rr[0]):
            self.und(label, "raises under a condition that is not followed")
        elif isinstance(r, Unk):
            self.und(label, "value unknown: %r" % (r,))
        else:
            self.bad(label, "returns %s instead of raising %s" % (short(r), promised))

    # ---- inputs ----
    def arr(self, name, *exts, buf=True):
        axs = [Ax(e) for e in exts]
        t = T(axs, el(name, *[a.p() for a in axs]))
        return self.I.mkbuf(t, name) if buf else t

    def da(self, name, dims, exts, coords=None):
        axs = [Ax(e, l) for e, l in zip(exts, dims)]
        return T(axs, el(name, *[a.p() for a in axs]), True, coords)

    def dict(self, d):
        return self.I.ref(HDict([(K(k), v) for k, v in d.items()]))

    def list(self, items):
        return self.I.ref(HList([("i", x) for x in items]))

    def traj(self, vars_="x", N="N", dim=1, tag="", own=True):
        """a trajectory data set with the given one-letter variables"""
        Np = sym(N) if isinstance(N, str) else topoly(N)
        vs = {}
        for v in vars_:
            t = self.da(v + tag, ("time", "dim_x"), (Np, dim))
            if own:
                t = with_buf(self.I, t, v + tag)
            vs[v] = t
        tc = self.da("t" + tag, ("time",), (Np,))
        return M.mk_ds(self.I, vs, {"time": tc}, self.dict({"dt": S(sym("dt" + tag))}))

    def describe(self, dim, tag=""):
        cls = self.get("basis._data_describe", "DescribeResult")
        A = lambda n: self.arr(n + tag, dim)
        return self.I.instantiate(cls, [S(sym("nobs" + tag)), Tup([A("mn"), A("mx")]), A("mean"), A("var"), A("sk"), A("ku")], {})

    # ---- views ----
    def T(self, v, what=""):
        """tensor of a value, or Stop"""
        if isinstance(v, Unk):
            raise Stop("%s unknown: %s" % (what, v))
        if isinstance(v, Phi):
            raise Stop("%s: join of unlike values" % what)
        if isinstance(v, T):
            return self.I.d(v)
        try:
            t = self.I.num(v)
        except (Unsupported, TypeError, AttributeError):
            t = None
        if isinstance(t, T):
            return self.I.d(t)
        raise Stop("%s is not an array: %s" % (what, short(v)))

    def at(self, v, *idx):
        """element of a tensor at index (ints or P) as P or Cond"""
        t = self.T(v)
        if len(idx) != len(t.axes):
            raise Stop("rank")
        mp = {a.v: topoly(i) for a, i in zip(t.axes, idx)}
        return subst(t.body, mp)

    # ---- comparisons ----
    def eq(self, label, code, spec, facts=(), vocab=None):
        if isinstance(code, Cond):
            code = mk_ite(code, const(1), const(0))
        if isinstance(spec, Cond):
            spec = mk_ite(spec, const(1), const(0))
        r = compare(topoly(code), topoly(spec), list(facts), vocab)
        self.take(label, r)
        return r.status == EQ

    def take(self, label, r):
        if r.status == EQ:
            self.ok(label)
        elif r.status == HARD:
            w = r.why
            if r.facts:
                w += " when " + " and ".join(("" if v else "not ") + c.s for c, v in r.facts)
            self.bad(label, w)
        else:
            self.und(label, r.why)

    def shape(self, label, v, *exts, facts=()):
        t = self.T(v, label)
        if len(t.axes) != len(exts):
            (self.und if t.body is not None and t.body.unk else self.bad)(label + " rank", "rank %d, expected %d" % (len(t.axes), len(exts)))
            return None
        good = True
        for k, (a, e) in enumerate(zip(t.axes, exts)):
            if e is None:
                continue
            if not self.eq("%s extent[%d]" % (label, k), a.ext, topoly(e), facts):
                good = False
        return t if good else None

    def dims(self, label, v, *labels):
        t = self.T(v, label)
        if t.dims() != tuple(labels):
            (self.und if t.body is not None and t.body.unk else self.bad)(label + " dims", "dimensions %s, expected %s" % (t.dims(), tuple(labels)))
            return False
        self.ok(label + " dims")
        return True

    def tens(self, label, v, exts, body, facts=(), vocab=None, dims=None):
        """v must have the extents and, at every index, the value body(*idx).
        Constant extents are enumerated, the others stay universally quantified."""
        t = self.T(v, label)
        if dims is not None:
            if sorted(map(str, t.dims())) == sorted(dims) and t.dims() != tuple(dims):
                self.bad(label + " dims", "dimension order %s, expected %s" % (t.dims(), tuple(dims)))
                return
            self.dims(label, t, *dims)
        t = self.shape(label, t, *exts, facts=facts)
        if t is None:
            return

        def rec(k, idx, lab):
            if k == len(exts):
                b = body(*idx)
                self.eq(label + lab, self.at(t, *idx), b, facts, vocab)
                return
            c = topoly(exts[k]).const()
            if c is not None:
                for j in range(int(c)):
                    rec(k + 1, idx + [j], lab + "[%d]" % j)
            else:
                a = Ax(exts[k])
                rec(k + 1, idx + [a.p()], lab + "[i%d]" % k)
        rec(0, [], "")

    def any_of(self, *thunks):
        """the comparison against one of several equivalent references; the first one is reported when none is met"""
        first = None
        for th in thunks:
            n = len(self.recs)
            th()
            new = self.recs[n:]
            if all(r[0] == "proved" for r in new):
                return
            del self.recs[n:]
            first = first if first is not None else new
        self.recs += first

    def const(self, label, v, want):
        t = self.T(v, label)
        self.eq(label, t.body if isinstance(t.body, (P, Cond)) else t.body, topoly(want))

    def no_mutation(self, label, owners=None, allow=()):
        """no store into a caller-owned buffer / attribute dictionary happened"""
        evs = [e for e in self.I.events if e[0] == "mutate"]
        n = 0
        for e in evs:
            d = str(e[1])
            if owners is not None and not any(d.startswith(o) for o in owners):
                continue
            if any(d.startswith(a) for a in allow):
                continue
            n += 1
            self.bad(label, "input %s is modified at %s" % (d, e[2]))
        if not n:
            self.ok(label)


def short(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + "..."


def with_buf(I, t, name):
    b = I.mkbuf(T(t.axes, t.body), name)
    return T(b.axes, b.body, True, t.coords, b.buf, b.bidx, t.name)


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


def older(I, v, seen=None):
    """the value with every input array and real parameter replaced by another one of the same shape"""
    def arr(t):
        t = I.d(t)
        pred = lambda a: (a.kind == "ap" and a.name in alg.INPUTS) or (a.kind == "sym" and a.name in PAST_SYMS)

        def fn(a):
            if a.kind == "sym":
                return sym(a.name + "_old")
            alg.INPUTS.add(a.name + "_old")
            return alg.ap(a.name + "_old", *a.args)
        return T(t.axes, alg.map_atoms(t.body, pred, fn), t.xr, {k: older(I, x) for k, x in t.coords.items()}, None, None, t.name)
    if isinstance(v, T):
        if v.body is None or not isinstance(v.body, Cond):
            r = arr(v)
            return I.mkbuf(r) if v.buf is not None and not v.xr else r
        return v
    if isinstance(v, Tup):
        return Tup([older(I, x) for x in v.items])
    if isinstance(v, Ref):
        o = I.h(v)
        if isinstance(o, HDs):
            return I.ref(HDs({k: older(I, x) for k, x in o.vars.items()}, {k: older(I, x) for k, x in o.coords.items()}, older(I, o.attrs), o.dropped))
        if isinstance(o, HDict):
            return I.ref(HDict([(k, older(I, x)) for k, x in o.items]))
        if isinstance(o, HList) and all(it[0] == "i" for it in o.items):
            return I.ref(HList([("i", older(I, it[1])) for it in o.items]))
    return v


def reused(fn):
    """every method call of the obligation is made on other data first: what an object keeps from one call must not reach
    the result of the next"""
    def g(c):
        c.pre = True
        fn(c)
    return g


def aged(fn):
    """the obligation after the same entry points were used on other data of the same sizes: what the program keeps between
    calls (module variables, class attributes, default arguments, caches) must not reach the results"""
    def g(c):
        PAST[0] = "_old"
        recs, c.recs = c.recs, []
        try:
            fn(c)
        except (Missing, AlwaysRaises, Stop, Unsupported, RecursionError):
            pass
        finally:
            PAST[0] = ""
            c.recs = recs
        del c.I.events[:]
        c.I.notes.clear()
        fn(c)
    return g


def run_obligation(name, fn, tier, limit):
    """-> dict with recs, functions analysed, notes"""
    t0 = time.time()
    out = {"name": name, "recs": [], "fns": [], "notes": [], "missing": None}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(limit))
    c = None
    try:
        try:
            c = C(name, tier)
            fn(c)
        except Missing as e:
            out["missing"] = str(e)
            out["recs"].append(("undecided", name, "missing entry point %s" % e))
        except AlwaysRaises as e:
            out["recs"].append(("violated", name, "every execution raises: %s at %s" % (e.args[0] if e.args else "", getattr(e, "where", "?"))))
        except Stop as e:
            out["recs"].append(("undecided", name, str(e)))
        except Timeout:
            out["recs"].append(("undecided", name, "time limit"))
        except Unsupported as e:
            out["recs"].append(("undecided", name, "unsupported: %s" % e))
        except RecursionError:
            out["recs"].append(("undecided", name, "recursion"))
        except Exception as e:
            tb = traceback.format_exc(limit=-4)
            out["recs"].append(("undecided", name, "internal: %s: %s | %s" % (type(e).__name__, e, tb[-400:])))
    finally:
        signal.alarm(0)
    if c is not None:
        out["recs"] = [tuple(r) for r in c.recs] + out["recs"]
        if c.I.taint and os.environ.get("SHOWTAINT"):
            print("TAINT", name, c.I.taint)
        if c.I.taint:   # the state of some object may have changed unseen: nothing is definitely wrong
            out["recs"] = [("undecided", l, "%s (%s)" % (w, c.I.taint)) if s == "violated" else (s, l, w) for s, l, w in (r[:3] for r in out["recs"])]
            out["notes"].append(c.I.taint) if c.I.taint else None
        out["fns"] = sorted(str(x) for x in c.I.called)
        out["notes"] = [str(n)[:200] for n in c.I.notes][:10]
    out["wall"] = round(time.time() - t0, 3)
    return out
