"""C04 derivatives and antiderivatives agree with the values."""
from lib import *
from rules.bases import *

RULE = ("symbolic differentiation of the value graph of the basis column by column equals the value graph returned as "
        "gradient / hessian, with removed columns aligned; the derivative of the antiderivative equals the value")


def ob(g, used=False):
    def f(c):
        N, d = sym("N"), g.dim
        o = g.make(c, used)
        X = c.arr("X", N, d)
        n = Ax(N).p()
        B = c.meth(o, "basis", X)
        G = c.meth(o, "deriv", X)
        H = c.meth(o, "hessian", X)
        H2 = c.meth(o, "deriv", X, deriv_order=S(2))
        A = c.meth(o, "antiderivative", X) if g.anti else None
        if used:   # results stay what they are when the object is used again
            g.evals(c, o, c.arr("Z2", N, d))
        B, G, H, H2 = (c.T(t) for t in (B, G, H, H2))
        A = c.T(A) if g.anti else None
        kept = g.kept()
        xa = [as_atom(Xe(n, i)) for i in range(d)]
        for what, t, r in (("values", B, 2), ("gradient", G, 3), ("hessian", H, 4), ("second derivative", H2, 4)):
            if len(t.axes) != r:
                c.bad(what, "rank %d, expected %d" % (len(t.axes), r))
                return
        zf = g.zero_from
        for q, j in enumerate(kept):
            b = c.at(B, n, j)
            for i in range(d):
                db = diff(b, xa[i]) if not (zf and 1 >= zf) else const(0)
                c.eq("gradient of column %d along %d" % (j, i), c.at(G, n, q, i), db)
                for k in range(d):
                    ddb = diff(diff(b, xa[i]), xa[k]) if not (zf and 2 >= zf) else const(0)
                    c.eq("hessian of column %d along %d,%d" % (j, i, k), c.at(H, n, q, i, k), ddb)
                    c.eq("second derivative of column %d along %d,%d" % (j, i, k), c.at(H2, n, q, i, k), ddb)
        if A is not None:
            for j in range(g.ncols):
                b = c.at(B, n, j)
                i = j % d
                a = c.at(A, n, j)
                c.eq("antiderivative of column %d" % j, diff(a, xa[i]), b)
                for k in range(d):
                    if k != i:
                        c.eq("antiderivative of column %d along %d" % (j, k), diff(a, xa[k]), const(0))
    return f


def obligations(tier):
    return [(g.name, ob(g)) for g in base_configs(tier)] + [(g.name + " used before", ob(g, True)) for g in used_configs(tier)]
