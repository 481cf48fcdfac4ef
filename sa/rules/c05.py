"""C05 documented values and column order of the elementary bases."""
from lib import *
from rules.bases import *

RULE = ("every column of every elementary basis equals its documented function of the matching component "
        "(degree / harmonic / spline major, component minor) for every sample")


def ob(g, used=False):
    def f(c):
        N, d = sym("N"), g.dim
        o = g.make(c, used)
        X = c.arr("X", N, d)
        n = Ax(N).p()
        for again in (0, 1):
            B = c.meth(o, "basis", X)
            if used:
                g.evals(c, o, c.arr("Z2", N, d))
            B = c.T(B)
            if len(B.axes) != 2:
                c.bad("values", "rank %d" % len(B.axes))
                return
            for j in range(g.ncols):
                c.eq("column %d" % j, c.at(B, n, j), g.col(c, n, j))
            if again == 0:
                c.meth(o, "deriv", X)
                c.meth(o, "hessian", X)
        c.no_mutation("samples untouched")
    return f


def obligations(tier):
    return [(g.name, ob(g)) for g in base_configs(tier)] + [(g.name + " used before", ob(g, True)) for g in used_configs(tier)]
