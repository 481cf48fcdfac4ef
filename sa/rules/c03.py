"""C03 shape contract of the bases."""
from lib import *
from rules.bases import *

RULE = ("for every number of samples: values (samples, n_output_features_), gradients and hessians drop exactly the "
        "removed constants and append one axis per derivative, antiderivatives keep all columns")


def ob(g, used=False):
    def f(c):
        N, d = sym("N"), g.dim
        o = g.make(c, used)
        X = c.arr("X", N, d)
        nf = c.T(c.I.getattr(o, "n_output_features_"), "size")
        c.eq("advertised size", nf.body, const(g.ncols))
        kept = g.ncols - len(g.drop)
        for again in (0, 1):
            c.shape("values", c.meth(o, "basis", X), N, g.ncols)
            c.shape("gradient", c.meth(o, "deriv", X), N, kept, d)
            c.shape("gradient order 1", c.meth(o, "deriv", X, deriv_order=S(1)), N, kept, d)
            c.shape("second derivatives", c.meth(o, "deriv", X, deriv_order=S(2)), N, kept, d, d)
            c.shape("hessian", c.meth(o, "hessian", X), N, kept, d, d)
            if g.anti:
                c.shape("antiderivative", c.meth(o, "antiderivative", X), N, g.ncols)
        nf = c.T(c.I.getattr(o, "n_output_features_"), "size")
        c.eq("advertised size stays", nf.body, const(g.ncols))
        do = c.T(c.I.getattr(o, "dim_out_basis"), "dim_out")
        c.eq("scalar basis", do.body, const(1))
        c.no_mutation("samples and description untouched")
    return f


def ob_array_fit(g):
    """fitting from raw samples instead of a description"""
    def f(c):
        N, d = sym("N"), g.dim
        o = g.build(c)
        X = c.arr("X", N, d)
        c.meth(o, "fit", X)
        nf = c.T(c.I.getattr(o, "n_output_features_"), "size")
        c.eq("advertised size", nf.body, const(g.ncols))
        c.shape("values", c.meth(o, "basis", X), N, g.ncols)
        c.no_mutation("samples untouched")
    return f


def obligations(tier):
    r = [(g.name, ob(g)) for g in base_configs(tier)]
    r += [(g.name + " fitted on samples", ob_array_fit(g)) for g in base_configs(tier) if not g.name.startswith("BSpline")]
    r += [(g.name + " used before", ob(g, True)) for g in used_configs(tier)]
    return r
