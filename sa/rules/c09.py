"""C09 averages over trajectories pool all samples."""
from lib import *
from rules.estref import *

AGED = 4
REUSED = 4
RULE = ("every average over a list of trajectories is the sum over all samples of all trajectories divided by the total "
        "number of samples, for the serial and the parallel loop alike, and no trajectory is modified")


def ob(cls, dim, rc, ntraj, n_jobs, single=False):
    def f(c):
        e = Est(c, cls, dim, 2, rc, ntraj, n_jobs, single)
        F = {t: e.force(t) for t in e.tags}
        nf = len(e.force())
        for rep in ("", " again"):
            bm = c.meth(e.e, "compute_basis_mean")
            matrix(c, "mean of the force features" + rep, bm, ["dim_basis"], lambda k: e.mean(lambda n, t: F[t][k](n)), [nf])
            c.meth(e.e, "compute_gram_force")
            matrix(c, "Gram matrix of the force features" + rep, c.I.getattr(e.m, "gram_force"), None,
                   lambda k, l: e.mean(lambda n, t: F[t][k](n) * F[t][l](n)), [nf, nf])
            r = c.meth(e.e, "compute_effective_mass")
            em = c.T(c.I.getattr(e.m, "eff_mass"))
            inv_check(c, "effective mass" + rep, em, dim, lambda i, j: e.mean(lambda n, t: e.V(i, n, t) * e.V(j, n, t)))
        w = c.T(c.I.getattr(e.e, "weights"))
        for k, L in enumerate(e.lens):
            c.eq("weight of trajectory %d" % k, c.at(w, k), L)
        c.eq("total weight", c.T(c.I.getattr(e.e, "weightsum")).body, e.tot)
        c.no_mutation("trajectories untouched")
    return f


def inv_matrix(c, d, body):
    """numpy.linalg.inv of a d x d reference matrix (through the analyser's model of inv)"""
    a, b = Ax(d), Ax(d)
    v = const(0)
    for i in range(d):
        for j in range(d):
            v = mk_ite(c_and(c_eq(a.p(), const(i)), c_eq(b.p(), const(j))), body(i, j), v)
    return c.T(c.I.call(Ext("numpy.linalg.inv"), [T([a, b], v)], {}))


def inv_check(c, label, t, d, body):
    r = inv_matrix(c, d, body)
    c.tens(label, t, [d, d], lambda i, j: c.at(r, i, j))


def ob_gramk(cls, dim):
    def f(c):
        e = Est(c, cls, dim, 2, True, 2)
        c.meth(e.e, "compute_gram_kernel")
        K_ = {t: e.keval_tag(t) for t in e.tags}
        nk = len(K_[e.tags[0]])
        matrix(c, "Gram matrix of the kernel evaluation features", c.I.getattr(e.m, "gram_kernel"), None,
               lambda k, l: e.mean(lambda n, t: sum((K_[t][k][i](n) * K_[t][l][i](n) for i in range(dim)), const(0))), [nk, nk])
    return f


def ob_func(n_jobs):
    """the loop itself, for an arbitrary user function returning several results"""
    def f(c):
        e = Est(c, "Pos_gle", 1, 2, True, 3, n_jobs)
        fn = c.I.spec('''
def g(weight, xva, model, scale=1):
    return (xva["x"].sum("time") * scale, xva["v"] .mean("time"))
''', "g")
        r = c.meth(e.e, "loop_over_trajs", fn, e.m, scale=S(sym("sc")))
        c.eq("number of results", c.I.seqlen(r), const(2))
        a, b = c.T(c.I.getitem(r, S(0))), c.T(c.I.getitem(r, S(1)))
        tr = lambda v, t, L: mk_sum(*(lambda q: (q, const(0), L, el(v + t, iv(q), const(0))))(fresh_iv()))
        c.eq("first result", c.at(a, 0), sum((tr("x", t, L) * sym("sc") * L for t, L in zip(e.tags, e.lens)), const(0)) / e.tot)
        c.eq("second result", c.at(b, 0), sum((tr("v", t, L) for t, L in zip(e.tags, e.lens)), const(0)) / e.tot)
    return f


def obligations(tier):
    r = []
    for j in (1, 2):
        for cls in CLASSES:
            for dim in (1, 2):
                for rc in (False, True):
                    if (rc and dim == 2) and tier == "quick":
                        continue
                    r.append(("%s dim=%d const removed=%s n_jobs=%d" % (cls, dim, rc, j), ob(cls, dim, rc, 2, j)))
        r.append(("Pos_gle one data set n_jobs=%d" % j, ob("Pos_gle", 1, True, 1, j, True)))
        r.append(("Pos_gle three trajectories n_jobs=%d" % j, ob("Pos_gle", 1, False, 3, j)))
        r.append(("arbitrary function n_jobs=%d" % j, ob_func(j)))
    for cls in CLASSES:
        if cls == "Pos_gle_hybrid":
            continue
        for dim in (1, 2):
            r.append(("kernel Gram matrix %s dim=%d" % (cls, dim), ob_gramk(cls, dim)))
    return r
