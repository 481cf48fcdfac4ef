#!/usr/bin/env python3
"""Decide one property from the source in /repo.   check.py <ID> [--tier quick|thorough] [-v]

exit 0: held (obligations proved; undecided ones are listed in the evidence)
exit 1: VIOLATION line
exit 2: the rule's entry points are gone (nothing could be analysed)
"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sa"))
sys.dont_write_bytecode = True
import lib  # noqa: E402

KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def known(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                r.append(l[len("known: property=%s " % pid):])
    return r


def site(f):
    """module:function -> file:function"""
    m, _, n = f.partition(":")
    p = m.replace(".", "/")
    if m == "fkernel":
        p += ".f90"
    elif not p:
        p = "__init__.py"
    else:
        p += ".py"
    return "VolterraBasis/%s:%s" % (p, n)


def _work(a):
    name, i, tier, limit = a
    return lib.run_obligation(name, OBS[i][1], tier, limit)


def main():
    global OBS
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-k", default="")
    ap.add_argument("-j", type=int, default=min(8, os.cpu_count() or 1))
    a = ap.parse_args()
    pid, tier = a.id, ("thorough" if a.tier == "thorough" else "quick")
    t0 = time.time()
    mod = importlib.import_module("rules." + pid.lower())
    OBS = mod.obligations(tier)
    n = getattr(mod, "AGED", 12 if tier == "quick" else 24)
    OBS += [(o[0] + " [after other data]", lib.aged(o[1])) for o in OBS[::max(1, -(-len(OBS) // n))]] if n else []
    n = getattr(mod, "REUSED", 12 if tier == "quick" else 24)
    base = [o for o in OBS if not o[0].endswith("[after other data]")]
    OBS += [(o[0] + " [reused object]", lib.reused(o[1])) for o in base[1::max(1, -(-len(base) // n))]] if n else []
    OBS = [o for o in OBS if a.k in o[0]]
    limit = 120 if tier == "quick" else 600
    jobs = [(o[0], i, tier, limit) for i, o in enumerate(OBS)]
    if a.j > 1 and len(jobs) > 1:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(a.j, len(jobs)), maxtasksperchild=4) as p:
            res = list(p.imap(_work, jobs, chunksize=1))
    else:
        res = [_work(j) for j in jobs]
    counts = {"proved": 0, "violated": 0, "undecided": 0}
    viol, und, miss, fns, samples = [], [], [], set(), []
    for r in res:
        fns.update(r["fns"])
        if r["missing"]:
            miss.append(r["missing"])
        for st, lab, why in r["recs"]:
            counts[st] += 1
            full = lab if lab.startswith(r["name"]) else r["name"] + ": " + lab
            if st == "violated":
                viol.append((full, why, sorted(r["fns"])))
            elif st == "undecided":
                und.append((full, why))
            elif len(samples) < 12 and (not samples or samples[-1].split(":")[0] != r["name"]):
                samples.append(full)
        if a.v:
            cs = {}
            for st, lab, why in r["recs"]:
                cs[st] = cs.get(st, 0) + 1
            print("%-50s %s %.1fs %s" % (r["name"], cs, r["wall"], ""))
            for st, lab, why in r["recs"]:
                if st != "proved":
                    print("     %s %s :: %s" % (st.upper(), lab, why[:900]))
            if r["notes"]:
                print("     notes", r["notes"])
    kf, new = [], []
    kn = known(pid)
    for lab, why, fs in viol:
        k = next((x for x in kn if lab.startswith(x.split(" :: ")[0])), None)
        (kf if k else new).append((lab, why, k, fs))
    EV = os.environ.get("VERIF_EVIDENCE") or os.path.join(HERE, "evidence")
    os.makedirs(EV, exist_ok=True)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": mod.RULE + " | technique: interprocedural abstract interpretation of the source into canonical value graphs, compared with the reference by value numbering; nothing is executed.",
            "rule_instances": len(OBS),
            "obligations": sum(counts.values()),
            "discharged": counts["proved"],
            "undecided": counts["undecided"],
            "functions_analysed": len(fns),
            "functions": sorted(fns)[:300],
            "undecided_items": ["%s :: %s" % u for u in und][:20],
            "samples": samples,
        },
        "assumptions": getattr(mod, "ASSUME", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(EV, pid + ".json"), "w"), indent=1)
    for k in sorted({x[2] for x in kf}):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s [%s]: %d rule instances, %d obligations, %d proved, %d undecided, %d violated (%d known), %d functions, %.1fs" % (
        pid, tier, len(OBS), sum(counts.values()), counts["proved"], counts["undecided"], counts["violated"], len(kf), len(fns), time.time() - t0))
    if new:
        rp = os.path.join(EV, pid + ".violation.txt")
        with open(rp, "w") as f:
            f.write("property %s\nrule: %s\n\n" % (pid, mod.RULE))
            for lab, why, _, fs in new:
                f.write("VIOLATED %s\n    %s\n    call graph analysed: %s\n" % (lab, why, ", ".join(site(x) for x in fs if not x.startswith("<"))))
        for lab, why, _, fs in new[:8]:
            print("  %s :: %s\n     in: %s" % (lab, why[:300], ", ".join(site(x) for x in fs if not x.startswith("<"))[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if counts["proved"] == 0 and miss:
        print("NOT ANALYSABLE: entry points missing: %s" % ", ".join(sorted(set(miss))))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
