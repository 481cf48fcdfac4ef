#!/usr/bin/env python3
"""Maintain /verif/seeded.  seed.py add <spec.py>   |   seed.py verify [ids]   |   seed.py catch [ids]

spec.py defines ID, PROPERTY, FILE, EDITS=[(old,new)], DEMO (python source), NEEDS, BREAKS.
add: makes the patch against /repo HEAD and writes the directory.
verify: in a scratch copy: patch applies, stable tests pass, demo fails with it and passes without.
catch: applies each patch to a scratch copy of the tree and runs the property's check on it (VERIF_REPO)."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = V + "/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    d = tempfile.mkdtemp(prefix="vbseed")
    sh("cp -a /repo %s/repo" % d)
    return d, d + "/repo"


def add(spec):
    m = runpy.run_path(spec)
    d, r = scratch()
    edits = m["EDITS"]
    for e in edits:
        f, old, new = (m["FILE"],) + tuple(e) if len(e) == 2 else e
        p = r + "/VolterraBasis/" + f
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = sh("git diff", cwd=r).stdout
    o = SD + "/" + m["ID"]
    os.makedirs(o, exist_ok=True)
    open(o + "/patch.diff", "w").write(diff)
    open(o + "/demo.py", "w").write(m["DEMO"].lstrip())
    open(o + "/demo.sh", "w").write('#!/bin/bash\n# exits 0 when the behaviour is right\nD=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\nR=$PWD\ncd "$W" && PYTHONPATH=$R exec_=1 /opt/venv/bin/python "$D/demo.py"\n')
    os.chmod(o + "/demo.sh", 0o755)
    json.dump(dict(property=m["PROPERTY"], needs=m["NEEDS"], what_it_breaks=m["BREAKS"]), open(o + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)
    verify([m["ID"]])


def tests_ok(r, base):
    """stable tests in a scratch copy (python sources only need no rebuild)"""
    x = sh("PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:benchmark tests/test_basis.py", cwd=r)
    return "21 passed" in x.stdout, x.stdout[-300:]


def rebuild(r):
    return sh("cd %s && PATH=/opt/venv/bin:$PATH /opt/venv/bin/python -m numpy.f2py --help >/dev/null; sed 's#/repo#%s#g' /opt/vp/build.sh > ../b.sh; bash ../b.sh" % (r, r), cwd=r)


def verify(ids):
    for i in ids:
        o = SD + "/" + i
        d, r = scratch()
        try:
            x = sh("bash %s/demo.sh" % o, cwd=r)
            if x.returncode != 0:
                print(i, "DEMO FAILS ON CLEAN", x.stdout[-300:], x.stderr[-600:]); continue
            a = sh("git apply %s/patch.diff" % o, cwd=r)
            if a.returncode:
                print(i, "NO APPLY", a.stderr); continue
            if ".f90" in open(o + "/patch.diff").read():
                b = rebuild(r)
                if b.returncode:
                    print(i, "BUILD", b.stderr[-500:]); continue
            ok, t = tests_ok(r, None)
            y = sh("bash %s/demo.sh" % o, cwd=r)
            print(i, "tests", ok, "demo-with-patch rc", y.returncode, (y.stdout + y.stderr).strip()[-160:].replace("\n", " | "))
            if not ok:
                print(t)
        finally:
            shutil.rmtree(d)


def catch(ids, every=False):
    cj = V + "/tools/caught.json"
    caught = json.load(open(cj)) if os.path.exists(cj) else {}
    pids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
    for i in ids:
        o = SD + "/" + i
        p = json.load(open(o + "/meta.json"))["property"]
        d, r = scratch()
        try:
            a = sh("git apply %s/patch.diff" % o, cwd=r)
            for q in (pids if every else [p]):
                x = sh("VERIF_REPO=%s python3 check.py %s" % (r, q), cwd=V)
                got = set(caught.get(i, []))
                (got.add if x.returncode == 1 else got.discard)(q)
                caught[i] = sorted(got)
                json.dump(caught, open(cj, "w"), indent=1, sort_keys=True)
                if q == p or x.returncode:
                    print("%-28s %s %s %s" % (i, q, {0: "MISSED", 1: "caught"}.get(x.returncode, x.returncode), x.stdout.strip().split("\n")[-2][:140] if x.returncode else ""))
        finally:
            shutil.rmtree(d)


if __name__ == "__main__":
    c, rest = sys.argv[1], sys.argv[2:]
    if c == "add":
        for s in rest:
            add(s)
    elif c == "verify":
        verify(rest or sorted(os.listdir(SD)))
    elif c == "catch":
        catch(rest or sorted(os.listdir(SD)))
    elif c == "catchall":
        catch(rest or sorted(os.listdir(SD)), True)
