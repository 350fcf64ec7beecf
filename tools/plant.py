"""Authoring aid for seeded/: bug(id, property, [(path, old, new)], needs, breaks, demo-python) writes seeded/<id> after
confirming, in a scratch copy of /repo, that the change builds, passes the tests, and that the demo tells it apart.
catch(id) runs the property's quick check against a copy of /repo that carries it."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"
def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, **(env or {}))
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout
def tests(d):
    rc, out = sh("%s -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --ignore=tests/pytracer/test_render.py" % PY, d,
                 dict(PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1", LC_ALL="C.UTF-8", PYTHONHASHSEED="0"))
    return rc == 0, out[-300:]
def bug(bid, prop, edits, needs, breaks, demo):
    dst = os.path.join(SEED, bid)
    tmp = tempfile.mkdtemp(prefix="plant")
    w = os.path.join(tmp, "repo")
    try:
        shutil.copytree("/repo", w, symlinks=True)
        for path, old, new in edits:
            p = os.path.join(w, path)
            s = open(p).read()
            assert s.count(old) == 1, (bid, path, s.count(old))
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", w)
        bad = original(w, diff)
        if bad:
            print(bid, "changes lines of my own commits:", bad)
            return False
        stage = os.path.join(tmp, "b")
        os.makedirs(stage)
        open(os.path.join(stage, "patch.diff"), "w").write(diff)
        open(os.path.join(stage, "demo.py"), "w").write(demo.lstrip("\n"))
        open(os.path.join(stage, "demo.sh"), "w").write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(stage, "meta.json"), "w"), indent=1)
        rc1, o1 = sh("bash %s/demo.sh" % stage, w)
        rc0, o0 = sh("bash %s/demo.sh" % stage, "/repo")
        ok, tail = tests(w)
        good = rc0 == 0 and rc1 != 0 and ok
        print(bid, "demo clean", rc0, "patched", rc1, "tests", ok, "" if good else "\n" + o0[-600:] + "\n---\n" + o1[-600:] + tail)
        if good:
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(stage, dst)
        return good
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
def original(w, diff):
    """every line the patch removes was there before my own commits"""
    base = sh("git -C /repo rev-list --max-parents=0 HEAD", "/")[1].split()
    first = sh("git -C /repo log --format=%H --grep=^fix: --reverse", "/")[1].split()
    start = sh("git -C /repo rev-parse %s^" % first[0], "/")[1].strip()
    bad, path, n = [], None, 0
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            path = l[6:]
        elif l.startswith("@@"):
            n = int(l.split()[1][1:].split(",")[0])
        elif l.startswith("-") and not l.startswith("---"):
            b = sh("git blame -s -l -L %d,%d %s..HEAD -- %s" % (n, n, start, path), w)[1]
            if not b.startswith("^"):
                bad.append(l)
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad
def catch(bid, tier="quick", props=None):
    """run the property's check against a copy of /repo that carries the patch"""
    d = os.path.join(SEED, bid)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="catch")
    try:
        w = os.path.join(tmp, "repo")
        shutil.copytree("/repo", w, symlinks=True)
        rc, o = sh("git apply %s/patch.diff" % d, w)
        assert rc == 0, o
        res = False
        for q in [prop] + list(props or []):
            rc, o = sh("VERIF_REPO=%s VERIF_SEED=1 python3 check.py %s %s" % (w, q, tier), ROOT, timeout=1800)
            hit = rc == 1 and "VIOLATION property=" + q in o
            res |= hit and q == prop
            print(bid, q, "CAUGHT" if hit else "missed rc=%d" % rc, "|", "; ".join(l.strip() for l in o.splitlines() if "clause" in l)[:200], flush=True)
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
if __name__ == "__main__":
    for b in sys.argv[1:] or sorted(os.listdir(SEED)):
        catch(b)
