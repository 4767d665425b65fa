#!/usr/bin/env python3
"""Seed workshop. usage: seed.py try ID [PROPS...]: apply seeded/ID to /repo, build, run the stable
tests and the demo, run the given checks (default: its property), then restore /repo.
seed.py new ID PROPERTY < edits: see make()."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"


def sh(cmd, cwd=R, **kw):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def clean():
    rc, out = sh("git status --porcelain")
    return not out.strip()


def make(id, prop, needs, what, edits, demo, files=()):
    """edits: [(file, old, new)], each old occurring exactly once"""
    assert clean(), "repo not clean"
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    try:
        for fn, old, new in edits:
            p = os.path.join(R, fn)
            s = open(p).read()
            assert s.count(old) == 1, (fn, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        rc, out = sh("git diff")
        open(os.path.join(d, "patch.diff"), "w").write(out)
    finally:
        sh("git checkout -- .")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, c in files:
        open(os.path.join(d, n), "w").write(c)


def trial(id, props=None, demo=True):
    assert clean(), "repo not clean"
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(os.path.join(d, "meta.json")))
    res = []
    if demo:
        sh("bash /opt/vp/build.sh")
        rc, out = sh(f"bash {d}/demo.sh")
        res.append(f"demo on unchanged: {'ok' if rc == 0 else 'FAILS ' + out[-500:]}")
    try:
        rc, out = sh(f"git apply {d}/patch.diff")
        if rc:
            return [f"patch does not apply: {out}"]
        if demo:
            rc, out = sh("bash /opt/vp/build.sh")
            if rc:
                return ["does not build: " + out[-2500:]]
            rc, out = sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            base = json.load(open("/opt/vp/BASELINE.json"))
            res.append("tests: " + summary(t, base))
            rc, out = sh(f"bash {d}/demo.sh")
            res.append(f"demo on bug: {'shows it (' + str(rc) + ')' if rc else 'NOT SHOWN ' + out[-800:]}")
        for p in props or [meta["property"]]:
            rc, out = sh(f"python3 check.py {p}", cwd=V)
            res.append(f"check {p}: exit {rc}" + ("" if rc == 0 else "\n" + out[:1500]))
    finally:
        sh("git checkout -- .")
    return res


def summary(t, base):
    bad = [k for k in base["stable"] if k not in set(t["passed"])]
    return f"{len(t['passed'])} passed, stable tests lost: {bad[:8]}"


if __name__ == "__main__":
    if sys.argv[1] == "try":
        for l in trial(sys.argv[2], sys.argv[3:] or None):
            print(l)
    elif sys.argv[1] == "checks":        # only the checks, no build
        for l in trial(sys.argv[2], sys.argv[3:] or None, demo=False):
            print(l)
