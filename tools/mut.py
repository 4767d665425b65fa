#!/usr/bin/env python3
"""usage: mut.py FILE IDs...  -- FILE defines CASES = [(name, 'bug'|'same', [(file, old, new), …]), …];
each case is applied to a scratch copy of /repo and the checks are run on it."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = sys.argv[2:]
only = os.environ.get("ONLY")


def one(case):
    name, kind, edits = case
    w = tempfile.mkdtemp(prefix="mut")
    try:
        subprocess.run(f"cd /repo && git ls-files -z | xargs -0 tar cf - | tar xf - -C {w} && cp /repo/Cargo.lock {w}/", shell=True, check=True)
        for f, a, b in edits:
            p = os.path.join(w, f)
            s = open(p).read()
            if s.count(a) < 1:
                return name, kind, "EDIT DOES NOT APPLY: " + a[:50]
            open(p, "w").write(s.replace(a, b) if a.isidentifier() else s.replace(a, b, 1))
        out = []
        for i in ids:
            r = subprocess.run(["timeout", "400", sys.executable, "check.py", i], cwd=os.path.join(os.path.dirname(__file__), ".."),
                               env=dict(os.environ, VERIF_REPO=w, VERIF_EVID=w + "/evid"), capture_output=True, text=True)
            tail = [l for l in (r.stdout + r.stderr).splitlines() if "[" in l or "rror" in l][:4]
            out.append(f"{i}={r.returncode}" + ("" if r.returncode == 0 else " " + " | ".join(x.strip()[:170] for x in tail)))
        ok = all("=0" in o.split()[0] for o in out)
        verdict = "ok" if ok == (kind == "same") else ("FALSE ALARM" if kind == "same" else "MISSED")
        return name, kind, verdict + "  " + "; ".join(out)
    finally:
        shutil.rmtree(w)


cases = [c for c in ns["CASES"] if not only or only in c[0]]
with ThreadPoolExecutor(int(os.environ.get("JOBS", 3))) as ex:
    for r in ex.map(one, cases):
        print("%-34s %-5s %s" % r, flush=True)
