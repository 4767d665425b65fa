"""Common runner: loads the program model, runs one property's rules, applies the committed
known-findings list (exact keys only), writes the evidence file and sets the exit status."""
import importlib, json, os, sys, time, traceback

from mir import VERIF, Program, extract

EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []        # dicts: key, rule, where, msg, path
        self.counts = {}            # measured on this run
        self.notes = []
        self.rules = []
        self.samples = []
        self.assumptions = []

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def violate(self, key, rule, where, msg, path=None):
        """key: stable identity without line numbers; where: file:line for the reader"""
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "rule": rule, "where": where, "msg": msg,
                                "path": path or []})

    def floor(self, name, minimum):
        """instances matched must not silently vanish"""
        got = self.counts.get(name, 0)
        if got < minimum:
            self.violate(f"floor:{name}", "coverage-floor", "-",
                         f"only {got} instances of '{name}' were found, at least {minimum} are "
                         f"expected: the code the rule is about is gone or no longer recognised")


def load_known():
    known, fixed = {}, []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.rstrip("\n")
            if line.startswith("known: "):
                head, _, what = line[len("known: "):].partition(" :: ")
                pid, _, key = head.partition(" ")
                known[(pid.replace("property=", ""), key.replace("key=", "", 1))] = what
            elif line.startswith("fixed: "):
                fixed.append(line)
    return known, fixed


_prog = {}


def program(features="all"):
    if features not in _prog:
        _prog[features] = Program(extract(features))
    return _prog[features]


def run_check(pid, level="other"):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    except ValueError:
        seed = 0
    os.makedirs(EVID, exist_ok=True)
    rep = Report(pid)
    rep.tier = tier
    mod = importlib.import_module("props." + pid.lower())
    mod.run(program(), rep)
    known, _fixed = load_known()
    fresh, old = [], []
    for v in rep.violations:
        if (pid, v["key"]) in known:
            old.append(v)
        else:
            fresh.append(v)
    for v in old:
        print(f"KNOWN-FINDING: property={pid} {known[(pid, v['key'])]}")
    cov = {
        "explanation": "static analysis of the MIR of /repo's current working tree; nothing is "
                       "executed. " + " ".join(rep.rules),
        "functions_in_program": len(program().fns),
    }
    cov.update(rep.counts)
    if rep.samples:
        cov["samples"] = rep.samples
    if rep.notes:
        cov["notes"] = rep.notes
    cov["known_findings_matched"] = [v["key"] for v in old]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 3), "assumptions": rep.assumptions,
          "violations": [f"{v['where']}: [{v['rule']}] {v['msg']} (key {v['key']})" for v in fresh]}
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(EVID, f"{pid}.violations.json")
    if fresh:
        with open(rp, "w") as f:
            json.dump(fresh, f, indent=1)
        for v in fresh:
            print(f"  {v['where']}: [{v['rule']}] {v['msg']}")
            print(f"      key: {v['key']}")
            for p in v["path"]:
                print(f"      via {p}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if os.path.exists(rp):
        os.remove(rp)
    print(f"{pid}: held ({', '.join(f'{k}={v}' for k, v in rep.counts.items())})")
    return 0


def main(argv):
    if len(argv) != 1:
        print("usage: check.py <PROPERTY>|all")
        return 2
    ids = argv
    if argv[0] == "all":
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        ids = [c["property"] for c in man["checks"]]
    rc = 0
    for i in ids:
        try:
            rc = max(rc, run_check(i))
        except Exception:
            traceback.print_exc()
            rc = 2
    return rc
