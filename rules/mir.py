"""Program model over the facts written by the mirfacts driver: functions, CFGs, call graph.

Everything here is about the resolved program (MIR after drop elaboration, resolved callees,
types), never about source text."""
import json, os, subprocess, sys, re, fcntl
from collections import defaultdict, deque

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")


class ExtractionError(Exception):
    pass


def _run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    return p.returncode, p.stdout


def _env():
    env = dict(os.environ)
    for k in ("RUSTUP_TOOLCHAIN", "RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
        env.pop(k, None)
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_INCREMENTAL"] = "0"
    rc, out = _run(["rustc", "+nightly", "--print", "sysroot"], env=env)
    if rc != 0:
        raise ExtractionError("nightly toolchain not available: " + out)
    env["LD_LIBRARY_PATH"] = out.strip() + "/lib"
    return env


def build_driver(env=None):
    env = env or _env()
    rc, out = _run(["cargo", "+nightly", "build", "--offline", "--quiet", "--target-dir",
                    os.path.join(TARGET, "driver")], cwd=os.path.join(VERIF, "driver"), env=env)
    if rc != 0:
        raise ExtractionError("driver does not build:\n" + out[-4000:])
    return os.path.join(TARGET, "driver", "debug", "mirfacts")


def extract(features="all"):
    """Run the driver over /repo's current working tree. Returns {'lib': facts, 'bin': facts}."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = _env()
        drv = build_driver(env)
        lock = os.path.join(REPO, "Cargo.lock")
        saved = "/opt/vp/Cargo.lock.saved"
        if not os.path.exists(lock) and os.path.exists(saved):
            with open(saved) as f, open(lock, "w") as g:   # git-ignored in /repo
                g.write(f.read())
        tgt = os.path.join(TARGET, "nightly")
        # cargo's freshness cache would silently skip the wrapper: always recompile the crate
        for root in ("debug/.fingerprint", "debug/build", "debug/incremental", "debug/deps"):
            d = os.path.join(tgt, root)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith("asciidocr") or n.startswith("libasciidocr"):
                        subprocess.run(["rm", "-rf", os.path.join(d, n)])
        out_dir = os.path.join(TARGET, "facts-" + features)
        os.makedirs(out_dir, exist_ok=True)
        for n in os.listdir(out_dir):
            os.remove(os.path.join(out_dir, n))
        env["MIRFACTS_OUT"] = out_dir
        env["RUSTC_WORKSPACE_WRAPPER"] = drv
        env["CARGO_TARGET_DIR"] = tgt
        cmd = ["cargo", "+nightly", "check", "--offline", "--lib", "--bins"]
        cmd += {"all": ["--all-features"], "default": [], "none": ["--no-default-features"]}[features]
        rc, out = _run(cmd, cwd=REPO, env=env)
        if rc != 0:
            raise ExtractionError("cargo check of the analysed crate failed:\n" + out[-4000:])
        facts = {}
        for kind in ("lib", "bin"):
            p = os.path.join(out_dir, f"asciidocr-{kind}.json")
            if not os.path.exists(p):
                raise ExtractionError(f"no facts for the {kind} crate (wrapper was not run)")
            with open(p) as f:
                s = f.read()
            pref = "asciidocr::" if kind == "lib" else "bin::"
            s = re.sub(r"(?<![A-Za-z0-9_:])crate::", pref, s)
            facts[kind] = json.loads(s)
        return facts


class Ty:
    __slots__ = ("s", "k", "d", "args", "prog")

    def __init__(self, prog, d):
        self.prog, self.d = prog, d
        self.s = d["s"]
        self.k = d.get("k")

    @property
    def defpath(self):
        return self.d.get("def")

    def arg(self, i=0):
        a = self.d.get("args") or []
        return self.prog["types"][a[i]] if i < len(a) else None

    def argl(self):
        return [self.prog["types"][a] for a in self.d.get("args") or []]


def short(path):
    """human-readable function name: drop generic arguments and lifetimes"""
    s = re.sub(r"::<[^<>]*>", "", path)
    s = re.sub(r"::<.*?>(?=::|$)", "", s)
    return s


class Fn:
    def __init__(self, crate, d):
        self.crate = crate          # the facts dict ('lib' or 'bin')
        self.d = d
        self.path = d["path"] + ("{promoted#%d}" % d["promoted"] if d["promoted"] is not None else "")
        self.name = d["name"]
        self.kind = d["kind"]
        self.blocks = d["blocks"]
        self.locals = d["locals"]
        self.argc = d["argc"]
        self.impl_of = d["impl_of"]
        self.trait = d["trait"]
        self.parent = d["parent"]
        self.derived = d["derived"]
        self.exported = d["exported"]
        self.file, self.line = d["span"][0], d["span"][1]
        self._succ = None
        self._idom = None

    def __repr__(self):
        return f"<Fn {self.path}>"

    @property
    def short(self):
        return short(self.path)

    def ty(self, i):
        return self.crate["types"][i]

    def lty(self, l):
        return self.ty(self.locals[l]["ty"])

    # ---- CFG ----
    def succ(self, b, unwind=False):
        t = self.blocks[b]["t"]
        k = t["t"]
        out = []
        if k == "goto":
            out = [t["to"]]
        elif k == "switch":
            out = [x[1] for x in t["vals"]] + [t["else"]]
        elif k in ("call", "drop", "assert"):
            if t.get("to") is not None:
                out = [t["to"]]
            if unwind and t.get("unwind") is not None:
                out.append(t["unwind"])
        seen, r = set(), []
        for x in out:
            if x not in seen:
                seen.add(x)
                r.append(x)
        return r

    def reachable(self, start=0, avoid=()):
        seen = set()
        st = [start]
        while st:
            b = st.pop()
            if b in seen or b in avoid:
                continue
            seen.add(b)
            st.extend(self.succ(b))
        return seen

    def preds(self):
        p = defaultdict(list)
        for b in range(len(self.blocks)):
            if self.blocks[b]["cleanup"]:
                continue
            for s in self.succ(b):
                p[s].append(b)
        return p

    def rpo(self):
        seen, order = set(), []
        def dfs(r):
            st = [(r, iter(self.succ(r)))]
            seen.add(r)
            while st:
                b, it = st[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        st.append((s, iter(self.succ(s))))
                        break
                else:
                    order.append(b)
                    st.pop()
        dfs(0)
        return order[::-1]

    def idom(self):
        if self._idom is not None:
            return self._idom
        order = self.rpo()
        num = {b: i for i, b in enumerate(order)}
        preds = self.preds()
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in order[1:]:
                ps = [p for p in preds[b] if p in idom and p in num]
                if not ps:
                    continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while num[a] > num[c]:
                            a = idom[a]
                        while num[c] > num[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    changed = True
        self._idom = idom
        return idom

    def dominates(self, a, b):
        idom = self.idom()
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def loops(self):
        """natural loops: header -> set of blocks"""
        preds = self.preds()
        res = {}
        reach = set(self.rpo())
        for b in reach:
            for s in self.succ(b):
                if s in reach and self.dominates(s, b):
                    body = res.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in preds[x] if p in reach)
        return res

    # ---- iteration ----
    def calls(self, cleanup=False):
        for bi, b in enumerate(self.blocks):
            if b["cleanup"] and not cleanup:
                continue
            if b["t"]["t"] == "call":
                yield bi, b["t"]

    def stmts(self, cleanup=False):
        for bi, b in enumerate(self.blocks):
            if b["cleanup"] and not cleanup:
                continue
            for si, s in enumerate(b["s"]):
                yield bi, si, s


def callee(term):
    f = term["func"]
    if "const" in f and "fn" in f["const"]:
        return f["const"]["fn"]
    return None


def loc(span):
    return f"{span[0]}:{span[1]}"


class Program:
    def __init__(self, facts):
        self.facts = facts
        self.fns = {}
        self.adts = {}
        for kind in ("lib", "bin"):
            c = facts[kind]
            c["types"] = [Ty(c, t) if t else None for t in c["types"]]
            for a in c["adts"]:
                if a and (a["path"] not in self.adts or a["local"]):
                    a["crate"] = c
                    self.adts[a["path"]] = a
            for d in c["fns"]:
                f = Fn(c, d)
                f.krate = kind
                self.fns[f.path] = f
        self.statics = [s for k in ("lib", "bin") for s in facts[k]["statics"]]
        self._cg = None

    def adt_fields(self, path, variant=0):
        a = self.adts[path]
        return [(f["name"], a["crate"]["types"][f["ty"]] if f["ty"] is not None else None)
                for f in a["variants"][variant]["fields"]]

    def variants(self, path):
        return [v["name"] for v in self.adts[path]["variants"]]

    def find(self, suffix):
        """functions whose generic-free path ends with `suffix` on a path boundary"""
        r = []
        for f in self.fns.values():
            s = f.short
            if s == suffix or s.endswith("::" + suffix):
                r.append(f)
        return r

    def bodies(self, promoted=False, derived=True):
        for f in self.fns.values():
            if f.d["promoted"] is not None and not promoted:
                continue
            if f.derived and not derived:
                continue
            yield f

    # call graph: direct resolved calls, closures created, fn items mentioned as values
    def callgraph(self):
        if self._cg is not None:
            return self._cg
        cg = defaultdict(list)   # path -> [(callee path, info, block, term or None)]
        for f in self.fns.values():
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] != "assign":
                        continue
                    rv = s["rv"]
                    if rv["r"] == "agg" and rv.get("agg") == "closure":
                        cg[f.path].append((rv["def"], None, bi, s))
                    for op in rv_operands(rv):
                        c = op.get("const")
                        if c and "fn" in c:
                            cg[f.path].append((c["fn"]["path"], c["fn"], bi, s))
                t = b["t"]
                if t["t"] == "call":
                    ci = callee(t)
                    if ci:
                        cg[f.path].append((ci["path"], ci, bi, t))
                        # trait-dispatched or generic: callee closure types in generic args
                    for op in t["args"]:
                        c = op.get("const")
                        if c and "fn" in c:
                            cg[f.path].append((c["fn"]["path"], c["fn"], bi, t))
        self._cg = cg
        return cg

    def reach_from(self, roots):
        """set of function paths (local and external) reachable; plus one witness parent each"""
        cg = self.callgraph()
        par = {}
        dq = deque()
        for r in roots:
            par[r] = None
            dq.append(r)
        while dq:
            x = dq.popleft()
            for (c, *_r) in cg.get(x, ()):
                if c not in par:
                    par[c] = x
                    dq.append(c)
        return par

    def chain(self, par, x):
        out = []
        while x is not None:
            out.append(short(x))
            x = par[x]
        return out[::-1]


def rv_operands(rv):
    k = rv["r"]
    if k in ("use", "cast", "un", "repeat"):
        return [rv["op"]]
    if k == "bin":
        return [rv["a"], rv["b"]]
    if k == "agg":
        return rv["ops"]
    return []


# ---- pretty printer for debugging ----
def pp_place(p):
    s = "_%d" % p["l"]
    for e in p["p"]:
        if e[0] == "deref":
            s = f"(*{s})"
        elif e[0] == "field":
            s += "." + (e[2] or str(e[1]))
        elif e[0] == "downcast":
            s = f"({s} as {e[2]})"
        elif e[0] == "index":
            s += f"[_{e[1]}]"
        elif e[0] == "cindex":
            s += f"[{'-' if e[3] else ''}{e[1]}]"
        else:
            s += "." + e[0]
    return s


def pp_const(c):
    for k in ("str", "char", "bool", "int"):
        if k in c:
            return repr(c[k])
    if "fn" in c:
        return "fn " + short(c["fn"]["path"])
    if "variant" in c:
        return f"variant#{c['variant']}"
    if "promoted" in c:
        return f"promoted#{c['promoted']}"
    if "static" in c:
        return "static " + c["static"]
    return "const(%s)" % {k: v for k, v in c.items() if k != "ty"}


def pp_op(o):
    if "copy" in o:
        return pp_place(o["copy"])
    if "move" in o:
        return "move " + pp_place(o["move"])
    if "const" in o:
        return pp_const(o["const"])
    return str(o)


def pp_rv(rv):
    k = rv["r"]
    if k == "use":
        return pp_op(rv["op"])
    if k == "ref":
        return ("&mut " if rv["mut"] else "&") + pp_place(rv["place"])
    if k == "bin":
        return f"{rv['bop']}({pp_op(rv['a'])}, {pp_op(rv['b'])})"
    if k == "un":
        return f"{rv['uop']}({pp_op(rv['op'])})"
    if k == "discr":
        return f"discr({pp_place(rv['place'])})"
    if k == "cast":
        return f"cast({pp_op(rv['op'])})"
    if k == "agg":
        n = rv.get("def", rv["agg"]) + ("::" + rv["vname"] if "vname" in rv else "")
        return f"{n}[{', '.join(pp_op(o) for o in rv['ops'])}]"
    return str(rv)


def pp(f, out=sys.stdout):
    print(f"fn {f.path} argc={f.argc} {f.file}:{f.line}", file=out)
    for i, l in enumerate(f.locals):
        print(f"  let _{i}: {f.ty(l['ty']).s}" + (f"  // {l['name']}" if l["name"] else ""), file=out)
    for bi, b in enumerate(f.blocks):
        if b["cleanup"]:
            continue
        print(f"  bb{bi}:", file=out)
        for s in b["s"]:
            if s["s"] == "assign":
                print(f"    {pp_place(s['place'])} = {pp_rv(s['rv'])}   // {s['span'][1]} {','.join(s['span'][2])}", file=out)
            elif s["s"] == "setdiscr":
                print(f"    setdiscr {pp_place(s['place'])} {s['variant']}", file=out)
        t = b["t"]
        k = t["t"]
        if k == "call":
            c = callee(t)
            fn = short(c["path"]) if c else pp_op(t["func"])
            print(f"    {pp_place(t['dest'])} = {fn}({', '.join(pp_op(a) for a in t['args'])}) -> {t['to']}  // {t['span'][1]} {','.join(t['span'][2])} {t['span'][3] or ''}", file=out)
        elif k == "switch":
            print(f"    switch {pp_op(t['op'])} {t['vals']} else {t['else']}", file=out)
        elif k == "drop":
            print(f"    drop {pp_place(t['place'])} : {f.ty(t['pty']).s} -> {t['to']}", file=out)
        elif k == "assert":
            print(f"    assert {t['kind']} {pp_op(t['cond'])}=={t['expected']} -> {t['to']}", file=out)
        elif k == "goto":
            print(f"    goto {t['to']}", file=out)
        else:
            print(f"    {k}", file=out)


if __name__ == "__main__":
    prog = Program(extract())
    if len(sys.argv) > 1:
        for n in sys.argv[1:]:
            for f in prog.find(n):
                pp(f)
    else:
        for f in sorted(prog.fns):
            print(f)
