"""Panic freedom by abstract interpretation of the MIR.

Forward dataflow with joins over every function reachable from the entry point.  A state holds, per
place, the set of possible variants, what is known about the text of a string, which place a
reference points to, and difference bounds between lengths and integers.  States are kept apart by
the constants of live flags and options.  Calls of the crate's own functions use summaries (facts
per return value, places modified) and give the callee its entry facts; calls of the standard
library are modelled below.  Every place where the program can panic is then either shown to be
safe or reported.
"""
import time
from collections import defaultdict, deque
import re
import mir
from mir import callee, short

NONE, SOME = 0, 1
OK, ERR = 0, 1
CAP = 20            # states per block
INF = 10 ** 9


def payload(v):
    return ("f", 0, None, v)


SOMEP = payload(SOME)
OKP, ERRP = payload(OK), payload(ERR)
EMPTY = (None, None, None)      # variants, value, text


def overlaps(p, q):
    """q lies in p (elements of a container may be the same one)"""
    if q[0] != p[0] or len(q) < len(p):
        return False
    for a, b in zip(p, q):
        if a != b and not (a[0] == "e" and b[0] == "e"):
            return False
    return True


def fold(p):
    """a place cut where the way to it begins to repeat (recursive data)"""
    seen = set()
    for i, e in enumerate(p):
        if e[0] == "f" and e[2] is not None:
            if e in seen:
                return p[:i]
            seen.add(e)
    return p[:12]


class Contradiction(Exception):
    pass


class Bounds(dict):
    """difference bounds; the graph made of them is kept until something changes"""
    __slots__ = ("graph",)

    def __init__(self, *a):
        dict.__init__(self, *a)
        self.graph = None

    def __setitem__(self, k, v):
        self.graph = None
        dict.__setitem__(self, k, v)

    def __delitem__(self, k):
        self.graph = None
        dict.__delitem__(self, k)

    def pop(self, *a):
        self.graph = None
        return dict.pop(self, *a)


class State:
    __slots__ = ("F", "Z", "B", "org")

    def __init__(self):
        self.F, self.Z, self.B, self.org = {}, Bounds(), frozenset(), {}

    def copy(self):
        s = State()
        s.F, s.Z, s.B, s.org = dict(self.F), Bounds(self.Z), self.B, dict(self.org)
        s.Z.graph = self.Z.graph
        return s

    def same(self, o):
        return self.F == o.F and self.Z == o.Z and self.B == o.B and self.org == o.org

    # ---- facts ----
    def get(self, p):
        return self.F.get(p, EMPTY)

    def put(self, p, var=None, val=None, text=None):
        if var is None and val is None and text is None:
            self.F.pop(p, None)
        else:
            self.F[p] = (var, val, text)

    def upd(self, p, **kw):
        v = self.get(p)
        self.put(p, kw.get("var", v[0]), kw.get("val", v[1]), kw.get("text", v[2]))

    # ---- difference bounds ----
    def adj(self):
        r = self.Z.graph
        if r is None:
            g = {}
            neg = set()
            for (x, y), c in self.Z.items():
                g.setdefault(x, []).append((y, c))
                if c < 0 and x is not None and x[0] != "i":
                    neg.add(x)
            r = self.Z.graph = (g, tuple(neg))
        return r

    def bound(self, x, y):
        """smallest known c with x - y <= c (INF if none)"""
        if x == y:
            return 0
        g, neg = self.adj()
        if x is not None and x not in g:
            return INF
        plain = y is not None and y[0] != "i"
        dist = {x: 0}
        dq = deque([x])
        n = 0
        while dq and n < 400:
            n += 1
            a = dq.popleft()
            d = dist[a]
            if a is None:
                # 0 - s <= 0
                if plain and d < dist.get(y, INF):
                    dist[y] = d
                for s in neg:
                    if d < dist.get(s, INF):
                        dist[s] = d
                        dq.append(s)
            for b, c in g.get(a, ()):
                if d + c < dist.get(b, INF):
                    dist[b] = d + c
                    if b != y:
                        dq.append(b)
        return dist.get(y, INF)

    def le(self, a, b, k=0):
        """a + k <= b for linear a, b"""
        return self.bound(a[0], b[0]) <= b[1] - a[1] - k

    def eq(self, a, b):
        return self.le(a, b) and self.le(b, a)

    def assume(self, x, y, c):
        """x - y <= c"""
        if x == y:
            if c < 0:
                raise Contradiction
            return
        b = self.bound(y, x)
        if b < INF and b + c < 0:
            raise Contradiction
        if self.bound(x, y) > c:
            self.Z[(x, y)] = c

    def assume_le(self, a, b, k=0):
        self.assume(a[0], b[0], b[1] - a[1] - k)

    def assume_eq(self, a, b):
        self.assume_le(a, b)
        self.assume_le(b, a)

    def forget_sym(self, s):
        ins = [(x, c) for (x, y), c in self.Z.items() if y == s]
        outs = [(y, c) for (x, y), c in self.Z.items() if x == s]
        for x, _ in ins:
            del self.Z[(x, s)]
        for y, _ in outs:
            self.Z.pop((s, y), None)
        for x, c in ins:
            for y, d in outs:
                if x != y and self.Z.get((x, y), INF) > c + d:
                    if not (x is None and y is not None and y[0] != "i" and c + d >= 0):
                        self.Z[(x, y)] = c + d
        self.B = frozenset(b for b in self.B if b[0] != s)

    def shift(self, s, k):
        """s := s + k"""
        Z = Bounds()
        for (x, y), c in self.Z.items():
            if x == s:
                c += k
            elif y == s:
                c -= k
            Z[(x, y)] = c
        self.Z = Z
        if k > 0:
            self.assume(None, s, -k)
        self.B = frozenset(b for b in self.B if b[0] != s)
        self.drop_vals(lambda v: mentions_sym(v, s))

    def grow(self, s):
        for k in [k for k in self.Z if k[0] == s]:
            del self.Z[k]
        self.drop_vals(lambda v: mentions_sym(v, s))

    def shrink(self, s):
        for k in [k for k in self.Z if k[1] == s]:
            del self.Z[k]
        self.drop_vals(lambda v: mentions_sym(v, s))

    def drop_vals(self, pred):
        for p in [p for p, f in self.F.items() if f[1] is not None and pred(f[1])]:
            self.upd(p, val=None)

    def syms(self):
        out = set()
        for x, y in self.Z:
            if x is not None:
                out.add(x)
            if y is not None:
                out.add(y)
        return out

    def kill(self, p, inside=False):
        """forget everything about what is stored at p (inside: only about its parts)"""
        r = p[0]
        for q in [q for q in self.F if q[0] == r and overlaps(p, q) and not (inside and len(q) == len(p))]:
            del self.F[q]
        for s in self.syms():
            if s[1][0][0] == "P":
                if any(overlaps(p, q) or overlaps(q, p) for q in s[1][0][2]):
                    self.forget_sym(s)
            elif s[1][0] == r and overlaps(p, s[1]) and not (inside and len(s[1]) == len(p)):
                self.forget_sym(s)
        if self.B:
            self.B = frozenset(b for b in self.B if not overlaps(p, b[2]) and not overlaps(p, b[0][1]))
        for q in [q for q, f in self.F.items() if f[1] is not None and f[1][0] in ("d", "same", "c")
                  and mentions(f[1], p, inside)]:
            self.upd(q, val=None)

    def stale(self, p):
        """p was modified: what was computed from it may come out otherwise now"""
        for s in [s for s in self.syms() if s[1][0][0] == "P"]:
            if any(overlaps(p, q) or overlaps(q, p) for q in s[1][0][2]):
                self.forget_sym(s)

    def copy_tree(self, src, dst):
        if overlaps(src, dst) and src != dst or overlaps(dst, src) and src != dst:
            items = {q[len(src):]: f for q, f in self.F.items() if q[:len(src)] == src}
            self.kill(dst)
            for r, f in items.items():
                self.F[dst + r] = f
            return
        if src == dst:
            return
        n = len(src)
        self.kill(dst)
        for q, f in list(self.F.items()):
            if q[:n] == src:
                self.F[dst + q[n:]] = f
        for s in self.syms():
            if s[1][:n] == src:
                t = (s[0], dst + s[1][n:])
                self.Z[(s, t)] = 0
                self.Z[(t, s)] = 0
        if self.B:
            add = {(b[0], b[1], dst + b[2][n:]) for b in self.B if b[2][:n] == src}
            add |= {((b[0][0], dst + b[0][1][n:]), b[1], b[2]) for b in self.B if b[0][1][:n] == src}
            self.B |= add


def atom_places(a):
    if a[0] in ("var", "has", "pre", "suf"):
        return (a[1],)
    if a[0] in ("z", "ne"):
        return tuple(s[1] for s in (a[1], a[2]) if s is not None)
    return ()


def mentions(v, p, inside=False):
    k = v[0]
    if k in ("d", "same"):
        return overlaps(p, v[1]) and not (inside and len(v[1]) == len(p))
    if k == "c":
        return any(overlaps(p, q) and not (inside and len(q) == len(p))
                   for side in v[1:] for a in side for q in atom_places(a))
    return False


def mentions_sym(v, s):
    if v[0] == "c":
        return any(a[0] in ("z", "ne") and s in (a[1], a[2]) for side in v[1:] for a in side)
    return False


def join_text(a, b):
    if a is None or b is None:
        return None
    pre = []
    for x, y in zip(a[0], b[0]):
        pre.append(x | y)
    suf = []
    for x, y in zip(a[1], b[1]):
        suf.append(x | y)
    t = (tuple(pre), tuple(suf), a[2] & b[2])
    return t if pre or suf or t[2] else None


VERBOSE = False
VECS = ("std::vec::Vec", "std::collections::VecDeque", "alloc::vec::Vec")
CTX = "\0"
WEAK = ("weak",)
ASCII = frozenset(chr(i) for i in range(128))


def lit_text(s):
    """text fact of a literal: leading and trailing ASCII characters, characters contained"""
    pre, suf = [], []
    for c in s:
        if ord(c) > 127:
            break
        pre.append(frozenset(c))
    for c in reversed(s):
        if ord(c) > 127:
            break
        suf.append(frozenset(c))
    return (tuple(pre[:16]), tuple(suf[:16]), frozenset(s))


class Fact:
    pass


class Summary:
    __slots__ = ("exits", "mods")

    def __init__(self):
        self.exits = []      # list of (key, State)
        self.mods = frozenset()


class Engine:
    def __init__(self, prog, rep, roots, skip, shapes=None, inv=None, given=None):
        self.prog, self.rep = prog, rep
        self.skip = skip                 # functions not looked into (decided elsewhere)
        self.shapes = shapes or {}
        self.inv = self.candidates() if inv is None else inv
        self.refuted = {}
        self.entry = {}
        self.summ = {}
        self.callers = defaultdict(set)
        self.found = {}
        self.sites = {}
        self.stopped = None
        self.deadline = time.time() + 500
        self.unmodelled = defaultdict(int)
        self.live_cache = {}
        self.visits = defaultdict(int)
        self.collect = False
        self.reach = {p for p in prog.reach_from(roots) if p in prog.fns}
        self.roots = roots
        self.built = self.constructed()
        self.strict = set()
        # functions called only by what is decided elsewhere: nothing is known when they begin
        self.extra = {c[0] for p in skip for c in prog.callgraph().get(p, ())
                      if c[0] in prog.fns and c[0] in self.reach and c[0] not in skip and not prog.fns[c[0]].derived
                      and "promoted" not in c[0] and c[0] not in (given or ())}
        self.strict = set(prog.reach_from(list(self.extra))) if self.extra else set()
        self.closure_mode = set()
        self.exits_grow = defaultdict(int)
        self.reached = {}
        self.weaker = []
        self.in_agg = False
        self.kept_cache = {}
        self.pos_cache = None
        self.pure_cache = {}

    # ------------------------------------------------------------------ program facts
    def constructed(self):
        """variants of the crate's enums that are made anywhere in the program"""
        made = defaultdict(set)
        for f in self.prog.fns.values():
            if f.derived and f.name == "clone":
                continue
            ds = f.name in ("deserialize", "visit_enum", "visit_seq", "visit_map")
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] == "assign":
                        rv = s["rv"]
                        if rv["r"] == "agg" and rv.get("agg") == "adt":
                            made[rv["def"]].add(rv["variant"])
                        for op in mir.rv_operands(rv):
                            self.const_variants(f, op, made)
                        if ds:
                            pass
                    elif s["s"] == "setdiscr":
                        d = f.ty(s["pty"]).defpath if "pty" in s else None
                        if d:
                            made[d].add(s["variant"])
                if b["t"]["t"] == "call":
                    for op in b["t"]["args"]:
                        self.const_variants(f, op, made)
        return made

    def const_variants(self, f, op, made):
        c = op.get("const")
        if not c:
            return
        if "variant" in c:
            d = f.ty(c["ty"]).defpath
            if d:
                made[d].add(c["variant"])
        if "fn" in c:
            # a constructor used as a function
            p = c["fn"]["path"]
            base, _, v = p.rpartition("::")
            a = self.prog.adts.get(base)
            if a and v in self.prog.variants(base):
                made[base].add(self.prog.variants(base).index(v))

    def all_variants(self, ty):
        d = ty.defpath if ty is not None else None
        if d is None or d not in self.prog.adts:
            return None
        n = len(self.prog.adts[d]["variants"])
        if self.prog.adts[d].get("local"):
            m = self.built.get(d)
            if m:
                return frozenset(m)
        return frozenset(range(n))

    # ------------------------------------------------------------------ liveness
    def live(self, f):
        r = self.live_cache.get(f.path)
        if r is not None:
            return r
        n = len(f.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def u(b, l):
            if l not in dfn[b]:
                use[b].add(l)

        def uplace(b, p):
            u(b, p["l"])
            for e in p["p"]:
                if e[0] == "index":
                    u(b, e[1])

        def uop(b, op):
            for k in ("copy", "move"):
                if k in op:
                    uplace(b, op[k])
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign":
                    rv = s["rv"]
                    for op in mir.rv_operands(rv):
                        uop(bi, op)
                    if "place" in rv:
                        uplace(bi, rv["place"])
                    if s["place"]["p"]:
                        uplace(bi, s["place"])
                    else:
                        dfn[bi].add(s["place"]["l"])
                elif s["s"] == "setdiscr":
                    uplace(bi, s["place"])
            t = b["t"]
            if t["t"] == "call":
                for op in t["args"]:
                    uop(bi, op)
                uop(bi, t["func"])
                if t["dest"]["p"]:
                    uplace(bi, t["dest"])
                else:
                    dfn[bi].add(t["dest"]["l"])
            elif t["t"] == "switch":
                uop(bi, t["op"])
            elif t["t"] == "assert":
                uop(bi, t["cond"])
            elif t["t"] == "drop":
                pass
            elif t["t"] == "return":
                u(bi, 0)
        inn = [set() for _ in range(n)]
        ch = True
        order = f.rpo()[::-1]
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in f.succ(b):
                    out |= inn[s]
                new = use[b] | (out - dfn[b])
                if new != inn[b]:
                    inn[b] = new
                    ch = True
        self.live_cache[f.path] = inn
        return inn

    def prune(self, f, st, b):
        """forget locals that are dead at the start of b"""
        inn = self.live(f)[b]
        keep = {("L", l) for l in inn} | {("L", l) for l in self.kept(f)}
        # what live references point to stays
        work = [p for p in st.F if p[0] in keep or p[0][0] == "A"]
        seen = set(work)
        byroot = defaultdict(list)
        for p in st.F:
            byroot[p[0]].append(p)
        roots = set(keep)
        while work:
            p = work.pop()
            v = st.F[p][1]
            if v and v[0] == "ref":
                r = v[1][0]
                if r[0] != "A" and r not in roots:
                    roots.add(r)
                    for q in byroot[r]:
                        if q not in seen:
                            seen.add(q)
                            work.append(q)
            elif v and v[0] == "iter":
                r = v[1][0]
                if r[0] != "A" and r not in roots:
                    roots.add(r)
                    for q in byroot[r]:
                        if q not in seen:
                            seen.add(q)
                            work.append(q)

        def alive(r):
            return r[0] in "AG" or r in roots or r[0] == "P" and all(alive(q[0]) for q in r[2])
        for p in [p for p in st.F if not alive(p[0])]:
            del st.F[p]
        for s in st.syms():
            if not alive(s[1][0]):
                st.forget_sym(s)
        st.B = frozenset(x for x in st.B if alive(x[0][1][0]) and alive(x[2][0]))
        st.drop_vals(lambda v: v[0] in ("d", "same") and not alive(v[1][0]) or
                     v[0] == "c" and any(not alive(q[0]) for side in v[1:] for a in side
                                         for q in atom_places(a)))
        for r in [r for r in st.org if not alive(r)]:
            del st.org[r]

    def key(self, f, st, b):
        inn = self.live(f)[b]
        k = []
        for l in sorted(inn):
            t = f.lty(l)
            fc = st.F.get((("L", l),))
            if fc is None:
                continue
            if t.k == "bool":
                if fc[1] and fc[1][0] == "b":
                    k.append((l, fc[1][1]))
            elif fc[0] is not None and len(fc[0]) == 1:
                k.append((l, min(fc[0])))
        return tuple(k)

    # ------------------------------------------------------------------ joins
    def default(self, st, p):
        return EMPTY

    def join(self, a, b, widen=False):
        """a: stored, b: new"""
        r = State()
        for p in set(a.F) | set(b.F):
            x, y = a.F.get(p), b.F.get(p)
            if x is None or y is None:
                if (x or y)[1] == WEAK:
                    r.put(p, None, WEAK, None)
                continue
            if x == y:
                r.F[p] = x
                continue
            var = (x[0] | y[0]) if x[0] is not None and y[0] is not None else None
            val = x[1] if x[1] == y[1] else WEAK if WEAK in (x[1], y[1]) else None
            r.put(p, var, val, join_text(x[2], y[2]))
        # facts under a payload hold vacuously where the variant is another one
        for s, o in ((a, b), (b, a)):
            for p, fc in s.F.items():
                if p in r.F or p in o.F:
                    continue
                if self.vacuous(o, p):
                    r.F[p] = fc
        keys = set(a.Z) | set(b.Z)
        for s in a.syms() & b.syms():
            keys.add((None, s))
        for k in keys:
            ca, cb = a.Z.get(k), b.Z.get(k)
            if ca is None:
                ca = INF if not self.vac_syms(a, k) else -INF
                if ca == INF:
                    ca = a.bound(*k)
            if cb is None:
                cb = INF if not self.vac_syms(b, k) else -INF
                if cb == INF:
                    cb = b.bound(*k)
            c = max(ca, cb)
            if c < INF and c > -INF:
                if widen and c != a.Z.get(k):
                    continue
                x, y = k
                if x is None and y is not None and y[0] != "i" and c >= 0:
                    continue
                r.Z[k] = c
        r.B = a.B & b.B
        r.org = dict(a.org)
        for q, v in b.org.items():
            r.org[q] = tuple(sorted(set(r.org.get(q, ())) | set(v), key=repr))
        return r

    def vacuous(self, st, p):
        for i in range(1, len(p)):
            e = p[i]
            if e[0] == "f" and e[3] is not None:
                v = st.get(p[:i])[0]
                if v is not None and e[3] not in v:
                    return True
        return False

    def vac_syms(self, st, k):
        return all(s is None or self.vacuous(st, s[1] + (("f", 0, None, None),)) for s in k)

    # ------------------------------------------------------------------ driver
    def run(self):
        order = []
        seen = set()
        cg = self.prog.callgraph()

        def visit(p):
            stack = [(p, iter([c[0] for c in cg.get(p, ())]))]
            seen.add(p)
            while stack:
                q, it = stack[-1]
                for c in it:
                    if c in self.reach and c not in seen:
                        seen.add(c)
                        stack.append((c, iter([x[0] for x in cg.get(c, ())])))
                        break
                else:
                    order.append(q)
                    stack.pop()
        for r in self.roots:
            visit(r)
        for r in self.extra:
            if r not in seen:
                visit(r)
        self.order = {p: i for i, p in enumerate(order)}
        self.rounds = 0
        self.passes = 0
        self.ghosts = False
        while True:
            # what a pass gives up may have been used before: everything is looked at again from the
            # entry point, until a pass gives up nothing; never less than two, as the first one starts
            # without knowing what the functions do
            t0 = time.time()
            self.weaker = []
            self.entry = {}
            self.visits.clear()
            self.exits_grow.clear()
            for r in self.roots + sorted(self.extra):
                self.entry[r] = State()
                self.init_args(self.fn(r), self.entry[r])
            self.queue = set(self.roots) | self.extra
            self.settle()
            self.passes += 1
            if VERBOSE:
                print("pass", self.passes, round(time.time() - t0, 1), len(self.weaker))
            self.given_up = getattr(self, "given_up", []) + self.weaker
            if self.ghosts and not self.weaker:
                break
            # lengths at the start of a function are related to those at its end only when nothing
            # more is given up: they cost much and matter to few
            self.ghosts = self.passes > 1 and not self.weaker
            if self.passes > 12 or time.time() > self.deadline:
                self.stopped = "the analysis was stopped after %d passes" % self.passes
                break
        # final pass: states are stable, look at the panic sites
        self.collect = True
        for p in list(self.entry):
            self.analyse(p)
        return self

    def settle(self):
        n = 0
        while self.queue:
            p = min(self.queue, key=lambda q: self.order.get(q.split(CTX)[0], 10 ** 6))
            self.queue.discard(p)
            n += 1
            if n > 8000 or time.time() > self.deadline:
                self.stopped = "the analysis was stopped after %d function visits" % n
                break
            self.analyse(p)
        self.rounds += n

    def fn(self, path):
        return self.prog.fns[path.split(CTX)[0]]

    def context(self, g, E):
        """small functions that look at tokens are looked at once per set of token types"""
        if not self.shapes or len(g.blocks) > 40:
            return g.path
        c = []
        for i in range(g.argc):
            t = g.lty(i + 1)
            r, d = ("L", i + 1), 0
            while t is not None and t.k == "ref":
                r, t, d = ("A", i, d), t.arg(0), d + 1
            if t is not None and t.k == "adt" and t.defpath == self.shapes["token"]:
                v = E.get((r, ("f", self.shapes["tt"], self.shapes["token"], None)))[0]
                c.append(",".join(map(str, sorted(v))) if v is not None else "")
                if E.get((r,))[1] == WEAK:
                    c.append("w")
            elif t is not None and t.k == "adt" and self.fieldless(t.defpath):
                v = E.get((r,))[0]
                c.append(",".join(map(str, sorted(v))) if v is not None and len(v) < 3 else "")
            elif t is not None and t.k == "adt" and t.defpath in VECS:
                c.append("some" if E.bound(None, ("len", (r,))) <= -1 else "")
        return g.path + CTX + "/".join(c) if any(c) else g.path

    def init_args(self, f, st):
        for i in range(f.argc):
            t = f.lty(i + 1)
            p = (("L", i + 1),)
            d = 0
            while t is not None and t.k == "ref":
                q = (("A", i, d),)
                if st.get(p)[1] is None:
                    st.upd(p, val=("ref", q))
                p, t, d = q, t.arg(0), d + 1

    def want_entry(self, path, st):
        """st: facts for ("A",..) and ("L",arg) roots at a call"""
        old = self.entry.get(path)
        if old is None:
            self.entry[path] = st
            self.queue.add(path)
            return
        j = self.join(old, st, widen=self.visits[path] > 40)
        self.init_args(self.fn(path), j)
        if not j.same(old):
            self.visits[path] += 1
            if self.visits[path] > 300:
                j = State()         # give up on what the callers know
                self.init_args(self.fn(path), j)
            self.entry[path] = j
            self.queue.add(path)

    def analyse(self, path):
        f = self.fn(path)
        self.f, self.ctx = f, path
        self.mods = set()
        start = self.entry[path].copy()
        known = self.summ.get(path)
        for m, _ in known.mods if known is not None and self.ghosts else ():
            if self.is_list(f, m):
                start.assume_eq((("len", m), 0), (("len", (("G",) + m[0][1:],) + m[1:]), 0))
        states = defaultdict(dict)
        count = defaultdict(int)
        rpo = f.rpo()
        pos = {b: i for i, b in enumerate(rpo)}
        dirty = {0}
        states[0][self.key(f, start, 0)] = start
        done = {}
        exits = {}
        self.exits = exits
        saved_collect, self.collect = self.collect, False
        heads = f.loops()
        while dirty:
            b = min(dirty, key=lambda x: pos.get(x, 10 ** 6))
            dirty.discard(b)
            for k, st in list(states[b].items()):
                prev = done.get((b, k))
                if prev is st:
                    continue
                done[(b, k)] = st
                for to, ns in self.block(f, b, st.copy()):
                    self.prune(f, ns, to)
                    nk = self.key(f, ns, to)
                    if nk not in states[to] and len(states[to]) >= CAP:
                        nk = "*"
                    old = states[to].get(nk)
                    if old is None:
                        states[to][nk] = ns
                        dirty.add(to)
                    else:
                        j = self.join(old, ns, widen=to in heads and count[(to, nk)] > 3)
                        if not j.same(old):
                            if count[(to, nk)] > 60:
                                j = State()
                                self.unmodelled["a loop of " + f.short] += 1
                            count[(to, nk)] += 1
                            states[to][nk] = j
                            dirty.add(to)
        self.collect = saved_collect
        if self.collect:
            self.reached.setdefault(f.path, set()).update(states)
            for b, d in states.items():
                for k, st in d.items():
                    for _ in self.block(f, b, st.copy()):
                        pass
            return
        s = Summary()
        places = {m[0] for m in self.mods}
        s.mods = frozenset(m for m in self.mods
                           if not any(m[0][:i] in places for i in range(1, len(m[0]))))
        s.exits = list(exits.items())
        if len(s.exits) > 8:
            j = None
            for _, st in s.exits:
                j = st if j is None else self.join(j, st)
            s.exits = [("*", j)]
        old = self.summ.get(path)
        if old is not None:
            s.mods = s.mods | old.mods
            if s.mods == old.mods and len(s.exits) == len(old.exits) and all(
                    a[0] == b[0] and a[1].same(b[1]) for a, b in
                    zip(sorted(s.exits, key=repr_key), sorted(old.exits, key=repr_key))):
                return
            self.exits_grow[path] += 1
            if self.exits_grow[path] > 25:
                # settle: join with what was there
                j = None
                for _, st in old.exits + s.exits:
                    j = st if j is None else self.join(j, st, widen=self.exits_grow[path] > 30)
                s.exits = [("*", j)] if j is not None else []
                if len(old.exits) == 1 and old.exits[0][0] == "*" and j is not None and j.same(old.exits[0][1]) \
                        and s.mods == old.mods:
                    return
        self.summ[path] = s
        if self.ghosts and (old.mods if old is not None else frozenset()) != s.mods and any(self.is_list(f, m) for m, _ in s.mods):
            self.queue.add(path)
        for c in self.callers[path]:
            if c in self.entry:
                self.queue.add(c)

    def is_list(self, f, p):
        """p, seen from a parameter of f, is a list"""
        if p[0][0] != "A":
            return False
        if len(p) == 1:
            t = f.lty(p[0][1] + 1)
            for _ in range(p[0][2] + 1):
                t = t.arg(0) if t is not None and t.k == "ref" else None
        else:
            e = p[-1]
            if e[0] != "f" or e[2] is None or e[3] is not None:
                return False
            t = self.prog.adt_fields(e[2])[e[1]][1]
        return t is not None and t.k == "adt" and t.defpath in VECS

    def kept(self, f):
        """numbers given by value that keep their value"""
        r = self.kept_cache.get(f.path)
        if r is None:
            r = set()
            for i in range(1, f.argc + 1):
                t = f.lty(i)
                if t is not None and t.k in ("int", "uint"):
                    r.add(i)
            for blk in f.blocks:
                for s in blk["s"]:
                    if s["s"] == "assign":
                        if not s["place"]["p"]:
                            r.discard(s["place"]["l"])
                        if s["rv"]["r"] in ("ref", "rawptr", "addr") and (s["rv"].get("mut") or s["rv"]["r"] != "ref"):
                            r.discard(s["rv"].get("place", {}).get("l"))
                t = blk["t"]
                if t["t"] == "call" and not t["dest"]["p"]:
                    r.discard(t["dest"]["l"])
            self.kept_cache[f.path] = r
        return r

    # ------------------------------------------------------------------ places
    def place_ty(self, f, pl):
        t = f.lty(pl["l"])
        for e in pl["p"]:
            if e[0] == "deref":
                t = t.arg(0) if t is not None else None
            elif e[0] == "field":
                t = f.ty(e[3]) if e[3] is not None else None
            elif e[0] in ("index", "cindex"):
                t = t.arg(0) if t is not None else None
            elif e[0] == "downcast":
                pass
            else:
                pass
        return t

    def resolve(self, st, f, pl):
        cur = (("L", pl["l"]),)
        t = f.lty(pl["l"])
        v = None
        for e in pl["p"]:
            if e[0] == "deref":
                if t is not None and t.k == "ref":
                    cur = self.target(st, cur)
                elif t is not None and t.k == "ptr":
                    cur = self.target(st, cur)
                # a Box is looked through
                t = t.arg(0) if t is not None else None
                v = None
            elif e[0] == "downcast":
                v = e[1]
            elif e[0] == "field":
                own = e[4] if len(e) > 4 else None
                a = self.prog.adts.get(own) if own else None
                cur = cur + (("f", e[1], own if a and a.get("local") else None, v),)
                t = f.ty(e[3]) if e[3] is not None else None
                v = None
            elif e[0] in ("index", "cindex"):
                cur = cur + (("e", "i"),)
                t = t.arg(0) if t is not None else None
            else:
                cur = cur + (("e", e[0]),)
        return cur

    def target(self, st, p):
        v = st.get(p)[1]
        if v and v[0] == "ref":
            return v[1]
        o = (("O", p),)
        st.upd(p, val=("ref", o))
        st.org.setdefault(o[0], ())
        return o

    # text of a place, with what is known from its type
    def text(self, st, p):
        t = st.get(p)[2]
        if t is not None:
            return t
        d = self.tokdef(st, p)
        return d[1] if d else None

    def minlen(self, st, p):
        d = self.tokdef(st, p)
        return d[0] if d else 0

    def tokdef(self, st, p):
        """(minimal length, text) of a token's text, by the types the token may have"""
        if not self.shapes or len(p) < 2:
            return None
        e, base = p[-1], p[:-1]
        if e[0] == "f" and e[2] is None and e[3] == SOME and len(p) >= 3:
            e, base = p[-2], p[:-2]
        if e[0] != "f" or e[2] != self.shapes["token"]:
            return None
        tab = self.shapes["fields"].get(e[1])
        if tab is None or st.get(base)[1] == WEAK:
            return None
        tt = st.get(base + (("f", self.shapes["tt"], self.shapes["token"], None),))[0]
        kinds = tt if tt is not None else self.shapes["kinds"]
        r = None
        for k in kinds:
            s = tab.get(k)
            if s is not None:
                r = s if r is None else (min(r[0], s[0]), join_text(r[1], s[1]))
        return r

    def fieldless(self, path):
        a = self.prog.adts.get(path)
        return a and a.get("local") and len(a["variants"]) > 1 and not any(v["fields"] for v in a["variants"])

    def candidates(self):
        """lists in records that may never be empty: (record, field) -> (field that names the kind of
        record or None, kinds for which it holds); what is stored disproves them one by one"""
        out = {}
        for path, a in self.prog.adts.items():
            if not a.get("local") or len(a["variants"]) != 1:
                continue
            fl = self.prog.adt_fields(path)
            ef = kinds = None
            for i, (_, t) in enumerate(fl):
                if t.k == "adt" and self.fieldless(t.defpath):
                    ef, kinds = i, frozenset(range(len(self.prog.adts[t.defpath]["variants"])))
                    break
            for i, (_, t) in enumerate(fl):
                if t.k == "adt" and t.defpath in VECS:
                    out[(path, i)] = (ef, kinds if ef is not None else True)
        return out

    def inv_len(self, st, p):
        e = p[-1]
        if e[0] != "f":
            return False
        v = self.inv.get((e[2], e[1]))
        if not v or not v[1]:
            return False
        if v[0] is None:
            return True
        k = st.get(p[:-1] + (("f", v[0], e[2], None),))[0]
        return k is not None and k <= v[1] or len(v[1]) == self.nkinds(e[2], v[0])

    def nkinds(self, adt, ef):
        return len(self.prog.adts[self.prog.adt_fields(adt)[ef][1].defpath]["variants"])

    def len_lin(self, st, p):
        s = ("len", p)
        m = self.minlen(st, p)
        if self.inv_len(st, p):
            m = max(m, 1)
        t = self.text(st, p)
        if t:
            m = max(m, len(t[0]), len(t[1]), 1 if t[2] else 0)
        if m:
            st.assume(None, s, -m)
        return (s, 0)

    # ------------------------------------------------------------------ operands
    def const_int(self, op):
        c = op.get("const")
        if c is not None and "int" in c:
            return c["int"]
        return None

    def opplace(self, st, f, op):
        for k in ("copy", "move"):
            if k in op:
                return self.resolve(st, f, op[k])
        return None

    def opty(self, f, op):
        for k in ("copy", "move"):
            if k in op:
                return self.place_ty(f, op[k])
        c = op.get("const")
        return f.ty(c["ty"]) if c and "ty" in c else None

    def lin(self, st, f, op):
        c = self.const_int(op)
        if c is not None:
            return (None, c)
        p = self.opplace(st, f, op)
        if p is None:
            return None
        t = self.opty(f, op)
        if t is None or t.k not in ("int", "uint"):
            return None
        self.int_min(st, p)
        return (("u" if t.k == "uint" else "i", p), 0)

    def int_min(self, st, p):
        """what the scanner guarantees about a number in a token"""
        e = p[-1]
        if self.shapes and e[0] == "f" and e[2] == self.shapes["token"]:
            m = self.shapes["ints"].get(e[1])
            if m and st.get(p[:-1])[1] != WEAK:
                st.assume(None, ("u", p), -m)

    def assign(self, st, f, D, op):
        """store the operand in D"""
        p = self.opplace(st, f, op)
        if p is not None:
            self.materialise(st, p)
            if len(D) > 1 or D[0][0] not in "LA":
                self.escapes(st, p)
            st.copy_tree(p, D)
            self.same_number(st, f, op, p, D)
            if self.enumlike(self.opty(f, op)) and "copy" in op:
                if st.get(D)[1] is None:
                    st.upd(D, val=("same", p))
            self.check_inv(st, D)
            return
        st.kill(D)
        c = op.get("const")
        self.const_fact(st, f, D, c)
        self.check_inv(st, D)

    def same_number(self, st, f, op, p, D):
        if p[0][0] == "A" or p[0][0] == "L" and p[0][1] in self.kept(f):
            t = self.opty(f, op)
            if t is not None and t.k in ("int", "uint"):
                k = "u" if t.k == "uint" else "i"
                st.assume_eq(((k, D), 0), ((k, p), 0))

    def positions(self):
        """the record of which most records keep a list: where in the source something is"""
        if self.pos_cache is None:
            n = defaultdict(int)
            for path, a in self.prog.adts.items():
                if a.get("local") and len(a["variants"]) == 1:
                    for _, t in self.prog.adt_fields(path):
                        if t.k == "adt" and t.defpath in VECS and t.arg(0).k == "adt":
                            e = t.arg(0).defpath
                            if self.prog.adts.get(e, {}).get("local") and len(self.prog.adts[e]["variants"]) == 1 and \
                                    sum(x.k == "uint" for _, x in self.prog.adt_fields(e)) >= 2:
                                n[e] += 1
            self.pos_cache = max(n, key=lambda e: (n[e], e)) if n else ""
        return self.pos_cache

    def enumlike(self, t):
        if t is None or t.k != "adt" or t.defpath not in self.prog.adts:
            return False
        return len(self.prog.adts[t.defpath]["variants"]) > 1

    def materialise(self, st, p):
        """make what the type of p says about it explicit before it is copied"""
        self.bottom(st, p)
        f = st.get(p)
        if f[2] is None:
            t = self.text(st, p)
            if t is not None:
                st.upd(p, text=t)
        if self.inv_len(st, p) or self.minlen(st, p):
            self.len_lin(st, p)
        self.int_min(st, p)
        e = p[-1]
        if e[0] == "f" and self.shapes and e[2] == self.shapes["token"]:
            q = p + (SOMEP,)
            if self.tokdef(st, q):
                t = self.text(st, q)
                if t is not None and st.get(q)[2] is None:
                    st.upd(q, text=t)
                self.len_lin(st, q)

    def const_fact(self, st, f, D, c):
        if c is None:
            return
        if "bool" in c:
            st.upd(D, val=("b", bool(c["bool"])))
        elif "int" in c:
            t = f.ty(c["ty"])
            s = ("u" if t.k == "uint" else "i", D)
            st.Z[(s, None)] = c["int"]
            st.Z[(None, s)] = -c["int"]
        elif "str" in c:
            o = (("O", ("str", c["str"])),)
            st.upd(D, val=("ref", o))
            st.upd(o, text=lit_text(c["str"]))
            n = len(c["str"].encode())
            st.Z[(("len", o), None)] = n
            st.Z[(None, ("len", o))] = -n
        elif "char" in c:
            st.upd(D, val=("ch", c["char"]))
        elif "variant" in c:
            st.upd(D, var=frozenset([c["variant"]]))
        elif "promoted" in c:
            v = self.promoted(f, c["promoted"])
            if v is not None:
                o = (("O", ("promo", f.path, c["promoted"])),)
                st.upd(D, val=("ref", o))
                if v[0] == "str":
                    self.const_fact(st, f, o, {"str": v[1]})
                elif v[0] == "char":
                    st.upd(o, val=("ch", v[1]))
                elif v[0] == "variant":
                    st.upd(o, var=frozenset([v[1]]))

    def promoted(self, f, n):
        g = self.prog.fns.get(f.d["path"] + "{promoted#%d}" % n)
        if g is None or len(g.blocks) != 1:
            return None
        vals = {}
        for s in g.blocks[0]["s"]:
            if s["s"] != "assign" or s["place"]["p"]:
                continue
            rv = s["rv"]
            v = None
            if rv["r"] == "use" and "const" in rv["op"]:
                c = rv["op"]["const"]
                for k in ("str", "char", "variant"):
                    if k in c:
                        v = (k, c[k])
            elif rv["r"] == "agg" and rv.get("agg") == "adt" and not rv["ops"]:
                v = ("variant", rv["variant"])
            elif rv["r"] == "ref" and not rv["place"]["p"]:
                v = vals.get(rv["place"]["l"])
            vals[s["place"]["l"]] = v
        return vals.get(0)

    # ------------------------------------------------------------------ invariants on lengths
    def check_inv(self, st, D):
        if self.shapes:
            self.check_token(st, D)
        e = D[-1]
        if e[0] != "f" or e[2] is None:
            return
        for (adt, i), (ef, kinds) in list(self.inv.items()):
            if adt != e[2] or not kinds or e[1] not in (i, ef):
                continue
            P = D[:-1] + (("f", i, adt, None),)
            if e[1] == ef and e[1] != i and e[1] is not None and self.in_agg:
                continue
            if st.bound(None, ("len", P)) <= -1:
                continue
            if ef is None:
                self.inv[(adt, i)] = (ef, False)
                self.weaker.append(("list", adt, i, self.ctx))
            else:
                k = st.get(D[:-1] + (("f", ef, adt, None),))[0]
                left = kinds - k if k is not None else frozenset()
                if left != kinds:
                    self.inv[(adt, i)] = (ef, left)
                    self.weaker.append(("list", adt, i, self.ctx, sorted(kinds - left)))

    def check_token(self, st, D):
        """something was stored in D: what is taken for granted about tokens has to hold, or is given up"""
        sh = self.shapes
        e, base = D[-1], D[:-1]
        if e == SOMEP and len(D) > 1:
            e, base = D[-2], D[:-2]
        if e[0] != "f" or e[2] != sh["token"] or not base:
            return
        if st.get(base)[1] == WEAK:
            return
        todo = [e[1]] if e[1] in sh["fields"] else list(sh["fields"]) if e[1] == sh["tt"] else []
        bad = self.token_gaps(st, base, todo, [e[1]] if e[1] in sh["ints"] else [], e[1] == sh["tt"])
        if bad:
            if len(base) == 1 and base[0][0] in "LA" and self.f.path not in self.strict:
                st.upd(base, val=WEAK)      # this one token is not as the scanner made it
            else:
                self.give_up(bad)

    def token_gaps(self, st, base, texts, ints, retyped=False):
        sh = self.shapes
        bad = []
        for i in ints:
            lo = -st.bound(None, ("u", base + (("f", i, sh["token"], None),)))
            if lo < sh["ints"][i]:
                bad.append(("ints", i, None, max(lo, 0)))
        kinds = st.get(base + (("f", sh["tt"], sh["token"], None),))[0]
        if kinds is None:
            kinds = sh["kinds"]
        for i in texts:
            p = base + (("f", i, sh["token"], None),)
            var = st.get(p)[0]
            if sh["option"][i]:
                if var == frozenset([NONE]):
                    continue
                if retyped and st.get(p + (SOMEP,)) == EMPTY and var is None:
                    continue        # not touched here: as good as it was for the type it had
                p = p + (SOMEP,)
            tx = st.get(p)[2]
            b = st.bound(None, ("len", p))
            n = -b if b < 0 else 0
            if tx:
                n = max(n, len(tx[0]), len(tx[1]))
            for k in kinds:
                o = sh["fields"][i].get(k)
                j = (n, tx) if o is None else (min(o[0], n), join_text(o[1], tx))
                if j != o:
                    bad.append(("fields", i, k, j))
        return bad

    def give_up(self, bad):
        sh = self.shapes
        for what, i, k, j in bad:
            if what == "ints":
                sh["ints"][i] = j
            else:
                sh["fields"][i][k] = j
            self.weaker.append((what, i, k, self.f.path))

    def escapes(self, st, p):
        """what is stored at p is put where it is no longer followed"""
        if not self.shapes:
            return
        for q, fc in list(st.F.items()):
            if fc[1] == WEAK and q[:len(p)] == p:
                self.give_up(self.token_gaps(st, q, list(self.shapes["fields"]), list(self.shapes["ints"])))
            elif fc[1] and fc[1][0] == "ref" and q[:len(p)] == p and st.get(fc[1][1])[1] == WEAK:
                self.give_up(self.token_gaps(st, fc[1][1], list(self.shapes["fields"]), list(self.shapes["ints"])))

    def bottom(self, st, p):
        """an optional text of a token that has none, by the types the token may have"""
        e = p[-1]
        sh = self.shapes
        if not sh or e[0] != "f" or e[2] != sh["token"] or not sh["option"].get(e[1]) or \
                st.get(p)[0] == frozenset([NONE]):
            return
        if st.get(p[:-1])[1] == WEAK:
            return
        kinds = st.get(p[:-1] + (("f", sh["tt"], sh["token"], None),))[0]
        if not any(k in sh["fields"][e[1]] for k in (kinds if kinds is not None else sh["kinds"])):
            st.upd(p, var=frozenset([NONE]))

    # ------------------------------------------------------------------ conditions
    def refine_var(self, st, p, vs, ty=None, depth=0):
        self.bottom(st, p)
        cur = st.get(p)[0]
        new = vs if cur is None else cur & vs
        if not new:
            raise Contradiction
        val = st.get(p)[1]
        st.upd(p, var=frozenset(new))
        if val and val[0] == "same" and depth < 4:
            self.refine_var(st, val[1], new, ty, depth + 1)

    def apply(self, st, atoms):
        for a in atoms:
            if a[0] == "var":
                self.refine_var(st, a[1], a[2])
            elif a[0] == "z":
                st.assume(a[1], a[2], a[3])
            elif a[0] == "ne":
                # a1 - a2 != a3
                if st.bound(a[1], a[2]) == a[3]:
                    st.assume(a[1], a[2], a[3] - 1)
                if st.bound(a[2], a[1]) == -a[3]:
                    st.assume(a[2], a[1], -a[3] - 1)
            elif a[0] == "has":
                t = self.text(st, a[1]) or ((), (), frozenset())
                st.upd(a[1], text=(t[0], t[1], t[2] | frozenset([a[2]])))
                st.assume(None, ("len", a[1]), -1)
            elif a[0] in ("pre", "suf"):
                t = self.text(st, a[1]) or ((), (), frozenset())
                i = 0 if a[0] == "pre" else 1
                cur = list(t[i])
                for j, cs in enumerate(a[2]):
                    if j < len(cur):
                        cur[j] = cur[j] & cs
                        if not cur[j]:
                            raise Contradiction
                    elif j == len(cur):
                        cur.append(cs)
                nt = (tuple(cur), t[1], t[2]) if i == 0 else (t[0], tuple(cur), t[2])
                st.upd(a[1], text=nt)
                st.assume(None, ("len", a[1]), -a[3])

    def cmp_atoms(self, op, a, b):
        """(atoms if true, atoms if false)"""
        def le(x, y, k=0):      # x + k <= y
            return ("z", x[0], y[0], y[1] - x[1] - k)
        if op == "Lt":
            return (le(a, b, 1),), (le(b, a),)
        if op == "Le":
            return (le(a, b),), (le(b, a, 1),)
        if op == "Gt":
            return (le(b, a, 1),), (le(a, b),)
        if op == "Ge":
            return (le(b, a),), (le(a, b, 1),)
        eq = (le(a, b), le(b, a))
        ne = (("ne", a[0], b[0], b[1] - a[1]),)
        if op == "Eq":
            return eq, ne
        if op == "Ne":
            return ne, eq
        return (), ()

    def set_cond(self, st, D, t, f):
        """D is a bool: decide it if the state does, else remember what it means"""
        try:
            self.apply(st.copy(), t)
            yes = True
        except Contradiction:
            yes = False
        try:
            self.apply(st.copy(), f)
            no = True
        except Contradiction:
            no = False
        if yes and not no:
            st.upd(D, val=("b", True))
        elif no and not yes:
            st.upd(D, val=("b", False))
        elif not yes and not no:
            raise Contradiction
        else:
            st.upd(D, val=("c", tuple(t), tuple(f)))

    # ------------------------------------------------------------------ statements
    def stmt(self, f, st, s):
        if s["s"] != "assign":
            return
        self.span = s["span"]
        rv = s["rv"]
        D = self.resolve(st, f, s["place"])
        self.note_write(st, D)
        k = rv["r"]
        if k == "use":
            self.assign(st, f, D, rv["op"])
        elif k == "ref":
            P = self.resolve(st, f, rv["place"])
            st.kill(D)
            st.upd(D, val=("ref", P))
        elif k == "discr":
            P = self.resolve(st, f, rv["place"])
            t = self.place_ty(f, rv["place"])
            st.kill(D)
            if st.get(P)[0] is None:
                av = self.all_variants(t)
                if av is not None:
                    st.upd(P, var=av)
            st.upd(D, val=("d", P))
        elif k == "agg":
            self.agg(f, st, D, rv)
        elif k == "bin":
            self.binop(f, st, D, rv)
        elif k == "un":
            p = self.opplace(st, f, rv["op"])
            v = st.get(p)[1] if p is not None else None
            if rv["uop"] == "PtrMetadata":
                P = v[1] if v and v[0] == "ref" else None
                st.kill(D)
                if P is not None:
                    st.assume_eq((("u", D), 0), self.len_lin(st, P))
                return
            st.kill(D)
            if rv["uop"] == "Not" and v:
                if v[0] == "b":
                    st.upd(D, val=("b", not v[1]))
                elif v[0] == "c":
                    st.upd(D, val=("c", v[2], v[1]))
        elif k == "cast":
            p = self.opplace(st, f, rv["op"])
            a, b = self.opty(f, rv["op"]), f.ty(rv["ty"])
            if p is None:
                st.kill(D)
                if "const" in rv["op"]:
                    self.const_fact(st, f, D, rv["op"]["const"])
            elif a is not None and b is not None and b.k in ("ref", "ptr") and a.k in ("ref", "ptr"):
                st.copy_tree(p, D)
                if a.arg(0) is not None and a.arg(0).k == "array":
                    P = self.target(st, D)
                    n = a.arg(0).d.get("len")
                    if isinstance(n, int):
                        st.assume_eq((("len", P), 0), (None, n))
            else:
                l = self.lin(st, f, rv["op"])
                st.kill(D)
                if l is not None and b.k in ("int", "uint"):
                    wide = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "i8": 7, "i16": 15,
                            "i32": 31, "i64": 63, "isize": 63}
                    wa, wb = wide.get(a.s, 99), wide.get(b.s, 0)
                    if wa <= wb and not (a.k == "int" and b.k == "uint"):
                        st.assume_eq((("u" if b.k == "uint" else "i", D), 0), l)
        else:
            st.kill(D)

    def note_write(self, st, D):
        st.stale(D)
        r = D[0]
        if r[0] == "A":
            self.mods.add((fold(D), "any"))
        elif r[0] == "O":
            for q in st.org.get(r, ()):
                st.kill(q)
                if q[0][0] == "A":
                    self.mods.add((fold(q), "any"))

    def agg(self, f, st, D, rv):
        ops = rv["ops"]
        tmp = []
        # operands may live in D itself: copy them aside first
        base = (("T",),)
        st.kill(base)
        for i, op in enumerate(ops):
            T = base + (("f", i, None, None),)
            p = self.opplace(st, f, op)
            if p is not None:
                self.materialise(st, p)
                self.escapes(st, p)
                st.copy_tree(p, T)
                self.same_number(st, f, op, p, T)
                if self.enumlike(self.opty(f, op)) and "copy" in op and st.get(T)[1] is None:
                    st.upd(T, val=("same", p))
            else:
                self.const_fact(st, f, T, op.get("const"))
            tmp.append(T)
        st.kill(D)
        kind = rv.get("agg")
        own, var = None, None
        if kind == "adt":
            a = self.prog.adts.get(rv["def"])
            if a and len(a["variants"]) > 1:
                st.upd(D, var=frozenset([rv["variant"]]))
                var = rv["variant"]
            if a and a.get("local"):
                own = rv["def"]
        elif kind == "array":
            st.assume_eq((("len", D), 0), (None, len(ops)))
            st.kill(base)
            return
        for i, T in enumerate(tmp):
            q = D + (("f", i, own, var),)
            st.copy_tree(T, q)
        self.in_agg = True
        for i in range(len(tmp)):
            self.check_inv(st, D + (("f", i, own, var),))
        self.in_agg = False
        st.kill(base)

    def binop(self, f, st, D, rv):
        a, b = self.lin(st, f, rv["a"]), self.lin(st, f, rv["b"])
        op = rv["bop"]
        ta = self.opty(f, rv["a"])
        if op.endswith("WithOverflow"):
            self.arith(st, D + (("f", 0, None, None),), op[:3], a, b, ta, D)
            return
        if op in ("Add", "Sub", "Mul"):
            self.arith(st, D, op, a, b, ta, D)
            return
        atoms = None
        if a is not None and b is not None and op in ("Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            atoms = self.cmp_atoms(op, a, b)
        elif op in ("Eq", "Ne") and ta is not None and ta.k == "bool":
            pa, pb = self.opplace(st, f, rv["a"]), self.opplace(st, f, rv["b"])
            va = st.get(pa)[1] if pa else ("b", rv["a"]["const"].get("bool"))
            vb = st.get(pb)[1] if pb else ("b", rv["b"]["const"].get("bool"))
            if vb and vb[0] == "b" and va and va[0] in ("c", "b"):
                same = (op == "Eq") == vb[1]
                st.kill(D)
                if va[0] == "b":
                    st.upd(D, val=("b", va[1] == same))
                else:
                    st.upd(D, val=va if same else ("c", va[2], va[1]))
                return
        elif op in ("Eq", "Ne"):
            # comparison of discriminants
            pa, pb = self.opplace(st, f, rv["a"]), self.opplace(st, f, rv["b"])
            va, vb = (st.get(p)[1] if p else None for p in (pa, pb))
            if va and vb and va[0] == "d" and vb[0] == "d":
                atoms = self.var_eq(st, va[1], vb[1])
                if op == "Ne":
                    atoms = (atoms[1], atoms[0])
        st.kill(D)
        if atoms:
            self.set_cond(st, D, *atoms)

    def var_eq(self, st, p, q):
        x, y = st.get(p)[0], st.get(q)[0]
        t, n = [], []
        if y is not None and x is not None:
            t += [("var", p, y), ("var", q, x)]
            if len(y) == 1 and x - y:
                n.append(("var", p, x - y))
            if len(x) == 1 and y - x:
                n.append(("var", q, y - x))
            if len(x) == 1 and x == y:
                n.append(("var", p, frozenset()))
        return tuple(t), tuple(n)

    def arith(self, st, V, op, a, b, ta, D):
        st.kill(D)
        u = ta is not None and ta.k == "uint"
        s = ("u" if u else "i", V)
        if a is None or b is None:
            return
        b = self.const_of(st, b)
        if op == "Add":
            if b[0] is None:
                st.assume_eq((s, 0), (a[0], a[1] + b[1]))
            elif a[0] is None:
                st.assume_eq((s, 0), (b[0], a[1] + b[1]))
            elif u:
                st.assume_le(a, (s, 0))
                st.assume_le(b, (s, 0))
        elif op == "Sub":
            if b[0] is None:
                if not u or st.le(b, a):
                    st.assume_eq((s, 0), (a[0], a[1] - b[1]))
                else:
                    st.upd(V, val=("sub", a, b))
            elif u and st.le(b, a):
                st.assume_le((s, 0), a)
                d = st.bound(a[0], b[0])
                if d < INF:
                    st.assume_le((s, 0), (None, d + a[1] - b[1]))
                e = st.bound(b[0], a[0])
                if e < INF:
                    st.assume_le((None, -e + a[1] - b[1]), (s, 0))

    # ------------------------------------------------------------------ blocks
    def block(self, f, b, st):
        """[(successor, state)]"""
        blk = f.blocks[b]
        try:
            for s in blk["s"]:
                self.stmt(f, st, s)
            return self.term(f, b, blk["t"], st)
        except Contradiction:
            return []

    def site(self, f, b, kind, ok, what, unknown=None):
        """a place where the program can panic"""
        if not self.collect:
            return
        k = (f.path, b, kind)
        old = self.sites.get(k)
        if old is None:
            self.sites[k] = [ok, what, unknown]
        elif not ok and old[0]:
            self.sites[k] = [False, what, unknown]

    def term(self, f, b, t, st):
        k = t["t"]
        self.span = t.get("span")
        if k == "goto":
            return [(t["to"], st)]
        if k == "drop":
            # a drop can have no effect on what is known about other places
            return [(t["to"], st)]
        if k == "return":
            self.leave(f, st)
            return []
        if k == "switch":
            return self.switch(f, t, st)
        if k == "assert":
            return self.asserts(f, b, t, st)
        if k == "call":
            self.cur = (f, b)
            out = []
            for ns in self.call(f, b, t, st):
                if t["to"] is not None:
                    out.append((t["to"], ns))
            return out
        return []

    def switch(self, f, t, st):
        op = t["op"]
        out = []
        vals = t["vals"]
        if "const" in op:
            c = op["const"]
            v = c.get("int", c.get("bool"))
            if v is not None:
                for x, to in vals:
                    if x == int(v):
                        return [(to, st)]
                return [(t["else"], st)]
        p = self.opplace(st, f, op)
        v = st.get(p)[1]
        ty = self.opty(f, op)

        def edge(to, fn):
            ns = st.copy()
            try:
                fn(ns)
            except Contradiction:
                return
            out.append((to, ns))
        if v and v[0] == "b":
            for x, to in vals:
                if bool(x) == v[1]:
                    return [(to, st)]
            return [(t["else"], st)]
        if v and v[0] == "c":
            seen = set()
            for x, to in vals:
                seen.add(bool(x))

                def fn(ns, x=x):
                    self.apply(ns, v[1] if x else v[2])
                    ns.upd(p, val=("b", bool(x)))
                edge(to, fn)
            for x in (False, True):
                if x not in seen:
                    def fn(ns, x=x):
                        self.apply(ns, v[1] if x else v[2])
                        ns.upd(p, val=("b", x))
                    edge(t["else"], fn)
            return out
        if v and v[0] == "d":
            P = v[1]
            self.bottom(st, P)
            cur = st.get(P)[0]
            for x, to in vals:
                edge(to, lambda ns, x=x: self.refine_var(ns, P, frozenset([x])))
            if cur is not None:
                rest = cur - {x for x, _ in vals}
                if rest:
                    edge(t["else"], lambda ns: self.refine_var(ns, P, frozenset(rest)))
            else:
                edge(t["else"], lambda ns: None)
            return out
        if ty is not None and ty.k == "bool":
            for x, to in vals:
                edge(to, lambda ns, x=x: ns.upd(p, val=("b", bool(x))))
            rest = {0, 1} - {x for x, _ in vals}
            for x in rest:
                edge(t["else"], lambda ns, x=x: ns.upd(p, val=("b", bool(x))))
            return out
        if ty is not None and ty.k in ("int", "uint"):
            s = ("u" if ty.k == "uint" else "i", p)
            for x, to in vals:
                if isinstance(x, int) and abs(x) < 2 ** 31:
                    edge(to, lambda ns, x=x: ns.assume_eq((s, 0), (None, x)))
                else:
                    edge(to, lambda ns: None)
            edge(t["else"], lambda ns: self.apply(ns, [("ne", s, None, x) for x, _ in vals if isinstance(x, int)]))
            return out
        for x, to in vals:
            edge(to, lambda ns: None)
        edge(t["else"], lambda ns: None)
        return out

    def asserts(self, f, b, t, st):
        kind = t["kind"]
        if kind == "other":
            return [(t["to"], st)]
        # the operands of the check are in the statement that computed the flag
        cond = t["cond"]
        ok, what = True, kind
        if kind.startswith("overflow"):
            pl = cond.get("move") or cond.get("copy")
            rv = self.def_of(f, b, pl["l"]) if pl else None
            if rv is not None and rv["r"] == "bin":
                a, c = self.lin(st, f, rv["a"]), self.lin(st, f, rv["b"])
                ty = self.opty(f, rv["a"])
                ok = self.no_overflow(st, kind.split(":")[1], a, c, ty)
                what = f"{kind.split(':')[1].lower()} of {ty.s}"
                if not ok and a is not None and c is not None and kind.endswith("Sub") and ty.k == "uint":
                    # what follows runs only if it did not overflow
                    try:
                        st.assume_le(c, a)
                        V = self.resolve(st, f, {"l": pl["l"], "p": []}) + (("f", 0, None, None),)
                        self.arith(st, V, "Sub", a, c, ty, V)
                    except Contradiction:
                        self.site(f, b, kind, False, what)
                        return []
        elif kind == "bounds":
            p = self.opplace(st, f, cond)
            v = st.get(p)[1] if p is not None else None
            ok = bool(v and v[0] == "b" and v[1] == t["expected"])
            what = "index out of bounds"
            if v and v[0] == "c":
                ns = st.copy()
                try:
                    self.apply(ns, v[1] if t["expected"] else v[2])
                except Contradiction:
                    self.site(f, b, kind, False, what)
                    return []
                self.site(f, b, kind, ok, what)
                return [(t["to"], ns)]
        elif kind in ("div", "rem", "divzero", "remzero"):
            ok = False
        self.site(f, b, kind, ok, what)
        return [(t["to"], st)]

    def def_of(self, f, b, l):
        for s in reversed(f.blocks[b]["s"]):
            if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                return s["rv"]
        return None

    def no_overflow(self, st, op, a, b, ty):
        if a is None or b is None:
            return False
        if op == "Add":
            if ty.s in ("usize", "u64", "i64", "isize", "u128", "i128"):
                return True      # counts of things in memory
            lim = {"u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "i8": 127, "i16": 32767, "i32": 2 ** 31 - 1}.get(ty.s)
            if lim is None:
                return False
            ua, ub = st.bound(a[0], None), st.bound(b[0], None)
            return ua < INF and ub < INF and ua + a[1] + ub + b[1] <= lim
        if op == "Sub":
            if ty.k == "uint":
                return st.le(b, a)
            if ty.s in ("i64", "isize", "i128"):
                return True
            lo, hi = st.bound(None, a[0]), st.bound(b[0], None)
            return lo < INF and hi < INF and -lo + a[1] - hi - b[1] >= -(2 ** 31)
        return False

    # ------------------------------------------------------------------ leaving
    def leave(self, f, st):
        st = st.copy()
        # parameters that are themselves taken over by value are gone
        key = []
        ret = (("L", 0),)
        fc = st.get(ret)
        t = f.lty(0)
        if t.k == "bool" and fc[1]:
            if fc[1][0] == "b":
                key.append(fc[1][1])
            elif fc[1][0] == "c":
                for x in (True, False):
                    ns = st.copy()
                    try:
                        self.apply(ns, fc[1][1] if x else fc[1][2])
                        ns.upd(ret, val=("b", x))
                        self.leave(f, ns)
                    except Contradiction:
                        pass
                return
        elif fc[0] is not None and len(fc[0]) == 1:
            key.append(min(fc[0]))
            sub = ret + (payload(min(fc[0])),)
            g = st.get(sub)
            if g[0] is not None and len(g[0]) == 1:
                key.append(min(g[0]))
        # keep what the caller can see: pointees, the result, and numbers given by value
        roots0 = {("L", i) for i in self.kept(f)}
        keep = {r for r in (p[0] for p in st.F)}
        roots = {("L", 0)} | roots0
        work = [p for p in st.F if p[0] == ("L", 0)]
        while work:
            p = work.pop()
            v = st.F[p][1]
            if v and v[0] in ("ref", "iter"):
                r = v[1][0]
                if r[0] in ("O",) and r not in roots:
                    roots.add(r)
                    work += [q for q in st.F if q[0] == r]

        def alive(r):
            return r[0] in "AG" or r in roots
        for p in [p for p in st.F if not alive(p[0]) or fold(p) != p]:
            del st.F[p]
        for s in st.syms():
            if s[1][0][0] == "G":
                # of the length at the start, keep how the length now relates to it
                m = ("len", (("A",) + s[1][0][1:],) + s[1][1:])
                up, down = st.bound(m, s), st.bound(s, m)
                st.Z = Bounds((k, c) for k, c in st.Z.items() if s not in k)
                if up < INF:
                    st.Z[(m, s)] = up
                if down < INF:
                    st.Z[(s, m)] = down
        for s in st.syms():
            if not alive(s[1][0]) or fold(s[1]) != s[1]:
                st.forget_sym(s)
        st.B = frozenset(x for x in st.B if alive(x[0][1][0]) and alive(x[2][0]))
        st.drop_vals(lambda v: v[0] in ("d", "same", "ref", "iter") and not alive(v[1][0]) or
                     v[0] == "c" and any(not alive(q[0]) for side in v[1:] for a in side
                                         for q in atom_places(a)))
        k = tuple(key)
        old = self.exits.get(k)
        self.exits[k] = st if old is None else self.join(old, st)


def repr_key(x):
    return repr(x[0])
