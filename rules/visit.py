"""Traversal completeness over a recursive data type.

`Visitor.check(F, p)` decides whether function F, given the document node held by its parameter p,
visits everything below it: for every variant the node can be, and every field of that variant that
holds children, every normal path through F hands the whole field on (to a function for which the
same holds, to a loop that hands on each element, to a closure that does, or into the returned
collection, which the caller then has to treat in the same way).  Recursive uses are assumed while
they are being checked (greatest fixpoint).

Values are tracked per function as access paths from the parameter: a set of
(root, steps, partial) where steps are ('v', enum, variant), ('f', struct, field), ('e',)."""
from collections import defaultdict
from mir import callee, short, rv_operands, loc
from flow import op_place

PARTIAL = {"first", "last", "first_mut", "last_mut", "get", "get_mut", "nth", "nth_back", "skip", "take",
           "step_by", "take_while", "skip_while", "map_while", "find", "find_map", "position", "rposition",
           "split_first", "split_last", "split_first_mut", "split_last_mut", "min", "max", "min_by", "max_by",
           "min_by_key", "max_by_key", "back", "front", "back_mut", "front_mut", "peek", "peek_mut", "any", "all",
           "filter", "split_off", "truncate", "split_at", "split_at_mut", "chunks_exact"}
MAXSTEPS = 7


class Missing:
    def __init__(self, fn, what, reason, where):
        self.fn, self.what, self.reason, self.where = fn, what, reason, where

    def key(self):
        return f"{self.what}"


class Visitor:
    def __init__(self, prog, field_ok, leaves=(), block="Block", inline="Inline"):
        """field_ok(adt, field, ty): whether a content field has to be visited;
        leaves: predicate (adt, field, ty) for scalar fields that have to be read"""
        self.prog = prog
        self.local = {p: a for p, a in prog.adts.items() if a["local"]}
        self.block = self.by_name(block)
        self.inline = self.by_name(inline)
        self.field_ok = field_ok
        self.is_leaf = leaves if callable(leaves) else (lambda a, f, t: False)
        self.content = self._content()
        self._infos = {}
        self.state = {}
        self.counts = defaultdict(int)
        self.pairs = set()
        self._constr = None
        self._boolmemo = {}
        self.store = False

    def by_name(self, n):
        c = [p for p in self.local if p.rsplit("::", 1)[-1] == n]
        if len(c) != 1:
            raise KeyError(f"no unique type named {n}")
        return c[0]

    # ---- types ----
    def fields(self, adt, variant=0):
        a = self.local[adt]
        return [(f["name"], a["crate"]["types"][f["ty"]] if f["ty"] is not None else None)
                for f in a["variants"][variant]["fields"]]

    def is_enum(self, adt):
        return self.local[adt]["kind"] == "enum" if "kind" in self.local[adt] else len(self.local[adt]["variants"]) > 1

    def _content(self):
        cont = {self.block, self.inline}
        for e in (self.block, self.inline):
            for vi, v in enumerate(self.local[e]["variants"]):
                for _n, t in self.fields(e, vi):
                    s = self.strip(t)
                    if s is not None and s.k == "adt" and s.defpath in self.local:
                        cont.add(s.defpath)
        changed = True
        while changed:
            changed = False
            for p, a in self.local.items():
                if p in cont:
                    continue
                for v in a["variants"]:
                    for f in v["fields"]:
                        t = a["crate"]["types"][f["ty"]] if f["ty"] is not None else None
                        if t is not None and self._mentions(t, cont):
                            cont.add(p)
                            changed = True
        return cont

    def _mentions(self, t, cont, depth=0):
        if t is None or depth > 8:
            return False
        if t.k == "adt" and t.defpath in cont:
            return True
        if t.k in ("adt", "ref", "slice", "array", "tuple", "ptr"):
            return any(self._mentions(x, cont, depth + 1) for x in t.argl())
        return False

    def carries(self, t):
        return self._mentions(t, self.content)

    def strip(self, t):
        while t is not None and (t.k in ("ref", "ptr") or (t.k == "adt" and t.defpath in (
                "std::boxed::Box", "std::rc::Rc", "std::sync::Arc", "alloc::boxed::Box"))):
            t = t.arg(0)
        return t

    def collectionish(self, t):
        t = self.strip(t)
        if t is None:
            return False
        if t.k == "tuple":
            return any(self.collectionish(x) for x in t.argl())
        if t.k in ("slice", "array"):
            return self.carries(t)
        if t.k == "adt":
            if t.defpath in self.local:
                return False
            if t.defpath in ("std::option::Option", "std::result::Result", "std::ops::ControlFlow"):
                return any(self.collectionish(x) for x in t.argl())
            return self.carries(t)
        return False

    def constructible(self):
        if self._constr is None:
            s = set()
            for f in self.prog.bodies(promoted=True):
                if f.derived:
                    continue
                for bi, b in enumerate(f.blocks):
                    for st in b["s"]:
                        if st["s"] != "assign":
                            continue
                        rv = st["rv"]
                        if rv["r"] == "agg" and rv.get("def") in (self.block, self.inline):
                            s.add((rv["def"], rv["vname"]))
                        for op in rv_operands(rv):
                            self._ctor_const(op, s)
                    if b["t"]["t"] == "call":
                        for op in b["t"]["args"]:
                            self._ctor_const(op, s)
                        self._ctor_const(b["t"]["func"], s)
            self._constr = s
        return self._constr

    def _ctor_const(self, op, s):
        c = op.get("const")
        if c and "fn" in c:
            head, _, last = c["fn"]["path"].rpartition("::")
            if head in (self.block, self.inline) and any(v["name"] == last for v in self.local[head]["variants"]):
                s.add((head, last))
        if c and "variant" in c:
            pass

    def populated(self, adt, field):
        """can the field ever hold something? (not only created empty and never borrowed mutably)"""
        for f in self.prog.bodies():
            if f.derived:
                continue
            for bi, b in enumerate(f.blocks):
                for st in b["s"]:
                    if st["s"] != "assign":
                        continue
                    rv = st["rv"]
                    if any(e[0] == "field" and e[4] == adt and e[2] == field for e in st["place"]["p"]):
                        return True
                    if rv["r"] == "ref" and rv["mut"] and any(e[0] == "field" and e[4] == adt and e[2] == field for e in rv["place"]["p"]):
                        return True
                    if rv["r"] == "agg" and rv.get("def") == adt:
                        names = [n for n, _t in self.fields(adt)]
                        op = rv["ops"][names.index(field)]
                        if not self._empty_vec(f, op):
                            return True
        return False

    def _empty_vec(self, f, op):
        p = op_place(op)
        if p is None or p["p"]:
            return False
        for bi, b in enumerate(f.blocks):
            for st in b["s"]:
                if st["s"] == "assign" and st["place"]["l"] == p["l"] and not st["place"]["p"]:
                    rv = st["rv"]
                    if rv["r"] == "use" and self._empty_vec(f, rv["op"]):
                        continue
                    if rv["r"] == "agg" and rv.get("vname") == "None":
                        continue
                    return False
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == p["l"] and not t["dest"]["p"]:
                c = callee(t)
                if not c or short(c["path"]).rsplit("::", 1)[-1] != "new" or t["args"]:
                    return False
        return True

    def required(self, adt, variant=0):
        """fields of a struct (or of an enum variant's payload struct) to be visited"""
        out = []
        for n, t in self.fields(adt, variant):
            if t is None:
                continue
            if self.carries(t) and self.field_ok(adt, n, t) and self.has_obligation(t):
                if self.collectionish(t) and not self._popc(adt, n):
                    continue
                out.append((n, t, False))
            elif self.is_leaf(adt, n, t):
                out.append((n, t, True))
        return out

    def _popc(self, adt, n):
        m = self.__dict__.setdefault("_pop", {})
        if (adt, n) not in m:
            m[(adt, n)] = self.populated(adt, n)
        return m[(adt, n)]

    def has_obligation(self, t, _seen=None):
        """does anything below this type have to be visited at all? (yes for the recursive types)"""
        return True

    # ---- per-function facts ----
    def info(self, f):
        if f.path not in self._infos:
            self._infos[f.path] = None
            self._infos[f.path] = Info(self, f)
        return self._infos[f.path]

    def local_fn(self, path):
        return self.prog.fns.get(path)

    # ---- the check ----
    def check(self, f, p):
        """-> (missing list, exports)"""
        k = (f.path, p, self.store)
        if k in self.state:
            return self.state[k]
        self.state[k] = ([], False)
        self.counts["functions_checked"] += 1
        r = self._check(f, ("param", p), f.lty(p), 0)
        if r[0] != self.state[k][0] or r[1] != self.state[k][1]:
            self.state[k] = r
            if r[1] and not r[0]:
                # the assumption about exports changed: evaluate once more with it
                r = self._check(f, ("param", p), f.lty(p), 0)
                self.state[k] = r
        return self.state[k]

    def _check(self, f, root, ty, start):
        info = self.info(f)
        missing, exports = [], False
        for path, leaf, desc in self.obligations(ty, (), 0):
            m, ex = self.covered(info, root, path, leaf, desc, start)
            missing += m
            exports |= ex
        if start == 0 and root[0] == "param":
            missing += self.aborts(f, root[1])
        return missing, exports

    def aborts(self, f, p):
        """kinds of node for which f gives up instead of returning"""
        t = self.strip(f.lty(p))
        if t is None or t.k != "adt" or t.defpath not in (self.block, self.inline):
            return []
        k = ("abort", f.path, p)
        if k not in self.state:
            info, out = self.info(f), []
            for v in self.local[t.defpath]["variants"]:
                if (t.defpath, v["name"]) not in self.constructible():
                    continue
                self.counts["variants_checked_for_aborts"] += 1
                if info.escapes(0, ("param", p), (("v", t.defpath, v["name"]),), set(), abort=True) is not None:
                    out.append(Missing(f.short, v["name"], "aborts instead of handling it", f"{f.file}:{f.line}"))
            self.state[k] = out
        return self.state[k]

    def obligations(self, ty, path, depth):
        """paths below a value of this type that must be handed on, as deep as the type is not a collection"""
        t = self.strip(ty)
        if t is None:
            return
        if t.k == "adt" and t.defpath in ("std::option::Option", "std::result::Result"):
            for a in t.argl():
                if self.carries(a):
                    yield from self.obligations(a, path, depth)
            return
        if t.k == "tuple":
            for a in t.argl():
                if self.carries(a):
                    yield from self.obligations(a, path, depth)
            return
        if self.collectionish(t):
            yield path, False, "elements"
            return
        if t.k != "adt" or t.defpath not in self.content and not depth:
            return
        adt = t.defpath
        if adt not in self.local:
            return
        if self.is_enum(adt):
            for vi, v in enumerate(self.local[adt]["variants"]):
                if adt in (self.block, self.inline) and (adt, v["name"]) not in self.constructible():
                    continue
                for fn, ft in self.fields(adt, vi):
                    s = self.strip(ft)
                    if s is None or s.k != "adt" or s.defpath not in self.local:
                        if ft is not None and self.carries(ft) and self.field_ok(adt, fn, ft):
                            yield path + (("v", adt, v["name"]),), False, f"{v['name']}"
                        continue
                    for n, t2, leaf in self.required(s.defpath):
                        yield (path + (("v", adt, v["name"]), ("f", s.defpath, n)), leaf,
                               f"{v['name']}.{n}")
        else:
            for n, t2, leaf in self.required(adt):
                s = self.strip(t2)
                if s is not None and s.k == "adt" and s.defpath in ("std::option::Option",):
                    s = self.strip(s.arg(0))
                if not leaf and s is not None and s.k == "adt" and s.defpath in self.local and not self.collectionish(t2):
                    yield from self.obligations(s, path + (("f", adt, n),), depth + 1)
                else:
                    yield path + (("f", adt, n),), leaf, f"{adt.rsplit('::', 1)[-1]}.{n}"

    def covered(self, info, root, path, leaf, desc, start):
        """is the value at root+path handed on, on every normal path from block `start`?"""
        f = info.f
        self.pairs.add((f.short, desc))
        ev, why, exports = self.events(info, root, path, leaf)
        bad = info.escapes(start, root, path, set(ev))
        if bad is None:
            return [], exports
        # deeper reasons of failed candidates take precedence
        deeper = []
        for g, miss in why:
            if isinstance(miss, list):
                deeper.append((g, miss))
        if deeper and not ev:
            return self.best(deeper), False
        reason = "; ".join(w for g, w in why if isinstance(w, str)) or (
            "not used" if not ev else "a path skips it")
        return [Missing(f.short, f"{desc}", reason, f"{f.file}:{f.line}")], False

    @staticmethod
    def best(cands):
        """the candidate that got furthest: one that fails further down rather than by itself"""
        return min(cands, key=lambda c: (all(m.fn == c[0] and m.reason == "not used" for m in c[1]),
                                         len({m.what for m in c[1]})))[1]

    def events(self, info, root, path, leaf):
        """blocks at which root+path (or something that contains it) is handed on completely"""
        f = info.f
        ev, why = [], []
        exports = False
        if leaf:
            for b in info.leaf_reads(root, path):
                ev.append(b)
        for bi, t in info.calls:
            c = callee(t)
            hit = False
            for ai, a in enumerate(t["args"]):
                for (r, st, part) in info.op_origins(a):
                    if r != root or path[:len(st)] != st:
                        continue
                    if part:
                        if st == path:
                            why.append((f.short, f"only part of it is taken by {short(c['path']).rsplit('::', 1)[-1] if c else '?'}"))
                        continue
                    if leaf and st == path:
                        ev.append(bi)
                        hit = True
                        break
                    g = self.local_fn(c["path"]) if c else None
                    if g is not None:
                        if not g.derived and ai < g.argc and not self.is_accessor(g):
                            ok, ex, miss = self.call_ok(info, bi, t, g, ai + 1, path[len(st):], leaf)
                            if ok:
                                ev.append(bi)
                                exports |= ex
                                hit = True
                            elif miss:
                                why.append((g.short, miss))
                    elif st == path:
                        cl = info.closures_in(t)
                        okc = False
                        for (k, pi) in cl:
                            m, ex = self.check(k, pi)
                            if not m and (not ex or self.result_used(info, bi, t)):
                                okc = True
                            else:
                                why.append((k.short, m if m else "the closure's results are not used"))
                        if okc:
                            ev.append(bi)
                            hit = True
                if hit:
                    break
        # element-wise: loops
        if not leaf:
            el = path + (("e",),)
            for nb, w in info.elem_sources(root, path):
                ok, msg, ex = self.loop_ok(info, nb, root, el)
                if ok:
                    ev.append(nb)
                    ev.extend(w)
                    exports |= ex
                elif msg:
                    why.append((f.short, msg))
            # piece by piece: an outer loop over slices that together are the whole
            for bi, t in info.calls:
                c = callee(t)
                if c and ev and short(c["path"]).endswith("::next") and "Chunks" in f.ty(t["atys"][0]).s and "Exact" not in f.ty(t["atys"][0]).s and \
                        any(r == root and st == path and not pt for r, st, pt in info.op_origins(t["args"][0])):
                    start = info.some_target(bi)
                    if start is not None and info.escapes(start, root, path, set(ev), stop=bi) is None and not info.leaves_early(start, bi):
                        ev.append(bi)
            # handed to the result as a whole
            eb = info.export_blocks(root, path)
            if eb:
                ev.extend(eb)
                exports = True
        if self.store:
            ev.extend(info.store_blocks(root, path))
        return ev, why, exports

    def is_accessor(self, g):
        gi = self.info(g)
        return gi is not None and gi.accessor() is not None

    def covers(self, g, gp, rel, leaf):
        """does g hand on what lies at this path below its parameter?"""
        k = (g.path, gp, rel, leaf, self.store)
        if k not in self.state:
            self.state[k] = ([], False)
            info = self.info(g)
            desc = ".".join(x[2].rsplit("::", 1)[-1] if x[0] != "e" else "elements" for x in rel)
            r = self.covered(info, ("param", gp), rel, leaf, desc, 0)
            if r[1] and not r[0]:
                self.state[k] = r
                r = self.covered(info, ("param", gp), rel, leaf, desc, 0)
            self.state[k] = r
        return self.state[k]

    def call_ok(self, info, bi, t, g, gp, rel, leaf):
        if not self.takes(g, gp):
            return False, False, None
        if rel or leaf:
            m, ex = self.covers(g, gp, rel, leaf)
            m = m + self.aborts(g, gp)
        else:
            m, ex = self.check(g, gp)
        if m:
            return False, False, m
        dty = info.f.ty(t["dty"]) if t.get("dty") is not None else None
        if ex:
            # what g collected must be dealt with here
            r = ("ret", bi)
            if info.exported(r):
                return True, True, None
            mm, ex2 = self._check_ret(info, bi, t, r, g)
            if mm:
                return False, False, mm
            return True, ex2, None
        if not info.result_used(t):
            return False, False, f"the result of {g.short.rsplit('::', 1)[-1]} is thrown away"
        return True, False, None

    def _check_ret(self, info, bi, t, r, g):
        k = (info.f.path, r)
        if k in self.state:
            return self.state[k]
        self.state[k] = ([], False)
        ty = g.lty(0)
        if not self.carries(ty):
            # collected through a &mut argument
            for ai, a in enumerate(t["args"]):
                at = info.f.ty(t["atys"][ai])
                if at.k == "ref" and self.carries(at) and self.collectionish(at):
                    ty = at
                    break
        # what was collected may also be put into the document
        old, self.store = self.store, True
        try:
            res = self._check(info.f, r, ty, t["to"])
        finally:
            self.store = old
        self.state[k] = res
        return res

    def result_used(self, info, bi, t):
        return info.result_used(t)

    def takes(self, g, gp):
        return self.carries(g.lty(gp)) or any(True for _ in ())

    def loop_ok(self, info, nb, root, el):
        """nb produces elements; every element must be handed on before the next is taken"""
        f = info.f
        start = info.some_target(nb)
        if start is None:
            return False, None, False
        ety = info.elem_type(nb)
        miss, exp = [], False
        obl = list(self.obligations(ety, el, 0))
        if not obl:
            return False, "elements of a type without content", False
        inloop = nb in f.reachable(start)
        for path, leaf, desc in obl:
            ev, why, ex = self.events(info, root, path, leaf)
            exp |= ex
            bad = info.escapes(start, root, path, set(ev), stop=nb)
            if bad is not None:
                d = [(g, m) for g, m in why if isinstance(m, list)]
                if d and not ev:
                    miss += self.best(d)
                else:
                    miss.append(Missing(f.short, desc, "; ".join(m for g, m in why if isinstance(m, str)) or
                                ("not used" if not ev else "an element can be passed over"), f"{f.file}:{f.line}"))
        if miss:
            return False, miss, False
        # the loop must not be left before the end
        if inloop and info.leaves_early(start, nb):
            return False, "the loop can be left before the last element", False
        return True, None, exp


class Info:
    """access-path facts of one function"""

    def __init__(self, v, f):
        self.v, self.f = v, f
        self.calls = [(bi, b["t"]) for bi, b in enumerate(f.blocks) if not b["cleanup"] and b["t"]["t"] == "call"]
        self.o = defaultdict(set)
        self.refs = defaultdict(set)        # reference local -> locals it may borrow (whole)
        self._clos = None
        self.solve()
        self.used = self._used()

    # ---- origins ----
    def place_origins(self, p):
        base = self.o.get(p["l"], ())
        if not base:
            return set()
        steps, dc = [], None
        for e in p["p"]:
            if e[0] == "downcast":
                dc = e[2]
            elif e[0] == "field":
                own = e[4]
                if own in self.v.local and (own in self.v.content or True):
                    if self.v.is_enum(own):
                        if own in self.v.content:
                            steps.append(("v", own, dc))
                    elif own in self.v.content or self.v.is_leaf(own, e[2], self.f.ty(e[3])):
                        steps.append(("f", own, e[2]))
                    else:
                        return set()
                dc = None
            elif e[0] in ("index",):
                steps.append(("e",))
            elif e[0] in ("cindex", "subslice"):
                return {(r, s + tuple(steps) + (("e",),), True) for r, s, _ in base if len(s) + len(steps) < MAXSTEPS}
        return {(r, s + tuple(steps), pt) for r, s, pt in base if len(s) + len(steps) <= MAXSTEPS}

    def op_origins(self, op):
        p = op_place(op)
        return self.place_origins(p) if p else set()

    def add(self, l, os_):
        n = len(self.o[l])
        self.o[l] |= os_
        return len(self.o[l]) != n

    def solve(self):
        f, v = self.f, self.v
        for p in range(1, f.argc + 1):
            if v.carries(f.lty(p)):
                self.o[p].add((("param", p), (), False))
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["rv"]["r"] == "ref" and not s["place"]["p"]:
                    p = s["rv"]["place"]
                    if all(e[0] == "deref" for e in p["p"]):
                        self.refs[s["place"]["l"]].add(p["l"])
        changed = True
        rounds = 0
        while changed and rounds < 40:
            changed = False
            rounds += 1
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] != "assign":
                        continue
                    rv = s["rv"]
                    src = set()
                    for op in rv_operands(rv):
                        src |= self.op_origins(op)
                    if rv["r"] == "ref":
                        src |= self.place_origins(rv["place"])
                    if rv["r"] == "discr":
                        continue
                    if src and v.carries(f.lty(s["place"]["l"])) or src and self._leafy(src):
                        if rv["r"] == "use" and "move" in rv.get("op", {}) or True:
                            changed |= self.add(s["place"]["l"], src)
                t = b["t"]
                if t["t"] == "call":
                    changed |= self.call(bi, t)

    def _leafy(self, src):
        return any(s and s[-1][0] == "f" and s[-1][1] in self.v.local for r, s, p in src)

    def call(self, bi, t):
        f, v = self.f, self.v
        c = callee(t)
        ch = False
        dty = f.lty(t["dest"]["l"])
        g = v.local_fn(c["path"]) if c else None
        argo = [self.op_origins(a) for a in t["args"]]
        if g is not None and not g.derived:
            gi = v.info(g)
            acc = gi.accessor() if gi is not None else None
            if acc is not None and acc[0] - 1 < len(argo):
                src = {(r, s + acc[1], p or acc[2]) for r, s, p in argo[acc[0] - 1] if len(s) + len(acc[1]) <= MAXSTEPS}
                if src:
                    ch |= self.add(t["dest"]["l"], src)
                return ch
            if v.carries(dty) and any(argo):
                ch |= self.add(t["dest"]["l"], {(("ret", bi), (), False)})
            if any(argo):
                for ai, a in enumerate(t["args"]):
                    at = f.ty(t["atys"][ai])
                    if at.k == "ref" and at.s.startswith("&mut") and v.collectionish(at):
                        for l in self.targets(a):
                            ch |= self.add(l, {(("ret", bi), (), False)})
            return ch
        # external or derived (clone): transparent for content
        name = short(c["path"]).rsplit("::", 1)[-1] if c else ""
        allo = set().union(*argo) if argo else set()
        if not allo:
            return ch
        part = name in PARTIAL or self.partial_range(t, name)
        src_coll = any(argo[i] and v.collectionish(f.ty(t["atys"][i])) for i in range(len(argo)))
        if v.carries(dty):
            # only from the receiver-like arguments that carry content
            step = ()
            if src_coll and not v.collectionish(dty):
                step = (("e",),)
            new = {(r, s + step, p or part) for r, s, p in allo if len(s) + len(step) <= MAXSTEPS}
            ch |= self.add(t["dest"]["l"], new)
        # mutation of the first argument by the others
        if len(t["args"]) >= 2 and argo and any(argo[1:]):
            at = f.ty(t["atys"][0])
            if at.k == "ref" and at.s.startswith("&mut") and v.carries(at):
                rest = set().union(*argo[1:])
                for l in self.targets(t["args"][0]):
                    ch |= self.add(l, {(r, s, p or part) for r, s, p in rest})
        return ch

    def partial_range(self, t, name):
        if name in ("index", "index_mut", "drain", "get", "splice"):
            for ty in t["atys"][1:]:
                s = self.f.ty(ty).s
                if "Range" in s and "RangeFull" not in s:
                    return True
        return False

    def targets(self, op, depth=0):
        """locals a &mut operand may borrow as a whole"""
        p = op_place(op)
        if p is None:
            return set()
        out, st, seen = set(), [p["l"]], set()
        while st:
            l = st.pop()
            if l in seen:
                continue
            seen.add(l)
            rs = self.refs.get(l)
            if rs:
                st.extend(rs)
            else:
                out.add(l)
        return out

    def accessor(self):
        """(param, steps, partial) when the result is exactly one path of one parameter"""
        os_ = self.o.get(0, set())
        if len(os_) == 1:
            (r, s, p), = os_
            if r[0] == "param" and not any(x[0] == "e" for x in s) and s:
                # an accessor with branches on the variant would not have a single path
                if not any(x[0] == "v" for x in s):
                    return (r[1], s, p)
        return None

    # ---- exports ----
    def exported(self, root):
        if any(r == root for r, s, p in self.o.get(0, ())):
            return True
        for p in range(1, self.f.argc + 1):
            t = self.f.lty(p)
            if t.k == "ref" and t.s.startswith("&mut") and self.v.collectionish(t):
                if any(r == root for r, s, q in self.o.get(p, ()) if (r, s) != (("param", p), ())):
                    return True
        return False

    def export_blocks(self, root, path):
        """blocks that pass root+path, whole, into something that ends up in the result"""
        f, v = self.f, self.v
        if root[0] != "param" and root[0] != "ret":
            return []
        sinks = set()
        if v.carries(f.lty(0)):
            sinks.add(0)
        for p in range(1, f.argc + 1):
            t = f.lty(p)
            if t.k == "ref" and t.s.startswith("&mut") and v.collectionish(t) and ("param", p) != root:
                sinks.add(p)
        sinks = {l for l in sinks if any(r == root and (s == path or s == path + (("e",),)) and not pt
                                         for r, s, pt in self.o.get(l, ()))}
        if not sinks:
            return []
        # locals that flow into a sink
        flows = self.flows_to(sinks)
        out = []
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign" or s["place"]["l"] not in flows:
                    continue
                rv = s["rv"]
                src = set()
                for op in rv_operands(rv):
                    src |= self.op_origins(op)
                if any(r == root and st == path and not pt for r, st, pt in src):
                    out.append(bi)
            t = b["t"]
            if t["t"] == "call":
                hit = any(r == root and st == path and not pt for a in t["args"] for r, st, pt in self.op_origins(a))
                if not hit:
                    continue
                c = callee(t)
                g = v.local_fn(c["path"]) if c else None
                if g is not None and not g.derived:
                    continue
                if t["dest"]["l"] in flows and v.carries(f.lty(t["dest"]["l"])):
                    out.append(bi)
                elif t["args"]:
                    at = f.ty(t["atys"][0])
                    if at.k == "ref" and at.s.startswith("&mut") and v.carries(at) and self.targets(t["args"][0]) & flows:
                        out.append(bi)
        return out

    def store_blocks(self, root, path):
        """blocks that push root+path (or what holds it) into a structure behind a &mut parameter"""
        f, v = self.f, self.v
        out = []
        for bi, t in self.calls:
            c = callee(t)
            g = v.local_fn(c["path"]) if c else None
            if g is not None or len(t["args"]) < 2:
                continue
            at = f.ty(t["atys"][0])
            if not (at.k == "ref" and at.s.startswith("&mut") and v.carries(at)):
                continue
            if not any(r == root and path[:len(st)] == st and not pt
                       for a in t["args"][1:] for r, st, pt in self.op_origins(a)):
                continue
            for (r, st, pt) in self.op_origins(t["args"][0]):
                if r[0] == "param" and r != root and f.lty(r[1]).s.startswith("&mut"):
                    out.append(bi)
                    break
        return out

    def flows_to(self, sinks):
        f, v = self.f, self.v
        fl = set(sinks)
        ch = True
        while ch:
            ch = False
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] != "assign" or s["place"]["l"] not in fl:
                        continue
                    rv = s["rv"]
                    ps = [op_place(o) for o in rv_operands(rv)]
                    if rv["r"] == "ref":
                        ps.append(rv["place"])
                    for p in ps:
                        if p and p["l"] not in fl and v.carries(f.lty(p["l"])):
                            fl.add(p["l"])
                            ch = True
                t = b["t"]
                if t["t"] == "call":
                    into = t["dest"]["l"] in fl
                    if not into and t["args"]:
                        at = f.ty(t["atys"][0])
                        into = at.k == "ref" and at.s.startswith("&mut") and bool(self.targets(t["args"][0]) & fl)
                    if into:
                        for a in t["args"]:
                            p = op_place(a)
                            if p and p["l"] not in fl and v.carries(f.lty(p["l"])):
                                fl.add(p["l"])
                                ch = True
        return fl

    # ---- uses ----
    def _used(self):
        f = self.f
        used = set()
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign":
                    continue
                for op in rv_operands(s["rv"]):
                    p = op_place(op)
                    if p:
                        used.add(p["l"])
                if "place" in s["rv"]:
                    used.add(s["rv"]["place"]["l"])
            t = b["t"]
            if t["t"] == "call":
                for a in t["args"]:
                    p = op_place(a)
                    if p:
                        used.add(p["l"])
            elif t["t"] == "switch":
                p = op_place(t["op"])
                if p:
                    used.add(p["l"])
        return used

    def result_used(self, t):
        d = t["dest"]
        ty = self.f.lty(d["l"])
        if d["l"] == 0 or d["p"]:
            return True
        if ty.k == "tuple" and not ty.argl():
            return True
        return d["l"] in self.used

    def leaf_reads(self, root, path):
        out = []
        for bi, b in enumerate(self.f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign":
                    continue
                rv = s["rv"]
                ps = [op_place(o) for o in rv_operands(rv)]
                if "place" in rv:
                    ps.append(rv["place"])
                for p in ps:
                    if p and any(r == root and st == path for r, st, _ in self.place_origins(p)):
                        out.append(bi)
        return out

    def closures_in(self, t):
        """closures and function items passed to a call: [(function, parameter that gets the element)]"""
        out = []
        f, v = self.f, self.v
        if self._clos is None:
            self._clos = defaultdict(set)
            for bi, b in enumerate(f.blocks):
                for s in b["s"]:
                    if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("agg") == "closure":
                        self._clos[s["place"]["l"]].add(s["rv"]["def"])
        for a in t["args"]:
            p = op_place(a)
            if p and p["l"] in self._clos:
                for d in self._clos[p["l"]]:
                    k = v.local_fn(d)
                    if k:
                        for i in range(2, k.argc + 1):
                            if v.carries(k.lty(i)):
                                out.append((k, i))
            elif p:
                ty = f.lty(p["l"])
                if ty.k == "closure" and ty.defpath in v.prog.fns:
                    k = v.prog.fns[ty.defpath]
                    for i in range(2, k.argc + 1):
                        if v.carries(k.lty(i)):
                            out.append((k, i))
            c = a.get("const")
            if c and "fn" in c:
                k = v.local_fn(c["fn"]["path"])
                if k and k.argc >= 1 and v.carries(k.lty(1)):
                    out.append((k, 1))
            elif c and "ty" in c:
                ty = f.ty(c["ty"])
                if ty is not None and ty.k == "closure" and ty.defpath in v.prog.fns:
                    k = v.prog.fns[ty.defpath]
                    for i in range(2, k.argc + 1):
                        if v.carries(k.lty(i)):
                            out.append((k, i))
        return out

    # ---- loops ----
    def elem_sources(self, root, path):
        """[(block that produces elements of root+path, extra blocks standing for it)]"""
        f, v = self.f, self.v
        el = path + (("e",),)
        out = []
        for bi, t in self.calls:
            c = callee(t)
            g = v.local_fn(c["path"]) if c else None
            if g is not None and not g.derived:
                continue
            if not any(r == root and s == path and not p for a in t["args"] for r, s, p in self.op_origins(a)):
                continue
            if not (v.carries(f.lty(t["dest"]["l"])) and not v.collectionish(f.lty(t["dest"]["l"]))):
                continue
            name = short(c["path"]).rsplit("::", 1)[-1] if c else ""
            if name in PARTIAL:
                continue
            extra = []
            if name in ("index", "index_mut", "remove", "swap_remove"):
                # an index loop stands and falls with the length of the same collection
                for b2, t2 in self.calls:
                    c2 = callee(t2)
                    if c2 and short(c2["path"]).rsplit("::", 1)[-1] == "len" and \
                            any(r == root and s == path and not p for a in t2["args"] for r, s, p in self.op_origins(a)):
                        extra.append(b2)
                if not extra:
                    continue
            out.append((bi, extra))
        return out

    def elem_type(self, nb):
        return self.f.lty(self.f.blocks[nb]["t"]["dest"]["l"])

    def some_target(self, nb):
        f = self.f
        t = f.blocks[nb]["t"]
        d = t["dest"]["l"]
        ty = f.lty(d)
        b = t["to"]
        if not (ty.k == "adt" and ty.defpath == "std::option::Option"):
            return b
        al, seen = {d}, set()
        while b is not None and b not in seen:
            seen.add(b)
            dl = set()
            for s in f.blocks[b]["s"]:
                if s["s"] == "assign" and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "use" and op_place(rv["op"]) and op_place(rv["op"])["l"] in al and not op_place(rv["op"])["p"]:
                        al.add(s["place"]["l"])
                    if rv["r"] == "discr" and rv["place"]["l"] in al and not rv["place"]["p"]:
                        dl.add(s["place"]["l"])
            tt = f.blocks[b]["t"]
            if tt["t"] == "switch":
                p = op_place(tt["op"])
                if p and p["l"] in dl:
                    for val, tgt in tt["vals"]:
                        if int(val) == 1:
                            return tgt
                    return tt["else"]
                return t["to"]
            if tt["t"] == "call" and tt["args"] and op_place(tt["args"][0]) and op_place(tt["args"][0])["l"] in al:
                # unwrap and friends
                return tt["to"]
            n = f.succ(b)
            if len(n) != 1:
                return t["to"]
            b = n[0]
        return t["to"]

    def error_block(self, b):
        """a block that can only be on the way to returning an error"""
        f = self.f
        for s in f.blocks[b]["s"]:
            if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("vname") == "Err":
                return True
        t = f.blocks[b]["t"]
        if t["t"] == "call":
            c = callee(t)
            if c and short(c["path"]).endswith("from_residual"):
                return True
        return False

    def leaves_early(self, start, nb):
        f = self.f
        heads = {nb} | {h for h, body in f.loops().items() if nb in body}
        seen, st = set(), [start]
        while st:
            b = st.pop()
            if b in seen or b in heads or self.error_block(b):
                continue
            seen.add(b)
            if f.blocks[b]["t"]["t"] == "return":
                return True
            st.extend(f.succ(b))
        return False

    # ---- path search ----
    def option_field(self, step, rv):
        """the step is a field that is an Option, and it is that Option that is looked at"""
        dty = self.f.ty(rv["ty"]) if rv.get("ty") is not None else None
        if step[0] != "f" or step[1] not in self.v.local or dty is None or dty.defpath != "std::option::Option":
            return False
        return any(n == step[2] and t is not None and t.s == dty.s for n, t in self.v.fields(step[1]))

    def escapes(self, start, root, path, events, stop=None, abort=False):
        """a path from `start` to a normal return (or to `stop`) that passes no event, under the
        assumption that root+path exists (its variants are the ones in the path); None if there is none"""
        f, v = self.f, self.v
        want = {}
        for i, s in enumerate(path):
            if s[0] == "v":
                want[path[:i]] = (s[1], s[2])
        seen = set()
        stk = [(start, frozenset(), 0)]
        while stk:
            b, env, first = stk.pop()
            if (b, env) in seen:
                continue
            seen.add((b, env))
            if stop is not None and b == stop:
                return b
            if b in events or self.error_block(b):
                continue
            e = dict(env)
            for s in f.blocks[b]["s"]:
                if s["s"] != "assign" or s["place"]["p"]:
                    if s["s"] == "assign" and s["place"]["p"]:
                        continue
                    continue
                l, rv = s["place"]["l"], s["rv"]
                e.pop(l, None)
                if rv["r"] == "use":
                    c = rv["op"].get("const")
                    if c and "bool" in c:
                        e[l] = ("b", bool(c["bool"]))
                    else:
                        p = op_place(rv["op"])
                        if p and not p["p"] and p["l"] in e:
                            e[l] = e[p["l"]]
                elif rv["r"] == "un" and rv["uop"] == "Not":
                    p = op_place(rv["op"])
                    if p and not p["p"] and p["l"] in e:
                        x = e[p["l"]]
                        e[l] = ("b", not x[1]) if x[0] == "b" else ("ne" if x[0] == "em" else "em",)
                elif rv["r"] == "discr":
                    for (r, st_, pt) in self.place_origins(rv["place"]):
                        if r == root and st_ in want and not pt:
                            dty = f.ty(rv["ty"]) if rv.get("ty") is not None else None
                            e[l] = ("d", want[st_][0], want[st_][1])
                        elif r == root and st_ and path[:len(st_)] == st_ and not pt and self.option_field(st_[-1], rv):
                            e[l] = ("b", True)      # it is there, so the Option holds something
            t = f.blocks[b]["t"]
            k = t["t"]
            if k == "return":
                if abort:
                    continue
                return b
            if k == "call":
                c = callee(t)
                if abort and t["to"] is None:
                    return b
                d = t["dest"]["l"]
                e.pop(d, None)
                if c and t["args"]:
                    os_ = self.op_origins(t["args"][0])
                    nm = short(c["path"]).rsplit("::", 1)[-1]
                    if nm == "is_empty" and any(r == root and st_ == path for r, st_, _ in os_):
                        e[d] = ("em",)
                    g = v.local_fn(c["path"])
                    if g is not None and not g.derived and f.lty(d).k == "bool":
                        for (r, st_, pt) in os_:
                            if r == root and st_ in want and not pt:
                                bv = v.bool_for(g, 1, want[st_])
                                if bv is not None:
                                    e[d] = ("b", bv)
                nxt = [t["to"]] if t["to"] is not None else []
            elif k == "switch":
                p = op_place(t["op"])
                x = e.get(p["l"]) if p and not p["p"] else None
                vals = t["vals"]
                nxt = None
                if x is not None and x[0] == "b":
                    z = 1 if x[1] else 0
                    nxt = [next((tg for val, tg in vals if int(val) == z), t["else"])]
                elif x is not None and x[0] in ("em", "ne"):
                    z = 0 if x[0] == "em" else 1      # the branch on which it is not empty
                    nxt = [next((tg for val, tg in vals if int(val) == z), t["else"])]
                elif x is not None and x[0] == "d":
                    vs = v.local[x[1]]["variants"]
                    di = next((str(y.get("discr", i)) for i, y in enumerate(vs) if y["name"] == x[2]), None)
                    nxt = [next((tg for val, tg in vals if str(val) == str(di)), t["else"])]
                if nxt is None:
                    nxt = f.succ(b)
            else:
                nxt = f.succ(b)
            en = frozenset((a, b2) for a, b2 in e.items())
            for n in nxt:
                stk.append((n, en, 1))
        return None


def bool_for(self, g, p, want):
    """value of a predicate function for a node of the given variant, when it is the same on all paths"""
    k = (g.path, p, want)
    if k in self._boolmemo:
        return self._boolmemo[k]
    self._boolmemo[k] = None
    info = self.info(g)
    res = set()
    seen, stk = set(), [(0, frozenset())]
    while stk:
        b, env = stk.pop()
        if (b, env) in seen:
            continue
        seen.add((b, env))
        e = dict(env)
        for s in g.blocks[b]["s"]:
            if s["s"] != "assign" or s["place"]["p"]:
                continue
            l, rv = s["place"]["l"], s["rv"]
            e.pop(l, None)
            if rv["r"] == "use":
                c = rv["op"].get("const")
                if c and "bool" in c:
                    e[l] = ("b", bool(c["bool"]))
                else:
                    q = op_place(rv["op"])
                    if q and not q["p"] and q["l"] in e:
                        e[l] = e[q["l"]]
            elif rv["r"] == "un" and rv["uop"] == "Not":
                q = op_place(rv["op"])
                if q and not q["p"] and e.get(q["l"], ("x",))[0] == "b":
                    e[l] = ("b", not e[q["l"]][1])
            elif rv["r"] == "discr":
                if any(r == ("param", p) and st == () for r, st, _ in info.place_origins(rv["place"])):
                    e[l] = ("d", want[0], want[1])
        t = g.blocks[b]["t"]
        if t["t"] == "return":
            x = e.get(0)
            res.add(x[1] if x and x[0] == "b" else None)
            continue
        nxt = g.succ(b)
        if t["t"] == "call":
            e.pop(t["dest"]["l"], None)
        if t["t"] == "switch":
            q = op_place(t["op"])
            x = e.get(q["l"]) if q and not q["p"] else None
            if x and x[0] == "b":
                z = 1 if x[1] else 0
                nxt = [next((tg for val, tg in t["vals"] if int(val) == z), t["else"])]
            elif x and x[0] == "d":
                vs = self.local[x[1]]["variants"]
                di = next((str(y.get("discr", i)) for i, y in enumerate(vs) if y["name"] == x[2]), None)
                nxt = [next((tg for val, tg in t["vals"] if str(val) == str(di)), t["else"])]
        en = frozenset(e.items())
        for n in nxt:
            stk.append((n, en))
    r = res.pop() if len(res) == 1 else None
    self._boolmemo[k] = r
    return r


Visitor.bool_for = bool_for
