"""What the panic analysis knows about calls: the crate's own functions by their summaries, the
standard library by the models below, anything else changes what it is given mutably."""
import re
import mir
from mir import callee, short
import os
from panics import (Engine, State, Contradiction, payload, SOMEP, OKP, ERRP, NONE, SOME, OK, ERR, INF,
                    overlaps, fold, lit_text, atom_places, ASCII)

STR = "std::string::String"
VEC = ("std::vec::Vec", "std::collections::VecDeque")
PANICS = ("core::panicking", "std::rt::begin_panic", "std::panicking", "core::option::expect_failed",
          "core::option::unwrap_failed", "core::result::unwrap_failed")
TRUSTED_ERR = ("regex::", "std::sync::PoisonError", "std::convert::Infallible", "log::SetLoggerError", "core::convert::Infallible")
NAMED = {"unwrap", "expect", "unwrap_err", "expect_err"}
VIEW = {"deref", "deref_mut", "as_str", "as_slice", "as_mut_slice", "as_bytes", "borrow", "borrow_mut", "as_mut_str",
        "as_path", "as_os_str"}


def only(*ops):
    return ops

STRICT = bool(os.environ.get("VERIF_STRICT"))     # for working on the models


class Calls(Engine):
    # ------------------------------------------------------------------ helpers
    def cat(self, t):
        while t is not None and (t.k in ("ref", "ptr") or t.k == "adt" and t.defpath == "std::boxed::Box"):
            t = t.arg(0)
        if t is None:
            return None
        if t.k == "str":
            return "str"
        if t.k in ("slice", "array"):
            return "vec"
        if t.k == "adt":
            d = t.defpath
            if d == STR:
                return "str"
            if d in VEC:
                return "vec"
            if d == "std::option::Option":
                return "opt"
            if d == "std::result::Result":
                return "res"
            if d.startswith("std::collections::"):
                return "map"
        return t.k

    def depth(self, t):
        d = 0
        while t is not None and t.k == "ref":
            d += 1
            t = t.arg(0)
        return d

    def peel(self, t):
        while t is not None and (t.k == "ref" or t.k == "adt" and t.defpath == "std::boxed::Box"):
            t = t.arg(0)
        return t

    def referent(self, st, f, op):
        """the place an argument finally refers to (through all references)"""
        p = self.opplace(st, f, op)
        t = self.opty(f, op)
        if p is None:
            o = (("T", "const"),)
            st.kill(o)
            self.const_fact(st, f, o, op.get("const"))
            p = o
        d = self.depth(t)
        while d:
            p = self.target(st, p)
            d -= 1
        return p

    def two(self, st, D, some, none, some_v=SOME):
        """split into the two variants of an Option (or Result)"""
        out = []
        for fn, v in ((some, some_v), (none, 1 - some_v)):
            if fn is None:
                continue
            ns = st.copy()
            try:
                ns.kill(D)
                ns.upd(D, var=frozenset([v]))
                fn(ns)
            except Contradiction:
                continue
            out.append(ns)
        return out

    def touched(self, st, P):
        """P was modified"""
        self.note_write(st, P)
        self.check_inv(st, P)

    def closure_of(self, f, op):
        t = self.opty(f, op)
        while t is not None and t.k == "ref":
            t = t.arg(0)
        if t is not None and t.k == "closure":
            return t.defpath
        if t is not None and t.k == "fndef":
            return t.defpath
        return None

    # ------------------------------------------------------------------ own functions
    def entry_for(self, st, g, binds):
        """facts of the caller in the callee's terms; binds: callee root -> caller place"""
        E = State()
        inv = sorted(binds.items(), key=lambda kv: -len(kv[1]))

        def tr(x):
            for r, q in inv:
                if x[:len(q)] == q:
                    return (r,) + x[len(q):]
            return None
        for r, q in binds.items():
            n = len(q)
            self.materialise(st, q)
            for p, fc in st.F.items():
                if p[:n] == q and fold(p) == p:
                    val = self.tr_val(fc[1], tr)
                    E.put((r,) + p[n:], fc[0], val, fc[2])
        tz = {None: [None]}
        for s in st.syms():
            if fold(s[1]) != s[1]:
                tz[s] = []
                continue
            l = [(s[0], (r,) + s[1][len(q):]) for r, q in binds.items() if s[1][:len(q)] == q]
            tz[s] = l
        for (x, y), c in st.Z.items():
            for a in tz[x]:
                for b in tz[y]:
                    if a != b:
                        E.Z[(a, b)] = min(c, E.Z.get((a, b), INF))
        # bounds that go through places the callee does not know
        mapped = [s for s in tz if s is not None and tz[s]]
        for s in mapped:
            lo, hi = st.bound(None, s), st.bound(s, None)
            for a in tz[s]:
                if lo < 0 or (s[0] == "i" and lo < INF):
                    E.Z[(None, a)] = min(lo, E.Z.get((None, a), INF))
                if hi < INF:
                    E.Z[(a, None)] = min(hi, E.Z.get((a, None), INF))
        self.init_args(g, E)
        return E

    def tr_val(self, v, tr):
        if v is None:
            return None
        k = v[0]
        if k in ("b", "ch", "weak"):
            return v
        if k in ("ref", "same", "d"):
            q = tr(v[1])
            return (k, q) if q is not None else None
        if k in ("iter", "ixof"):
            q = tr(v[1])
            return (k, q) + v[2:] if q is not None else None
        if k == "c":
            sides = []
            for side in v[1:]:
                o = []
                for a in side:
                    if a[0] in ("var", "has", "pre", "suf"):
                        q = tr(a[1])
                        if q is None:
                            return None
                        o.append((a[0], q) + a[2:])
                    else:
                        ss = []
                        for s in (a[1], a[2]):
                            if s is None:
                                ss.append(None)
                                continue
                            q = tr(s[1])
                            if q is None:
                                return None
                            ss.append((s[0], q))
                        o.append((a[0], ss[0], ss[1], a[3]))
                sides.append(tuple(o))
            return ("c",) + tuple(sides)
        return None

    def invoke(self, f, b, st, path, binds, D, keyfilter=None, dirty=True):
        """states after calling path; D: where the result goes (None: dropped)"""
        g = self.prog.fns[path]
        E = self.entry_for(st, g, binds)
        path = self.context(g, E)
        self.callers[path].add(self.ctx)
        if not self.collect:
            self.want_entry(path, E)
        s = self.summ.get(path)
        if s is None:
            return []

        def root(r):
            if r[0] == "L" and r[1] > 0:
                return plain.get(r)
            if r in binds:
                return binds[r]
            if r[0] == "G":
                q = binds.get(("A",) + r[1:])
                return None if q is None else (("T", "before"),) + q
            if r == ("L", 0):
                return D
            if r[0] == "O":
                if r[1] and r[1][0] in ("str", "promo"):
                    return (r,)
                n = ("O", ("call", b, r)) if _depth(r) < 3 else ("O", ("call", b, "deep"))
                return (n,)
            return None

        def tr(x):
            q = root(x[0])
            return None if q is None else q + x[1:]
        out = []
        plain = {}
        for r, q in binds.items():
            if r[0] == "L" and r[1] in self.kept(g) and not (D is not None and (overlaps(D, q) or overlaps(q, D))) and \
                    not any(overlaps(m, q) or overlaps(q, m) for m in (tr(p) for p, _ in s.mods) if m is not None):
                plain[r] = q
        same = None
        if D is not None and not s.mods and g.argc and self.pure(g.path):
            qs = [q for r, q in binds.items() if r[0] == "A"]
            if all(g.lty(i + 1).k == "ref" for i in range(g.argc)) and not any(
                    q[0][0] in "OT" or overlaps(D, q) or overlaps(q, D) for q in qs):
                t = g.lty(0)
                kind = {"uint": "u", "int": "i"}.get(t.k) or ("len" if self.cat(t) in ("str", "vec") else None)
                if kind:
                    same = (kind, (("P", g.path, tuple(sorted(qs, key=repr))),))
        for key, X in s.exits:
            if keyfilter is not None and not keyfilter(key):
                continue
            ns = st.copy()
            try:
                before = []
                for y in X.syms():
                    if y[1][0][0] == "G":
                        q = tr(y[1])
                        if q is not None:
                            before.append((y[0], q))
                            ns.assume_eq((before[-1], 0), self.len_lin(ns, q[1:]))
                for p, kind in s.mods:
                    q = tr(p)
                    if q is None:
                        # modifies something that is not known here
                        continue
                    ns.kill(q)
                    self.note_write(ns, q)
                if D is not None:
                    ns.kill(D)
                for p, fc in X.F.items():
                    q = tr(p)
                    if q is None:
                        continue
                    old = ns.get(q)
                    var = fc[0]
                    if var is not None and old[0] is not None:
                        var = var & old[0]
                        if not var:
                            raise Contradiction
                    elif var is None:
                        var = old[0]
                    if var is not None and old[1] and old[1][0] == "same":
                        self.refine_var(ns, old[1][1], var)
                    val = self.tr_val(fc[1], tr)
                    text = fc[2] if fc[2] is not None else old[2]
                    if old[2] is not None and fc[2] is not None and len(old[2][0]) + len(old[2][1]) + len(old[2][2]) > \
                            len(fc[2][0]) + len(fc[2][1]) + len(fc[2][2]):
                        text = old[2]
                    ns.put(q, var, old[1] if old[1] is not None else val, text)
                for (x, y), c in X.Z.items():
                    a = None if x is None else ((x[0], tr(x[1])) if tr(x[1]) is not None else 0)
                    e = None if y is None else ((y[0], tr(y[1])) if tr(y[1]) is not None else 0)
                    if a == 0 or e == 0:
                        continue
                    ns.assume(a, e, c)
                for y in before:
                    ns.forget_sym(y)
                if same is not None:
                    ns.assume_eq((same, 0), ((same[0], D), 0))
                for r, os in X.org.items():
                    q = root(r)
                    if q is not None and len(q) == 1 and q[0][0] == "O":
                        ns.org[q[0]] = tuple(x for x in (tr(o) for o in os) if x is not None)
                for p, kind in s.mods:
                    q = tr(p)
                    if q is not None and not any(e[0] == "f" and e[2] is not None for e in p[-2:]):
                        self.check_inv(ns, q)
            except Contradiction:
                continue
            out.append(ns)
        return out

    def pure(self, path):
        """called again with the same, it returns the same"""
        r = self.pure_cache.get(path)
        if r is None:
            r = self.pure_cache[path] = not any(
                any(x in short(c) for x in ("std::fs", "std::env", "std::io", "std::time", "rand", "process"))
                for c in self.prog.reach_from([path]))
        return r

    def bind_args(self, f, st, g, args):
        binds = {}
        for i, op in enumerate(args):
            if i >= g.argc:
                break
            p = self.opplace(st, f, op)
            if p is None:
                p = (("T", ("arg", i)),)
                st.kill(p)
                self.const_fact(st, f, p, op.get("const"))
            binds[("L", i + 1)] = p
            t = g.lty(i + 1)
            d = 0
            q = p
            while t is not None and t.k == "ref":
                q = self.target(st, q)
                binds[("A", i, d)] = q
                t, d = t.arg(0), d + 1
        return binds

    def bind_closure(self, f, st, g, cop, elems):
        """closure operand and the places its parameters finally refer to (None: unknown)"""
        binds = {}
        cp = self.opplace(st, f, cop)
        i0 = 0
        if g.kind == "closure" or "{closure" in g.path:
            if cp is not None:
                t = g.lty(1)
                if t.k == "ref":
                    binds[("A", 0, 0)] = cp
                else:
                    binds[("L", 1)] = cp
                # captured references
                ct = self.peel(t)
                for fi, at in enumerate(ct.argl() if ct is not None else []):
                    pass
            i0 = 1
        for k, e in enumerate(elems):
            i = i0 + k
            if e is None or i >= g.argc:
                continue
            d = self.depth(g.lty(i + 1))
            if d == 0:
                binds[("L", i + 1)] = e
            else:
                binds[("A", i, d - 1)] = e
        return binds

    def capture_writes(self, f, st, op):
        """a closure handed to code that is not modelled may change what it captured mutably"""
        p = self.opplace(st, f, op)
        if p is None:
            return
        for q, fc in list(st.F.items()):
            if q[:len(p)] == p and fc[1] and fc[1][0] == "ref":
                st.kill(fc[1][1])
                self.note_write(st, fc[1][1])

    # ------------------------------------------------------------------ calls
    def call(self, f, b, t, st):
        ci = callee(t)
        D = self.resolve(st, f, t["dest"])
        args = t["args"]
        if ci is None:
            self.havoc(f, st, args, D)
            return [st]
        path = ci["path"]
        if path in self.prog.fns and path not in self.skip:
            g = self.prog.fns[path]
            if g.derived and g.name == "clone":
                return self.clone(f, st, args, D)
            if not (g.derived and g.name in ("eq", "ne", "fmt", "serialize", "partial_cmp", "cmp", "hash")):
                binds = self.bind_args(f, st, g, args)
                if D[0][0] in ("A", "O"):
                    self.note_write(st, D)
                return self.invoke(f, b, st, path, binds, D)
            if g.name in ("eq", "ne"):
                return self.equal(f, st, args, D, g.name == "eq")
        if any(path.startswith(p) for p in PANICS):
            self.site(f, b, "panic", False, "panics here: " + self.panic_name(t))
            return []
        name = ci["name"] if ci.get("name") else path.rsplit("::", 1)[-1]
        self.note_write(st, D)
        for op in args:
            p = self.opplace(st, f, op)
            if p is not None and "move" in op:
                ty = self.opty(f, op)
                if ty is None or ty.k != "ref":
                    self.escapes(st, p)
        r = None
        m = getattr(self, "m_" + name, None)
        if m is not None:
            try:
                r = m(f, b, st, t, args, D)
            except (KeyError, TypeError, AttributeError, IndexError, ValueError) as e:
                if STRICT:
                    raise
                self.unmodelled[f"{short(path)} ({type(e).__name__})"] += 1     # used in a way the model does not know
        elif name in VIEW:
            r = self.view(f, st, args, D)
        if r is None:
            self.havoc(f, st, args, D)
            st.upd(D, val=("ext", short(path)))
            if path not in self.skip:
                self.unmodelled[short(path)] += 1
            r = [st]
        return r

    def panic_name(self, t):
        sp = t.get("span")
        return (sp[2][-1] + "!") if sp and sp[2] else "panic"

    def havoc(self, f, st, args, D):
        for op in args:
            ty = self.opty(f, op)
            if ty is None:
                continue
            if ty.k == "ref" and ty.d.get("mut"):
                P = self.referent(st, f, op)
                st.kill(P)
                self.touched(st, P)
            elif ty.k == "closure" or ty.k == "adt" and "{closure" in ty.s:
                self.capture_writes(f, st, op)
        for op in args:
            d = self.closure_of(f, op)
            if d in self.prog.fns and d not in self.skip:
                g = self.prog.fns[d]
                self.invoke(f, self.cur[1], st.copy(), d, self.bind_closure(f, st, g, op, [None] * 3), None)
        st.kill(D)

    def clone(self, f, st, args, D):
        P = self.referent(st, f, args[0])
        self.materialise(st, P)
        self.copy_owned(st, P, D)
        return [st]

    def copy_owned(self, st, P, D):
        st.copy_tree(P, D)
        self.check_inv(st, D)

    def equal(self, f, st, args, D, pos):
        a, b = (self.referent(st, f, x) for x in args[:2])
        ta, tb = (self.peel(self.opty(f, x)) for x in args[:2])
        atoms = ((), ())
        for p, ty in ((a, ta), (b, tb)):
            if self.enumlike(ty) and st.get(p)[0] is None:
                av = self.all_variants(ty)
                if av is not None:
                    st.upd(p, var=av)
        if self.enumlike(ta):
            x, y = st.get(a)[0], st.get(b)[0]
            if x is not None and y is not None:
                t = [("var", a, x & y), ("var", b, x & y)]
                n = []
                if self.plain_enum(ta):
                    if len(y) == 1:
                        n.append(("var", a, x - y))
                    elif len(x) == 1:
                        n.append(("var", b, y - x))
                atoms = (tuple(t), tuple(n))
        elif self.cat(ta) == "str":
            lb = self.lit(st, b)
            if lb is not None:
                n = len(lb.encode())
                t = [("z", ("len", a), None, n), ("z", None, ("len", a), -n)]
                tx = lit_text(lb)
                if tx[0]:
                    t.append(("pre", a, tx[0], 0))
                if n == 0:
                    atoms = (tuple(t), (("z", None, ("len", a), -1),))
                else:
                    atoms = (tuple(t), ())
        st.kill(D)
        if not pos:
            atoms = (atoms[1], atoms[0])
        if atoms != ((), ()):
            self.set_cond(st, D, *atoms)
        return [st]

    def plain_enum(self, t):
        a = self.prog.adts.get(t.defpath)
        return bool(a) and all(not v["fields"] for v in a["variants"])

    def lit(self, st, p):
        r = p[0]
        if len(p) == 1 and r[0] == "O" and isinstance(r[1], tuple) and r[1] and r[1][0] == "str":
            return r[1][1]
        v = st.get(p)[1]
        if v and v[0] == "ref":
            return self.lit(st, v[1])
        return None

    def pattern(self, st, f, op):
        """a literal string or char pattern"""
        c = op.get("const")
        if c and "str" in c:
            return c["str"]
        if c and "char" in c:
            return c["char"]
        p = self.opplace(st, f, op)
        if p is None:
            return None
        for _ in range(3):
            l = self.lit(st, p)
            if l is not None:
                return l
            v = st.get(p)[1]
            if v and v[0] == "ch":
                return v[1]
            if v and v[0] == "ref":
                p = v[1]
            else:
                return None
        return None

    def view(self, f, st, args, D):
        p = self.opplace(st, f, args[0])
        ty = self.opty(f, args[0])
        c = self.cat(ty)
        if c in ("opt", "res") or p is None:
            return None
        if c not in ("str", "vec"):
            return None
        P = self.referent(st, f, args[0])
        st.kill(D)
        st.upd(D, val=("ref", P))
        return [st]

    # ---- identity-like
    def ident(self, f, st, args, D):
        """a value is handed through: owned copies of text, the same value otherwise"""
        if args[0].get("const") is not None:
            ty = self.opty(f, args[0])
        ty = self.opty(f, args[0])
        c = self.cat(ty)
        if c == "str":
            P = self.referent(st, f, args[0])
            self.materialise(st, P)
            self.copy_owned(st, P, D)
            return [st]
        return None

    def m_to_string(self, f, b, st, t, args, D):
        return self.ident(f, st, args, D)

    m_to_owned = m_to_string
    m_into_string = m_to_string

    def m_clone(self, f, b, st, t, args, D):
        return self.clone(f, st, args, D)

    m_to_vec = m_clone

    def m_from(self, f, b, st, t, args, D):
        if self.cat(self.opty(f, args[0])) == "str" and self.cat(self.dty(f, t)) == "str":
            return self.ident(f, st, args, D)
        return None

    def m_into(self, f, b, st, t, args, D):
        return self.m_from(f, b, st, t, args, D)

    def dty(self, f, t):
        return self.place_ty(f, t["dest"])

    def m_into_iter(self, f, b, st, t, args, D):
        return self.m_iter(f, b, st, t, args, D)

    def m_iter(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        p = self.opplace(st, f, args[0])
        if p is None:
            return None
        c = self.cat(ty)
        v = st.get(p)[1]
        if v and v[0] == "iter":
            st.copy_tree(p, D)
            return [st]
        if c != "vec":
            if ty.k == "adt" and self.cat(ty) not in ("opt", "res", "map", "str"):
                st.copy_tree(p, D)     # an iterator already
                return [st]
            return None
        if ty.k == "ref":
            P = self.referent(st, f, args[0])
            st.kill(D)
            st.upd(D, val=("iter", P, "ref"))
        else:
            O = (("O", ("own", b)),)
            st.copy_tree(p, O)
            st.kill(D)
            st.upd(D, val=("iter", O, "own"))
        return [st]

    m_iter_mut = m_iter

    def m_chars(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(D)
        st.upd(D, val=("iter", P, "chars"))
        return [st]

    def m_enumerate(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        v = st.get(p)[1] if p else None
        st.kill(D)
        if v and v[0] == "iter" and v[2] in ("ref", "own"):
            st.upd(D, val=("iter", v[1], "enum-" + v[2]))
        return [st]

    def m_rev(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        v = st.get(p)[1] if p else None
        st.kill(D)
        if v and v[0] == "iter":
            st.upd(D, val=v)
        return [st]

    m_peekable = m_rev
    m_by_ref = m_rev

    def m_next(self, f, b, st, t, args, D):
        p = self.referent(st, f, args[0])
        v = st.get(p)[1]

        def some(ns):
            if v and v[0] == "iter":
                E = v[1] + (("e", b),)
                ns.kill(E) if v[2].endswith("own") else None
                if v[2] in ("ref", "enum-ref"):
                    tgt = D + (SOMEP,) if v[2] == "ref" else D + (SOMEP, ("f", 1, None, None))
                    # another element each time round: forget what was known about the last one
                    self.fresh(ns, E)
                    ns.upd(tgt, val=("ref", E))
                elif v[2] == "chars":
                    tx = self.text(ns, v[1])
                    ns.assume(None, ("len", v[1]), -1)
        return self.two(st, D, some, lambda ns: None)

    m_next_back = m_next
    m_peek = m_next

    def fresh(self, st, E):
        """forget facts recorded under exactly this element name"""
        n = len(E)
        for q in [q for q in st.F if q[:n] == E]:
            del st.F[q]
        for s in st.syms():
            if s[1][:n] == E:
                st.forget_sym(s)
        st.drop_vals(lambda v: v[0] in ("d", "same") and v[1][:n] == E or v[0] == "c" and any(
            q[:n] == E for side in v[1:] for a in side for q in atom_places(a)))

    def m_collect(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        v = st.get(p)[1] if p else None
        st.kill(D)
        L = (("len", D), 0)
        if v and v[0] == "iter":
            src, k = v[1], v[2]
            if k in ("ref", "own", "enum-ref", "enum-own", "map"):
                st.assume_eq(L, self.len_lin(st, src))
            elif k == "split":
                st.assume(None, L[0], -1)
            elif k == "splitn0":
                if st.le((None, 1), self.len_lin(st, src)):
                    st.assume(None, L[0], -1)
            elif k.startswith("until:"):
                ch = k[6:]
                n = self.len_lin(st, src)
                tx = self.text(st, src)
                if tx and ch in tx[2]:
                    st.assume_le(L, n, 1)
                    # the suffix that cannot be the character
                    m = 0
                    for cs in tx[1]:
                        if ch in cs:
                            break
                        m += 1
                    if m:
                        st.assume_le(L, n, 1 + m)
                    m = 0
                    for cs in tx[0]:
                        if ch in cs:
                            break
                        m += 1
                    if m:
                        st.assume_le((None, m), L)
                    st.B |= {(L[0], 0, src), (L[0], len(ch.encode()), src)}
                else:
                    st.assume_le(L, n)
                    st.B |= {(L[0], 0, src)}
        return [st]

    m_from_iter = m_collect

    def m_take_while(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        v = st.get(p)[1] if p else None
        d = self.closure_of(f, args[1])
        st.kill(D)
        if v and v[0] == "iter" and v[2] == "chars" and d in self.prog.fns:
            ch = self.until_char(self.prog.fns[d])
            if ch is not None:
                st.upd(D, val=("iter", v[1], "until:" + ch))
        return [st]

    def until_char(self, g):
        """the closure is |c| c != CH (possibly through references)"""
        for blk in g.blocks:
            if blk["cleanup"]:
                continue
            for s in blk["s"]:
                if s["s"] == "assign" and s["rv"]["r"] == "bin" and s["rv"]["bop"] == "Ne":
                    for o in (s["rv"]["a"], s["rv"]["b"]):
                        if "const" in o and "char" in o["const"]:
                            return o["const"]["char"]
            t = blk["t"]
            if t["t"] == "call":
                ci = callee(t)
                if ci and ci["path"].rsplit("::", 1)[-1] == "ne":
                    for s in blk["s"]:
                        if s["s"] == "assign" and s["rv"]["r"] == "use" and "const" in s["rv"]["op"] and \
                                "promoted" in s["rv"]["op"]["const"]:
                            v = self.promoted(g, s["rv"]["op"]["const"]["promoted"])
                            if v and v[0] == "char":
                                return v[1]
        return None

    def m_split(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(D)
        st.upd(D, val=("iter", P, "split"))
        return [st]

    m_rsplit = m_split

    def m_split_terminator(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(D)
        st.upd(D, val=("iter", P, "splitn0"))
        return [st]

    def m_lines(self, f, b, st, t, args, D):
        return self.m_split_terminator(f, b, st, t, args, D)

    def m_map(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        c = self.cat(ty)
        p = self.opplace(st, f, args[0])
        d = self.closure_of(f, args[1])
        if c in ("opt", "res"):
            return self.opt_map(f, b, st, args, D, c)
        v = st.get(p)[1] if p else None
        if d in self.prog.fns and d not in self.skip:
            g = self.prog.fns[d]
            E = None
            if v and v[0] == "iter" and v[2] in ("ref", "own"):
                E = v[1] + (("e", ("map", b)),)
            self.invoke(f, b, st.copy(), d, self.bind_closure(f, st, g, args[1], [E]), None)
        self.capture_writes(f, st, args[1])
        st.kill(D)
        if v and v[0] == "iter" and v[2] in ("ref", "own", "split", "splitn0"):
            st.upd(D, val=("iter", v[1], "map" if v[2] in ("ref", "own") else v[2]))
        return [st]

    def opt_map(self, f, b, st, args, D, c):
        p = self.opplace(st, f, args[0])
        if p is None:
            return None
        var = st.get(p)[0]
        d = self.closure_of(f, args[1])
        good = SOME if c == "opt" else OK
        out = []
        for v in (0, 1):
            if var is not None and v not in var:
                continue
            ns = st.copy()
            try:
                self.refine_var(ns, p, frozenset([v]))
            except Contradiction:
                continue
            if v == good:
                if d in self.prog.fns and d not in self.skip:
                    g = self.prog.fns[d]
                    e = p + (payload(good),)
                    val = ns.get(e)[1]
                    dp = self.depth(g.lty(g.argc)) if g.argc else 0
                    E = e
                    while dp and val and val[0] == "ref":
                        E = val[1]
                        val = ns.get(E)[1]
                        dp -= 1
                    for x in self.invoke(f, b, ns, d, self.bind_closure(f, ns, g, args[1], [E]), D + (payload(good),)):
                        x.upd(D, var=frozenset([v]))
                        out.append(x)
                    continue
                ns.kill(D)
                ns.upd(D, var=frozenset([v]))
            else:
                ns.copy_tree(p, D)
                ns.upd(D, var=frozenset([v]))
            out.append(ns)
        return out

    # ---- predicates over elements
    def m_position(self, f, b, st, t, args, D):
        it = self.referent(st, f, args[0])
        v = st.get(it)[1]
        d = self.closure_of(f, args[1])
        P = v[1] if v and v[0] == "iter" else None
        facts = self.pred_facts(f, b, st, args[1], d, P)

        def some(ns):
            if P is not None and v[2] in ("ref", "own"):
                s = ("u", D + (SOMEP,))
                ns.assume_le((s, 0), self.len_lin(ns, P), 1)
                ns.upd(D + (SOMEP,), val=("ixof", P, facts))
        self.capture_writes(f, st, args[1])
        # nothing the predicate holds of, as far as it is known: the other case is left
        return self.two(st, D, some if facts is not None else None, lambda ns: None)

    m_rposition = m_position

    def pred_facts(self, f, b, st, cop, d, P):
        """what holds of an element for which the closure returned true: (relative place, variants)"""
        if d not in self.prog.fns or d in self.skip:
            return ()
        if self.prog.fns[d].derived:
            return ()
        g = self.prog.fns[d]
        E = (P if P is not None else (("O", ("pred", b)),)) + (("e", ("pred", b)),)
        base = st.copy()
        self.fresh(base, E)
        res = None
        for ns in self.invoke(f, b, base, d, self.bind_closure(f, base, g, cop, [E]), (("T", "r"),),
                              keyfilter=lambda k: k == "*" or k == () or k[0] is True):
            fs = {(q[len(E):], fc[0], fc[1] if fc[1] and fc[1][0] == "b" else None)
                  for q, fc in ns.F.items() if q[:len(E)] == E and (fc[0] is not None or fc[1] and fc[1][0] == "b")}
            if res is None:
                res = fs
            else:
                m = []
                for (r, var, val) in res:
                    for (r2, var2, val2) in fs:
                        if r == r2:
                            m.append((r, (var | var2) if var is not None and var2 is not None else None,
                                      val if val == val2 else None))
                res = {x for x in m if x[1] is not None or x[2] is not None}
        return None if res is None else tuple(sorted(res, key=repr))

    def install(self, st, E, facts):
        for r, var, val in facts:
            if var is not None:
                self.refine_var(st, E + r, var)
            if val is not None:
                st.upd(E + r, val=val)

    def m_any(self, f, b, st, t, args, D):
        it = self.referent(st, f, args[0])
        v = st.get(it)[1]
        d = self.closure_of(f, args[1])
        P = v[1] if v and v[0] == "iter" else None
        if d in self.prog.fns:
            self.pred_facts(f, b, st, args[1], d, P)
        self.capture_writes(f, st, args[1])
        st.kill(D)
        if P is not None and v[2] in ("ref", "own"):
            self.set_cond(st, D, (("z", None, ("len", P), -1),), ())
        return [st]

    def m_find(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        if self.cat(ty) == "str":
            return self.str_find(f, b, st, args, D)
        it = self.referent(st, f, args[0])
        v = st.get(it)[1]
        d = self.closure_of(f, args[1])
        P = v[1] if v and v[0] == "iter" and v[2] == "ref" else None
        facts = self.pred_facts(f, b, st, args[1], d, P)

        def some(ns):
            if P is not None:
                E = P + (("e", b),)
                self.fresh(ns, E)
                ns.upd(D + (SOMEP,), val=("ref", E))
                self.install(ns, E, facts)
                ns.assume(None, ("len", P), -1)
        self.capture_writes(f, st, args[1])
        return self.two(st, D, some if facts is not None else None, lambda ns: None)

    def m_is_some_and(self, f, b, st, t, args, D):
        return self.opt_pred(f, b, st, args, D, "and")

    m_is_ok_and = m_is_some_and

    def m_is_none_or(self, f, b, st, t, args, D):
        return self.opt_pred(f, b, st, args, D, "or")

    def m_filter(self, f, b, st, t, args, D):
        if self.cat(self.opty(f, args[0])) == "opt":
            return self.opt_pred(f, b, st, args, D, "filter")
        p = self.opplace(st, f, args[0])
        v = st.get(p)[1] if p else None
        d = self.closure_of(f, args[1])
        if d in self.prog.fns:
            self.pred_facts(f, b, st, args[1], d, v[1] if v and v[0] == "iter" else None)
        st.kill(D)
        return [st]

    def opt_pred(self, f, b, st, args, D, mode):
        p = self.opplace(st, f, args[0])
        c = self.cat(self.opty(f, args[0]))
        if p is None:
            return None
        good = SOME if c == "opt" else OK
        var = st.get(p)[0]
        d = self.closure_of(f, args[1])
        out = []
        for v in (0, 1):
            if var is not None and v not in var:
                continue
            ns = st.copy()
            try:
                self.refine_var(ns, p, frozenset([v]))
            except Contradiction:
                continue
            if v != good:
                if mode == "filter":
                    ns.copy_tree(p, D)
                    ns.upd(D, var=frozenset([v]))
                else:
                    ns.kill(D)
                    ns.upd(D, val=("b", mode == "or"))
                out.append(ns)
                continue
            e = p + (payload(good),)
            if d in self.prog.fns and d not in self.skip:
                g = self.prog.fns[d]
                E = e
                while ns.get(E)[1] and ns.get(E)[1][0] == "ref":
                    E = ns.get(E)[1][1]
                R = (("T", "p"),)
                res = self.invoke(f, b, ns, d, self.bind_closure(f, ns, g, args[1], [E]), R)
            else:
                R = None
                res = [ns]
            for x in res:
                rv = x.get(R)[1] if R else None
                opts = [rv[1]] if rv and rv[0] == "b" else [True, False]
                for o in opts:
                    y = x.copy()
                    try:
                        if rv and rv[0] == "c":
                            self.apply(y, rv[1] if o else rv[2])
                    except Contradiction:
                        continue
                    if mode == "filter":
                        if o:
                            y.copy_tree(p, D)
                            y.upd(D, var=frozenset([SOME]))
                        else:
                            y.kill(D)
                            y.upd(D, var=frozenset([NONE]))
                    else:
                        y.kill(D)
                        y.upd(D, val=("b", o))
                    if R:
                        y.kill(R)
                    out.append(y)
        return out

    # ---- options and results
    def m_is_some(self, f, b, st, t, args, D):
        return self.isvar(f, st, args, D, SOME)

    def m_is_none(self, f, b, st, t, args, D):
        return self.isvar(f, st, args, D, NONE)

    def m_is_ok(self, f, b, st, t, args, D):
        return self.isvar(f, st, args, D, OK)

    def m_is_err(self, f, b, st, t, args, D):
        return self.isvar(f, st, args, D, ERR)

    def isvar(self, f, st, args, D, v):
        if self.cat(self.opty(f, args[0])) not in ("opt", "res"):
            return None
        P = self.referent(st, f, args[0])
        cur = st.get(P)[0]
        if cur is None:
            st.upd(P, var=frozenset([0, 1]))
        st.kill(D)
        self.set_cond(st, D, (("var", P, frozenset([v])),), (("var", P, frozenset([1 - v])),))
        return [st]

    def m_as_ref(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        c = self.cat(ty)
        if c not in ("opt", "res"):
            return self.view(f, st, args, D)
        P = self.referent(st, f, args[0])
        var = st.get(P)[0]
        if var is None:
            var = frozenset([0, 1])
            st.upd(P, var=var)
        st.kill(D)
        st.upd(D, var=var, val=("same", P))
        for v in var:
            if c == "res" or v == SOME:
                q = P + (payload(v),)
                st.upd(D + (payload(v),), val=("ref", q))
        return [st]

    m_as_mut = m_as_ref
    m_as_deref = m_as_ref
    m_as_deref_mut = m_as_ref

    def m_cloned(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        p = self.opplace(st, f, args[0])
        if p is None:
            return None
        if self.cat(ty) != "opt":
            v = st.get(p)[1]
            st.kill(D)
            if v and v[0] == "iter":
                st.upd(D, val=("iter", v[1], "own" if v[2] == "ref" else v[2]))
            return [st]
        var = st.get(p)[0]
        src = None
        v = st.get(p + (SOMEP,))[1]
        if v and v[0] == "ref":
            src = v[1]
        st.kill(D)
        if src is not None:
            self.materialise(st, src)
            st.copy_tree(src, D + (SOMEP,))
        st.upd(D, var=var, val=("same", p) if var and len(var) > 1 else None)
        return [st]

    m_copied = m_cloned

    def m_take(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        if ty is None or ty.k != "ref":
            return None      # Iterator::take
        P = self.referent(st, f, args[0])
        if self.cat(ty) == "opt":
            self.materialise(st, P)
            st.copy_tree(P, D)
            st.kill(P)
            st.upd(P, var=frozenset([NONE]))
            self.touched(st, P)
            return [st]
        # mem::take
        st.copy_tree(P, D)
        st.kill(P)
        if self.cat(ty) in ("vec", "str", "map"):
            st.assume_eq((("len", P), 0), (None, 0))
        self.touched(st, P)
        return [st]

    def m_replace(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        if ty is None or ty.k != "ref" or not ty.d.get("mut"):
            st.kill(D)
            return [st]
        P = self.referent(st, f, args[0])
        st.copy_tree(P, D)
        if self.cat(ty) == "opt" and self.cat(self.opty(f, args[1])) != "opt":
            st.kill(P)
            st.upd(P, var=frozenset([SOME]))
        else:
            self.assign(st, f, P, args[1])
        self.touched(st, P)
        return [st]

    def result_ok(self, f, st, op, b, kind, good, what):
        p = self.opplace(st, f, op)
        if p is None:
            return None, None
        var = st.get(p)[0]
        ok = var is not None and var <= {good}
        unknown = None
        if not ok:
            ty = self.opty(f, op)
            if ty.defpath == "std::result::Result" and good == OK:
                e = ty.arg(1)
                if e is not None and (e.s == "!" or e.s.endswith("convert::Infallible")):
                    ok = True
                if e is not None and any(e.s.startswith(x) for x in TRUSTED_ERR):
                    ok = True
            v = st.get(p)[1]
            if v and v[0] == "ext":
                unknown = v[1]
                head = v[1].lstrip("<").split("::")[0]
                if head not in ("std", "core", "alloc"):
                    ok = True if ok else None
        return p, (ok, unknown)

    def m_unwrap(self, f, b, st, t, args, D):
        c = self.cat(self.opty(f, args[0]))
        if c not in ("opt", "res"):
            return None
        good = SOME if c == "opt" else OK
        name = callee(t)["path"].rsplit("::", 1)[-1]
        if name.endswith("_err"):
            good = ERR
        p, r = self.result_ok(f, st, args[0], b, "unwrap", good, name)
        if p is None:
            return None
        ok, unknown = r
        what = {"opt": "a missing value", "res": "a failure"}[c] + f" is unwrapped by {name}"
        if ok is None:
            if self.collect:
                self.unmodelled[f"unwrap of {unknown}"] += 1
            self.site(f, b, "unwrap", True, what, unknown)
        else:
            self.site(f, b, "unwrap", ok, what, unknown)
        try:
            if st.get(p)[0] is None:
                st.upd(p, var=frozenset([0, 1]))
            self.refine_var(st, p, frozenset([good]))
        except Contradiction:
            return []
        st.copy_tree(p + (payload(good),), D)
        self.check_inv(st, D)
        return [st]

    m_expect = m_unwrap
    m_unwrap_err = m_unwrap
    m_expect_err = m_unwrap

    def m_unwrap_or(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        c = self.cat(self.opty(f, args[0]))
        if p is None or c not in ("opt", "res"):
            return None
        good = SOME if c == "opt" else OK
        out = []
        for v in (st.get(p)[0] or (0, 1)):
            ns = st.copy()
            if v == good:
                ns.copy_tree(p + (payload(good),), D)
            else:
                self.assign(ns, f, D, args[1])
            out.append(ns)
        return out

    def m_map_err(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        if p is None:
            return None
        d = self.closure_of(f, args[1])
        if d in self.prog.fns and d not in self.skip:
            g = self.prog.fns[d]
            self.invoke(f, b, st.copy(), d, self.bind_closure(f, st, g, args[1], [None]), None)
        self.capture_writes(f, st, args[1])
        var = st.get(p)[0]
        ext = st.get(p)[1]
        tmp = (("T", "me"),)
        st.kill(tmp)
        st.copy_tree(p + (OKP,), tmp)
        st.kill(D)
        st.copy_tree(tmp, D + (OKP,))
        st.kill(tmp)
        if var is not None:
            st.upd(D, var=var)
        elif ext and ext[0] == "ext":
            st.upd(D, val=ext)
        return [st]

    def m_ok(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        var = st.get(p)[0] if p else None
        tmp = (("T", "me"),)
        st.kill(tmp)
        if p:
            st.copy_tree(p + (OKP,), tmp)
        st.kill(D)
        st.copy_tree(tmp, D + (SOMEP,))
        st.kill(tmp)
        if var is not None:
            st.upd(D, var=frozenset(SOME if v == OK else NONE for v in var))
        return [st]

    def m_ok_or(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        var = st.get(p)[0] if p else None
        d = self.closure_of(f, args[1]) if len(args) > 1 else None
        if d in self.prog.fns and d not in self.skip:
            g = self.prog.fns[d]
            self.invoke(f, b, st.copy(), d, self.bind_closure(f, st, g, args[1], []), None)
        tmp = (("T", "me"),)
        st.kill(tmp)
        if p:
            st.copy_tree(p + (SOMEP,), tmp)
        st.kill(D)
        st.copy_tree(tmp, D + (OKP,))
        st.kill(tmp)
        if var is not None:
            st.upd(D, var=frozenset(OK if v == SOME else ERR for v in var))
        return [st]

    m_ok_or_else = m_ok_or

    def m_branch(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        c = self.cat(self.opty(f, args[0]))
        if p is None:
            return None
        good = OK if c == "res" else SOME
        var = st.get(p)[0]
        out = []
        for v in (0, 1):
            if var is not None and v not in var:
                continue
            ns = st.copy()
            try:
                self.refine_var(ns, p, frozenset([v]))
            except Contradiction:
                continue
            if v == good:
                ns.copy_tree(p + (payload(good),), D + (payload(0),)) if False else None
                tmp = (("T", "me"),)
                ns.kill(tmp)
                ns.copy_tree(p + (payload(good),), tmp)
                ns.kill(D)
                ns.copy_tree(tmp, D + (payload(0),))
                ns.kill(tmp)
                ns.upd(D, var=frozenset([0]))
            else:
                ns.kill(D)
                ns.upd(D, var=frozenset([1]))
            out.append(ns)
        return out

    def m_from_residual(self, f, b, st, t, args, D):
        c = self.cat(self.dty(f, t))
        st.kill(D)
        st.upd(D, var=frozenset([ERR if c == "res" else NONE]))
        return [st]

    # ---- containers
    def isc(self, f, op):
        return self.cat(self.opty(f, op)) in ("vec", "str", "map")

    def m_new(self, f, b, st, t, args, D):
        st.kill(D)
        c = self.cat(self.dty(f, t))
        if c in ("vec", "str", "map") and not args:
            st.assume_eq((("len", D), 0), (None, 0))
            self.check_inv(st, D)
            return [st]
        if c == "adt" and self.dty(f, t).defpath == "std::boxed::Box":
            self.assign(st, f, D, args[0])
            return [st]
        if args:
            return None
        return [st]

    m_with_capacity = m_new

    def m_default(self, f, b, st, t, args, D):
        c = self.cat(self.dty(f, t))
        st.kill(D)
        if c in ("vec", "str", "map"):
            st.assume_eq((("len", D), 0), (None, 0))
        elif c == "opt":
            st.upd(D, var=frozenset([NONE]))
        return [st]

    def m_box_assume_init_into_vec_unsafe(self, f, b, st, t, args, D):
        ty = self.opty(f, args[0])
        m = re.search(r"; (\d+)\]", ty.s) if ty is not None else None
        n = None
        x = ty
        while x is not None:
            if x.k == "array":
                n = x.d.get("len")
                break
            x = x.arg(0)
        if n is None and m:
            n = int(m.group(1))
        st.kill(D)
        if isinstance(n, int):
            st.assume_eq((("len", D), 0), (None, n))
        self.check_inv(st, D)
        return [st]

    m_into_vec = m_box_assume_init_into_vec_unsafe

    def m_new_uninit(self, f, b, st, t, args, D):
        st.kill(D)
        return [st]

    def m_from_elem(self, f, b, st, t, args, D):
        l = self.lin(st, f, args[1])
        st.kill(D)
        if l is not None:
            st.assume_eq((("len", D), 0), l)
        return [st]

    def m_len(self, f, b, st, t, args, D):
        if not self.isc(f, args[0]):
            return None
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        st.kill(D)
        st.assume_eq((("u", D), 0), l)
        return [st]

    def m_is_empty(self, f, b, st, t, args, D):
        if not self.isc(f, args[0]):
            return None
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        st.kill(D)
        self.set_cond(st, D, (("z", l[0], None, 0),), (("z", None, l[0], -1),))
        return [st]

    def pushed(self, f, b, st, args, D, front=False):
        P = self.referent(st, f, args[0])
        if self.cat(self.opty(f, args[0])) not in ("vec", "str"):
            return None
        self.len_lin(st, P)
        st.kill(P, inside=True)
        if self.cat(self.opty(f, args[0])) == "vec":
            st.shift(("len", P), 1)
            E = P + (("e", "front" if front else "last"),)
            if len(args) > 1:
                p = self.opplace(st, f, args[1])
                if p is not None:
                    self.materialise(st, p)
                    st.copy_tree(p, E)
        else:
            st.grow(("len", P))
            st.assume(None, ("len", P), -1)
            tx = st.get(P)[2]
            if tx:
                st.upd(P, text=(tx[0], (), tx[2]))
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_push(self, f, b, st, t, args, D):
        return self.pushed(f, b, st, args, D)

    m_push_back = m_push

    def m_push_front(self, f, b, st, t, args, D):
        return self.pushed(f, b, st, args, D, True)

    def m_push_str(self, f, b, st, t, args, D):
        if self.cat(self.opty(f, args[0])) != "str":
            return None
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        n = self.referent(st, f, args[1])
        tn = self.text(st, n)
        tx = self.text(st, P)
        ln = self.len_lin(st, n)
        m = st.bound(None, ln[0])
        st.grow(("len", P))
        if m < 0:
            st.assume(None, ("len", P), m)
        if tx or tn:
            tx = tx or ((), (), frozenset())
            tn = tn or ((), (), frozenset())
            # what was in front stays only if it was certainly there
            st.upd(P, text=(tx[0], tn[1], tx[2] | tn[2]))
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_insert_str(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        i = self.lin(st, f, args[1])
        ok = i is not None and self.boundary(st, P, i)
        self.site(f, b, "insert", ok, "text is inserted at a position that may not be a character boundary")
        st.grow(("len", P))
        st.upd(P, text=None)
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_extend(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(P, inside=True)
        st.grow(("len", P))
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_append(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        Q = self.referent(st, f, args[1])
        st.kill(P, inside=True)
        st.grow(("len", P))
        st.kill(Q)
        st.assume_eq((("len", Q), 0), (None, 0))
        st.kill(D)
        self.touched(st, P)
        self.touched(st, Q)
        return [st]

    def m_clear(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(P)
        st.assume_eq((("len", P), 0), (None, 0))
        st.kill(D)
        self.touched(st, P)
        return [st]

    def popped(self, f, b, st, args, D, end):
        P = self.referent(st, f, args[0])
        c = self.cat(self.opty(f, args[0]))
        if c not in ("vec", "str"):
            return None
        l = self.len_lin(st, P)

        def some(ns):
            ns.assume(None, l[0], -1)
            E = P + (("e", end),)
            if c == "vec":
                ns.copy_tree(E, D + (SOMEP,))
            ns.kill(P, inside=True)
            if c == "vec":
                ns.shift(l[0], -1)
            else:
                tx = ns.get(P)[2]
                if tx:
                    ns.upd(P, text=None)
                ns.shrink(l[0])
            self.touched(ns, P)

        def none(ns):
            ns.assume(l[0], None, 0)
        return self.two(st, D, some, none)

    def m_pop(self, f, b, st, t, args, D):
        return self.popped(f, b, st, args, D, "last")

    m_pop_back = m_pop

    def m_pop_front(self, f, b, st, t, args, D):
        return self.popped(f, b, st, args, D, "front")

    def peeked(self, f, b, st, args, D, end):
        P = self.referent(st, f, args[0])
        if self.cat(self.opty(f, args[0])) != "vec":
            return None
        l = self.len_lin(st, P)

        def some(ns):
            ns.assume(None, l[0], -1)
            ns.upd(D + (SOMEP,), val=("ref", P + (("e", end),)))

        def none(ns):
            ns.assume(l[0], None, 0)
            if self.of_positions(f, args[0]):
                ns.upd(D, val=("ext", "the position of a node"))
        return self.two(st, D, some, none)

    def of_positions(self, f, op):
        """a list of source positions: that every node has one is not decided here"""
        t = self.peel(self.opty(f, op))
        e = t.arg(0) if t is not None and (t.k in ("slice", "array") or t.defpath in VEC) else None
        return e is not None and e.k == "adt" and e.defpath == self.positions()

    def m_last(self, f, b, st, t, args, D):
        return self.peeked(f, b, st, args, D, "last")

    m_last_mut = m_back = m_back_mut = m_last

    def m_first(self, f, b, st, t, args, D):
        return self.peeked(f, b, st, args, D, "front")

    m_first_mut = m_front = m_front_mut = m_first

    def index_facts(self, st, f, op, P):
        p = self.opplace(st, f, op)
        v = st.get(p)[1] if p is not None else None
        if v and v[0] == "ixof" and v[1] == P:
            return v[2]
        return ()

    def m_remove(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        ty = self.peel(self.opty(f, args[0]))
        if ty is None or ty.defpath not in VEC:
            if self.cat(ty) == "str":
                self.site(f, b, "remove", False, "a character is removed at a position that may be outside of the text")
            return None
        i = self.lin(st, f, args[1])
        l = self.len_lin(st, P)
        facts = self.index_facts(st, f, args[1], P)
        E = P + (("e", "at"),)

        def take(ns, to):
            self.fresh(ns, E)
            self.install(ns, E, facts)
            ns.copy_tree(E, to)
            ns.kill(P, inside=True)
            ns.shift(l[0], -1)
            self.touched(ns, P)
        if ty.defpath == VEC[1]:
            def some(ns):
                if i is not None:
                    ns.assume_le(i, l, 1)
                take(ns, D + (SOMEP,))

            def none(ns):
                if i is not None:
                    ns.assume_le(l, i)
            return self.two(st, D, some, none)
        ok = i is not None and st.le(i, l, 1)
        self.site(f, b, "remove", ok, "an element is removed at a position that may be outside of the list")
        if i is not None:
            st.assume_le(i, l, 1)
        take(st, D)
        return [st]

    m_swap_remove = m_remove

    def m_insert(self, f, b, st, t, args, D):
        ty = self.peel(self.opty(f, args[0]))
        c = self.cat(ty)
        P = self.referent(st, f, args[0])
        if c == "map":
            st.kill(P)
            st.kill(D)
            st.assume(None, ("len", P), -1)
            return [st]
        if c == "opt":
            self.assign(st, f, P + (SOMEP,), args[1])
            st.upd(P, var=frozenset([SOME]))
            st.kill(D)
            st.upd(D, val=("ref", P + (SOMEP,)))
            self.touched(st, P)
            return [st]
        if c == "str":
            i = self.lin(st, f, args[1])
            self.site(f, b, "insert", i is not None and self.boundary(st, P, i),
                      "text is inserted at a position that may not be a character boundary")
            st.grow(("len", P))
            st.upd(P, text=None)
            st.kill(D)
            return [st]
        if c != "vec":
            return None
        i = self.lin(st, f, args[1])
        l = self.len_lin(st, P)
        self.site(f, b, "insert", i is not None and st.le(i, l),
                  "an element is inserted at a position that may be outside of the list")
        if i is not None:
            st.assume_le(i, l)
        st.kill(P, inside=True)
        st.shift(l[0], 1)
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_split_off(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        i = self.lin(st, f, args[1])
        l = self.len_lin(st, P)
        c = self.cat(self.opty(f, args[0]))
        ok = i is not None and (st.le(i, l) if c == "vec" else self.boundary(st, P, i))
        self.site(f, b, "split", ok, "a list is split at a position that may be outside of it")
        some = c == "vec" and i is not None and st.le(i, l, 1)
        facts = self.index_facts(st, f, args[1], P) if c == "vec" else ()
        st.kill(P, inside=True)
        st.shrink(l[0])
        st.kill(D)
        if i is not None and c == "vec":
            st.assume_eq(l, i)
        if some:
            st.assume(None, ("len", D), -1)
            self.fresh(st, D + (("e", "front"),))
            self.install(st, D + (("e", "front"),), facts)
        self.touched(st, P)
        return [st]

    def m_truncate(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        i = self.lin(st, f, args[1])
        if self.cat(self.opty(f, args[0])) == "str":
            # fine at or behind the end, else it has to be a boundary
            ok = i is not None and (self.boundary(st, P, i) or st.le(l, i))
            self.site(f, b, "truncate", ok, "text is cut at a position that may not be a character boundary")
            st.upd(P, text=None)
        st.kill(P, inside=True)
        st.shrink(l[0])
        if i is not None:
            st.assume_le(l, i)
        st.kill(D)
        self.touched(st, P)
        return [st]

    def m_retain(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        d = self.closure_of(f, args[1])
        if d in self.prog.fns:
            self.pred_facts(f, b, st, args[1], d, P)
        self.capture_writes(f, st, args[1])
        l = self.len_lin(st, P)
        st.kill(P, inside=True)
        st.shrink(l[0])
        st.kill(D)
        self.touched(st, P)
        return [st]

    m_dedup = m_retain

    def m_sort(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        st.kill(P, inside=True)
        st.kill(D)
        return [st]

    m_sort_unstable = m_sort
    m_reverse = m_sort

    def m_get(self, f, b, st, t, args, D):
        c = self.cat(self.opty(f, args[0]))
        P = self.referent(st, f, args[0])
        if c == "map":
            st.kill(D)
            return self.two(st, D, lambda ns: None, lambda ns: None)
        if c == "vec":
            i = self.lin(st, f, args[1])
            if i is None:
                return None
            l = self.len_lin(st, P)
            facts = self.index_facts(st, f, args[1], P)

            def some(ns):
                ns.assume_le(i, l, 1)
                E = P + (("e", b),)
                self.fresh(ns, E)
                self.install(ns, E, facts)
                ns.upd(D + (SOMEP,), val=("ref", E))

            def none(ns):
                ns.assume_le(l, i)
            return self.two(st, D, some, none)
        if c == "str":
            st.kill(D)
            return self.two(st, D, lambda ns: None, lambda ns: None)
        return None

    m_get_mut = m_get

    def m_contains_key(self, f, b, st, t, args, D):
        st.kill(D)
        return [st]

    # ---- indexing
    def range_of(self, st, f, op, P):
        """(start, end, exact) of a range operand as linear values; None if not understood"""
        t = self.peel(self.opty(f, op))
        p = self.opplace(st, f, op)
        d = t.defpath if t is not None else None
        l = self.len_lin(st, P)
        if d is None or p is None:
            return (None, 0), l, (d or "").endswith("RangeFull")

        def fld(i):
            q = p + (("f", i, None, None),)
            return (("u", q), 0)
        n = d.rsplit("::", 1)[-1]
        if n == "Range":
            return fld(0), fld(1), True
        if n == "RangeFrom":
            return fld(0), l, True
        if n == "RangeTo":
            return (None, 0), fld(0), True
        if n == "RangeFull":
            return (None, 0), l, True
        if n == "RangeToInclusive":
            e = fld(0)
            return (None, 0), (e[0], e[1] + 1), True
        if n == "RangeInclusive":
            v = st.get(p)[1]
            if v and v[0] == "rinc":
                return v[1], (v[2][0], v[2][1] + 1), True
        return None

    def boundary(self, st, P, i):
        """i is certainly a character boundary of the text P"""
        l = self.len_lin(st, P)
        if st.eq(i, (None, 0)) or st.eq(i, l):
            return True
        tx = self.text(st, P)
        if tx:
            for k in range(1, len(tx[0]) + 1):
                if st.eq(i, (None, k)):
                    return True
            for k in range(1, len(tx[1]) + 1):
                if st.eq((i[0], i[1] + k), l):
                    return True
        for s, k, Q in st.B:
            if Q == P and st.eq(i, (s, k)):
                return True
        return False

    def const_of(self, st, a):
        if a[0] is not None:
            up, down = st.bound(a[0], None), st.bound(None, a[0])
            if up < INF and up == -down:
                return (None, up + a[1])
        return a

    def m_index(self, f, b, st, t, args, D):
        c = self.cat(self.opty(f, args[0]))
        P = self.referent(st, f, args[0])
        it = self.opty(f, args[1])
        l = self.len_lin(st, P) if c in ("vec", "str") else None
        if c == "vec" and it is not None and it.k == "uint":
            i = self.lin(st, f, args[1])
            ok = i is not None and st.le(i, l, 1)
            if not ok and i is not None and st.eq(i, (None, 0)) and self.of_positions(f, args[0]):
                self.unmodelled["unwrap of the position of a node"] += 1
                ok = True
            self.site(f, b, "index", ok, "index out of bounds")
            facts = self.index_facts(st, f, args[1], P)
            if i is not None:
                st.assume_le(i, l, 1)
            E = P + (("e", "ix%s" % (i[1] if i and i[0] is None else b)),)
            if not (i and i[0] is None):
                self.fresh(st, E)
            self.install(st, E, facts)
            st.kill(D)
            st.upd(D, val=("ref", E))
            return [st]
        if c in ("vec", "str"):
            r = self.range_of(st, f, args[1], P)
            O = (("O", ("slice", b)),)
            if r is None or not r[2]:
                self.site(f, b, "slice", False, "a slice is taken with bounds that are not understood")
                st.kill(D)
                return [st]
            lo, hi, _ = r
            lo = self.const_of(st, lo)
            ok = st.le(lo, hi) and st.le(hi, l)
            what = "a slice is taken with bounds that may be outside of the list"
            if c == "str":
                what = "text is sliced at a position that may be outside of it or inside of a character"
                ok = ok and self.boundary(st, P, lo) and self.boundary(st, P, hi)
            self.site(f, b, "slice", ok, what)
            st.assume_le(lo, hi)
            st.assume_le(hi, l)
            tx = self.text(st, P) if c == "str" else None
            st.kill(O)
            st.kill(D)
            n = (("len", O), 0)
            if lo[0] is None:
                st.assume_eq((n[0], lo[1]), hi)
            elif hi[0] == lo[0]:
                st.assume_eq(n, (None, hi[1] - lo[1]))
            else:
                st.assume_le(n, hi)
            if tx:
                self.sliced(st, tx, O, lo, hi, l)
            st.upd(D, val=("ref", O))
            return [st]
        if c == "map":
            self.site(f, b, "index", False, "a map is indexed by a key that may be missing")
        return None

    m_index_mut = m_index

    def m_drain(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        r = self.range_of(st, f, args[1], P)
        if r is None or not r[2]:
            self.site(f, b, "drain", False, "a list is drained with bounds that are not understood")
            st.kill(P, inside=True)
            st.shrink(l[0])
        else:
            lo, hi, _ = r
            self.site(f, b, "drain", st.le(lo, hi) and st.le(hi, l),
                      "a list is drained with bounds that may be outside of it")
            st.assume_le(lo, hi)
            st.assume_le(hi, l)
            old = (("T", "dl"),)
            st.forget_sym(("len", old))
            st.assume_eq((("len", old), 0), l)
            rest = None
            if st.eq(lo, (None, 0)) and st.eq(hi, l):
                rest = (None, 0)
            keep_lo = -st.bound(None, lo[0]) + lo[1] if st.bound(None, lo[0]) < INF else 0
            tail = None
            d = st.bound(hi[0], l[0])
            if d < INF:
                tail = -(d + hi[1])           # l - hi >= tail
            st.kill(P)
            if rest is not None:
                st.assume_eq((("len", P), 0), rest)
            else:
                st.assume(None, ("len", P), -(max(keep_lo, 0) + max(tail or 0, 0)))
                st.assume_le((("len", P), 0), (("len", old), 0))
            st.forget_sym(("len", old))
        st.kill(D)
        self.touched(st, P)
        return [st]

    # ---- text
    def m_starts_with(self, f, b, st, t, args, D):
        return self.affix(f, st, args, D, "pre")

    def m_ends_with(self, f, b, st, t, args, D):
        return self.affix(f, st, args, D, "suf")

    def affix(self, f, st, args, D, kind):
        if self.cat(self.opty(f, args[0])) != "str":
            st.kill(D)
            return [st]
        P = self.referent(st, f, args[0])
        s = self.pattern(st, f, args[1])
        st.kill(D)
        if s is not None and s:
            tx = lit_text(s)
            cs = tx[0] if kind == "pre" else tx[1]
            if len(cs) < len(s):
                cs = ()
            self.set_cond(st, D, ((kind, P, cs, len(s.encode())),), ())
        return [st]

    def m_contains(self, f, b, st, t, args, D):
        c = self.cat(self.opty(f, args[0]))
        if c != "str":
            st.kill(D)
            if c == "vec":
                P = self.referent(st, f, args[0])
                self.set_cond(st, D, (("z", None, ("len", P), -1),), ())
            return [st]
        P = self.referent(st, f, args[0])
        s = self.pattern(st, f, args[1])
        st.kill(D)
        if s is not None and len(s) >= 1:
            self.set_cond(st, D, tuple(("has", P, ch) for ch in s) +
                          (("z", None, ("len", P), -len(s.encode())),), ())
        return [st]

    def str_find(self, f, b, st, args, D):
        P = self.referent(st, f, args[0])
        s = self.pattern(st, f, args[1])
        l = self.len_lin(st, P)

        def some(ns):
            v = ("u", D + (SOMEP,))
            n = len(s.encode()) if s else 0
            if s is None:
                # a closure or set of characters
                n = 1
                ns.B |= {(v, 0, P)}
            else:
                ns.B |= {(v, 0, P), (v, n, P)}
                self.apply(ns, tuple(("has", P, ch) for ch in s))
            ns.assume_le((v, n), l)
        return self.two(st, D, some, lambda ns: None)

    m_rfind = m_find

    def m_strip_prefix(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        s = self.pattern(st, f, args[1])
        l = self.len_lin(st, P)
        O = (("O", ("strip", b)),)
        tx = self.text(st, P)
        pre = callee(t)["path"].rsplit("::", 1)[-1] == "strip_prefix"
        n = len(s.encode()) if s else 0
        there = bool(s and tx) and len((tx[0] if pre else tx[1])) >= len(s) and all(
            cs == frozenset(c) for cs, c in zip(tx[0] if pre else tx[1], s if pre else s[::-1]))

        def some(ns):
            ns.kill(O)
            ns.assume_le((("len", O), n), l)
            if s:
                ns.assume_eq((("len", O), n), l)
                if tx and s.isascii():
                    self.sliced(ns, tx, O, (None, n if pre else 0), l if pre else (l[0], l[1] - n), l)
            ns.upd(D + (SOMEP,), val=("ref", O))
        return self.two(st, D, some, None if there else lambda ns: None)

    m_strip_suffix = m_strip_prefix

    def m_split_at(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        c = self.cat(self.opty(f, args[0]))
        i = self.lin(st, f, args[1])
        l = self.len_lin(st, P)
        if c not in ("str", "vec") or i is None:
            return None
        ok = st.le(i, l) and (c == "vec" or self.boundary(st, P, i))
        self.site(f, b, "split", ok, "something is split at a position that may be outside of it or inside of a character")
        return None

    def m_unwrap_or_default(self, f, b, st, t, args, D):
        p = self.opplace(st, f, args[0])
        ty = self.opty(f, args[0])
        c = self.cat(ty)
        if p is None or c not in ("opt", "res"):
            return None
        good = SOME if c == "opt" else OK
        out = []
        for v in (st.get(p)[0] or (0, 1)):
            ns = st.copy()
            if v == good:
                ns.copy_tree(p + (payload(good),), D)
            else:
                ns.kill(D)
                i = ty.arg(0)
                if i is not None and i.k == "ref":
                    O = (("O", ("default", b)),)
                    ns.kill(O)
                    ns.assume_eq((("len", O), 0), (None, 0))
                    ns.upd(D, val=("ref", O))
                elif i is not None and self.cat(i) in ("str", "vec"):
                    ns.assume_eq((("len", D), 0), (None, 0))
            out.append(ns)
        return out

    def sliced(self, st, tx, O, lo, hi, l):
        """O is the text lo..hi of a text of length l of which tx is known"""
        n = (("len", O), 0)
        k = None
        for j in range(0, len(tx[0]) + 1):
            if st.eq(lo, (None, j)):
                k = j
        pre = tx[0][k:] if k is not None else ()
        suf = ()
        for j in range(0, len(tx[1]) + 1):
            if st.eq((hi[0], hi[1] + j), l):
                suf = tx[1][j:]
        # classes reach only as far as the slice is long
        m = -st.bound(None, n[0]) if st.bound(None, n[0]) < 0 else 0
        has = frozenset()
        if k is not None:
            gone = tx[0][:k]
            cut = ()
            for j in range(0, len(tx[1]) + 1):
                if st.eq((hi[0], hi[1] + j), l):
                    cut = tx[1][:j]
                    break
            else:
                cut = None
            if cut is not None:
                has = frozenset(ch for ch in tx[2] if not any(ch in cs for cs in gone + cut))
        nt = (tuple(pre[:m]), tuple(suf[:m]), has)
        st.upd(O, text=nt if any(nt) else None)


    def m_trim(self, f, b, st, t, args, D):
        P = self.referent(st, f, args[0])
        l = self.len_lin(st, P)
        O = (("O", ("trim", b)),)
        st.kill(O)
        st.assume_le((("len", O), 0), l)
        tx = self.text(st, P)
        name = callee(t)["path"].rsplit("::", 1)[-1]
        if tx and name in ("trim", "trim_start", "trim_end"):
            ws = set(" \t\n\r\x0b\x0c")
            pre = tx[0] if tx[0] and not (tx[0][0] & ws) else ()
            suf = tx[1] if tx[1] and not (tx[1][0] & ws) else ()
            if name == "trim_start":
                suf = ()
            if name == "trim_end":
                pre = ()
            has = frozenset(c for c in tx[2] if c not in ws)
            if pre or suf or has:
                st.upd(O, text=(pre[:1], suf[:1], has))
                st.assume(None, ("len", O), -1)
        st.kill(D)
        st.upd(D, val=("ref", O))
        return [st]

    m_trim_start = m_trim_end = m_trim_matches = m_trim_start_matches = m_trim_end_matches = m_trim

    def m_eq(self, f, b, st, t, args, D):
        return self.equal(f, st, args, D, True)

    def m_ne(self, f, b, st, t, args, D):
        return self.equal(f, st, args, D, False)

    # ---- numbers
    def cmpcall(self, f, st, args, D, op):
        a, c = (self.referent(st, f, x) for x in args[:2])
        ta = self.peel(self.opty(f, args[0]))
        st.kill(D)
        if ta is not None and ta.k in ("int", "uint"):
            k = "u" if ta.k == "uint" else "i"
            self.set_cond(st, D, *self.cmp_atoms(op, ((k, a), 0), ((k, c), 0)))
        return [st]

    def m_lt(self, f, b, st, t, args, D):
        return self.cmpcall(f, st, args, D, "Lt")

    def m_le(self, f, b, st, t, args, D):
        return self.cmpcall(f, st, args, D, "Le")

    def m_gt(self, f, b, st, t, args, D):
        return self.cmpcall(f, st, args, D, "Gt")

    def m_ge(self, f, b, st, t, args, D):
        return self.cmpcall(f, st, args, D, "Ge")

    def m_min(self, f, b, st, t, args, D):
        a, c = self.lin(st, f, args[0]), self.lin(st, f, args[1]) if len(args) > 1 else None
        st.kill(D)
        ty = self.dty(f, t)
        if a is not None and c is not None:
            s = ("u" if ty.k == "uint" else "i", D)
            st.assume_le((s, 0), a)
            st.assume_le((s, 0), c)
        return [st]

    def m_max(self, f, b, st, t, args, D):
        a, c = self.lin(st, f, args[0]), self.lin(st, f, args[1]) if len(args) > 1 else None
        st.kill(D)
        ty = self.dty(f, t)
        if a is not None and c is not None:
            s = ("u" if ty.k == "uint" else "i", D)
            st.assume_le(a, (s, 0))
            st.assume_le(c, (s, 0))
        return [st]

    def m_saturating_sub(self, f, b, st, t, args, D):
        a = self.lin(st, f, args[0])
        c = self.lin(st, f, args[1])
        st.kill(D)
        ty = self.dty(f, t)
        if a is not None and ty.k == "uint":
            s = ("u", D)
            st.assume_le((s, 0), a)
            if c is not None and c[0] is None and st.le(c, a):
                st.assume_eq((s, c[1]), a)
        return [st]

    def m_exit(self, f, b, st, t, args, D):
        return []


def _depth(r):
    d = 0
    while isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], tuple) and r[1] and r[1][0] == "call":
        d += 1
        r = r[1][2]
    return d
