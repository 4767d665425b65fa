"""Use-once analysis of values that hold content.

Every place at which such a value comes into being (a by-value parameter, a call that returns one, an
aggregate) is followed along all normal paths through moves between locals and wrappers (Option,
Result, ControlFlow, tuples, enum variants).  The value ends by being handed on (moved into a call, an
aggregate, a field, the result) or by being dropped; dropping it while it may hold something that
nobody has looked at loses content.  The same is done for fields behind references (state that outlives
the function): overwriting or clearing one that may hold something nobody has looked at loses it.
Paths that end in an error result are not considered."""
from collections import defaultdict
from mir import callee, short, rv_operands
from flow import op_place

WRAP = {"std::option::Option", "std::result::Result", "std::ops::ControlFlow"}
THROUGH = {"branch", "unwrap", "expect", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "ok_or", "ok_or_else", "into",
           "from_output", "ok", "into_iter", "map_err", "from", "into_boxed", "collect", "rev", "enumerate", "chain", "zip", "from_iter",
           "map", "filter", "filter_map", "flat_map", "flatten", "peekable", "by_ref", "fuse", "into_boxed_slice", "into_vec", "or", "or_else",
           "inspect", "skip", "take", "skip_while", "take_while", "step_by", "and_then", "into_inner", "map_while", "cloned", "to_owned",
           "into_values", "into_keys", "transpose", "unzip", "new"}
# adaptors and calls that pass on less than they are given
LOSSY = {"skip", "take", "skip_while", "take_while", "step_by", "filter", "filter_map", "map_while", "nth", "last", "next_back"}
LOOK = {"is_empty", "len", "is_some", "is_none", "is_ok", "is_err", "eq", "ne", "fmt", "as_mut", "as_ref", "capacity", "last", "first",
        "back", "front", "deref", "deref_mut", "last_mut", "first_mut", "back_mut", "front_mut", "get", "borrow", "reserve",
        "is_some_and", "is_none_or", "as_deref", "as_slice", "contains", "get_mut", "as_deref_mut", "borrow_mut", "make_contiguous",
        "index", "index_mut", "by_ref"}
ALL = {"iter", "into_iter", "iter_mut", "values", "values_mut", "drain", "clone", "to_vec", "cloned", "concat", "as_slices", "split_first", "windows",
       "extend_from_slice", "clone_into", "clone_from", "join"}
FILL = {"push", "push_back", "push_front", "insert", "extend", "append", "push_str", "get_or_insert_with", "get_or_insert", "extend_from_slice",
        "insert_str", "add_assign"}
POP = {"pop", "pop_front", "pop_back", "next", "pop_first", "pop_last", "take"}
MAPS = ("HashMap", "BTreeMap", "HashSet", "BTreeSet")
EMPTY, NONE, FULL, READ = "empty", "none", "full", "read"    # NONE: an Option that is None
GONE = "gone"               # overwritten unread (only told apart from EMPTY when asked for)


def nm_of(t):
    c = callee(t)
    return short(c["path"]).rsplit("::", 1)[-1] if c else ""


class Linear:
    def __init__(self, prog, tracked, source=None, wrappers=(), ignore_field=None):
        """tracked(type): values to follow; source(type): what a reference to is merely copied from;
        wrappers: enums whose variants only wrap a tracked value"""
        self.prog, self.tracked = prog, tracked
        self.source = source or (lambda t: False)
        self.wrap = WRAP | set(wrappers)
        self.ignore_field = ignore_field or (lambda adt, name, ty: False)
        self.counts = defaultdict(int)
        self.memo = {}
        self.part = lambda t: False         # a type that, as part of a tracked value, holds its content
        self.opening = True                 # a field may be opened anew (see opens)
        self.remember = False               # keep GONE apart from EMPTY

    # ---- types ----
    def owned(self, t, depth=0):
        """tracked type held by value"""
        if t is None or depth > 6 or t.k in ("ref", "ptr", "fndef", "closure"):
            return False
        if t.k == "adt" and t.defpath and (t.defpath.startswith(("std::slice::Iter", "std::slice::iter")) or
                                           t.defpath.endswith(("::Iter", "::IterMut", "::Chunks"))):
            return False
        if self.tracked(t):
            return True
        if t.k in ("adt", "tuple", "array"):
            return any(self.owned(x, depth + 1) for x in t.argl())
        return False

    def place_ty(self, f, p):
        if p is None:
            return None
        t = f.lty(p["l"])
        for e in p["p"]:
            if t is None:
                return None
            if e[0] == "deref":
                t = t.arg(0)
            elif e[0] == "field":
                t = f.ty(e[3])
            elif e[0] in ("index", "cindex"):
                t = t.arg(0)
            elif e[0] == "downcast":
                continue
        return t

    @staticmethod
    def pkey(p):
        out = []
        for e in p:
            if e[0] == "field":
                out.append(("f", e[1]))
            elif e[0] == "downcast":
                out.append(("v", e[1]))
            else:
                out.append((e[0],))
        return tuple(out)

    # ---- per function ----
    def prepare(self, f):
        if getattr(self, "f", None) is f:
            return
        self.f = f
        self.good = self.can_succeed(f)
        self.bools = self.flag_locals(f)

    def run(self, f):
        """-> list of (kind, block, description of origin, type)"""
        self.prepare(f)
        found = []
        starts = []
        for p in range(1, f.argc + 1):
            if self.owned(f.lty(p)):
                starts.append((0, 0, p, (), FULL, "parameter"))
        for bi, b in enumerate(f.blocks):
            if b["cleanup"] or bi not in self.good:
                continue
            t = b["t"]
            if t["t"] == "call" and not t["dest"]["p"] and t["to"] is not None and self.owned(f.lty(t["dest"]["l"])):
                k = self.creates(t)
                if k:
                    starts.append((t["to"], 0, t["dest"]["l"], (), k, "result of " + (nm_of(t) or "a call")))
            for si, s in enumerate(b["s"]):
                if s["s"] == "assign" and not s["place"]["p"] and s["rv"]["r"] == "agg" and self.owned(f.lty(s["place"]["l"])):
                    if s["rv"].get("def") in self.wrap or s["rv"].get("agg") == "tuple":
                        continue            # a wrapper continues the value inside
                    starts.append((bi, si + 1, s["place"]["l"], (), FULL, f"{short(s['rv'].get('def') or '?').rsplit('::', 1)[-1]} value"))
        for st in starts:
            self.counts["values_followed"] += 1
            for k, b, o, l, p in self.follow(f, st)[0]:
                found.append((k, b, o, f.lty(l)))
        for l, pre, what, ty in self.fields(f):
            self.counts["fields_followed"] += 1
            for k, b, o, _l, p in self.follow(f, (0, 0, l, pre, FULL, what))[0]:
                found.append((k, b, o, ty))
        return found

    def can_succeed(self, f):
        """blocks from which a normal, non-error return can be reached"""
        err = set()
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("vname") == "Err" and \
                        s["place"]["l"] == 0:
                    err.add(bi)
            t = b["t"]
            if t["t"] == "call" and nm_of(t) == "from_residual":
                err.add(bi)
        preds = f.preds()
        ok, st = set(), [bi for bi, b in enumerate(f.blocks) if b["t"]["t"] == "return" and not b["cleanup"]]
        while st:
            b = st.pop()
            if b in ok or b in err:
                continue
            ok.add(b)
            st.extend(p for p in preds[b] if not f.blocks[p]["cleanup"])
        return ok

    def flag_locals(self, f):
        out = set()
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and not s["place"]["p"] and s["rv"]["r"] == "use":
                    c = s["rv"]["op"].get("const")
                    if c and "bool" in c and f.lty(s["place"]["l"]).k == "bool":
                        out.add(s["place"]["l"])
        return out

    def creates(self, t):
        """state of the value a call returns, or None when it is not a new value (moved through, or a copy)"""
        f = self.f
        c = callee(t)
        if not c:
            return FULL
        nm = nm_of(t)
        g = self.prog.fns.get(c["path"])
        arg_owned = any(self.owned(f.ty(a)) for a in t["atys"])
        if g is None and nm in THROUGH and arg_owned:
            return None                     # followed from the argument
        if g is None and nm == "insert" and any(m in f.ty(t["atys"][0]).s for m in MAPS):
            return None                     # the entry a map had under the same key
        if g is None and nm in ("clone", "to_vec", "cloned", "to_owned", "concat", "copied", "iter", "collect", "from_iter", "map", "filter", "into"):
            return None
        if nm in ("new", "default", "with_capacity") and not arg_owned and g is None:
            return EMPTY
        muts = any(f.ty(a).k == "ref" and f.ty(a).s.startswith("&mut") for a in t["atys"])
        copies = any(f.ty(a).k == "ref" and not f.ty(a).s.startswith("&mut") and
                     (self.owned(f.ty(a).arg(0)) or self.source(f.ty(a).arg(0))) for a in t["atys"])
        if copies and not muts and not arg_owned:
            return None                     # a copy made from something that stays where it is
        if g is None and nm in ("pop_front", "remove", "swap_remove", "pop") and self.selected(t):
            return READ
        return FULL

    def selected(self, t):
        """takes the element that a predicate had picked out (position, then drain from there)"""
        f = self.f
        seen, work, hit = set(), [op_place(a)["l"] for a in t["args"] if op_place(a)], set()
        while work:
            l = work.pop()
            if l in seen:
                continue
            seen.add(l)
            for b in f.blocks:
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                        for op in rv_operands(s["rv"]):
                            p = op_place(op)
                            if p:
                                work.append(p["l"])
                        if s["rv"]["r"] == "ref":
                            work.append(s["rv"]["place"]["l"])
                tt = b["t"]
                if tt["t"] == "call" and tt["dest"]["l"] == l and not tt["dest"]["p"]:
                    n = nm_of(tt)
                    hit.add(n)
                    if n in ("position", "rposition", "drain", "collect", "from_iter", "split_off", "into"):
                        work.extend(op_place(a)["l"] for a in tt["args"] if op_place(a))
        nm = nm_of(t)
        if nm in ("remove", "swap_remove"):
            return False
        return bool(hit & {"position", "rposition"}) and bool(hit & {"drain", "split_off"})

    # ---- fields behind references ----
    def fields(self, f):
        """(local, projection, description, type) of content fields that are overwritten or cleared here"""
        out = {}
        for bi, b in enumerate(f.blocks):
            if b["cleanup"] or bi not in self.good:
                continue
            t = b["t"]
            if t["t"] == "drop" and t["place"]["p"]:
                self._field(f, t["place"], out)
            elif t["t"] == "call" and nm_of(t) in ("clear", "truncate", "drain", "retain", "split_off") and t["args"]:
                p = self.resolve(f, t["args"][0])
                if p is not None:
                    self._field(f, p, out)
        return list(out.values())

    def _field(self, f, p, out):
        ty = self.place_ty(f, p)
        if ty is None or not self.owned(ty) or not any(e[0] == "deref" for e in p["p"]):
            return
        fl = [e for e in p["p"] if e[0] == "field"]
        if not fl:
            return
        last = fl[-1]
        if self.ignore_field(last[4] if len(last) > 4 else "", last[2], ty):
            return
        owner = (last[4] if len(last) > 4 and last[4] else "").rsplit("::", 1)[-1]
        out.setdefault((p["l"], self.pkey(p["p"])), (p["l"], self.pkey(p["p"]), f"{owner}.{last[2]}", ty))

    def resolve(self, f, op):
        """the place a reference operand points at, when it is taken directly"""
        p = op_place(op)
        if p is None or p["p"]:
            return None
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"] and s["rv"]["r"] == "ref":
                    return s["rv"]["place"]
        return None

    # ---- following one value ----
    def follow(self, f, start, hook=None):
        """-> (losses, states at normal returns); a loss is (kind, block, origin, local, prefix)"""
        self.prepare(f)
        b0, s0, l0, pre0, st0, origin = start
        isfield = bool(pre0)
        out = []
        ends = set()
        seen = set()
        stack = [(b0, s0, l0, st0, frozenset(), ())]
        NE = {"em": "ne", "ne": "em"}

        def at(p):
            """the place is the value, or inside it"""
            return p["l"] == l and self.pkey(p["p"][:len(pre0)]) == pre0 if len(p["p"]) >= len(pre0) else False

        while stack:
            b, si, l, st, env, refs = stack.pop()
            key = (b, si, l, st, env, refs)
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 30000:
                self.counts["values_given_up"] += 1
                break
            if f.blocks[b]["cleanup"] or b not in self.good:
                continue
            e = dict(env)
            rf = set(refs)                  # locals that refer to the value or into it
            blk = f.blocks[b]
            ended = False
            for s in blk["s"][si:]:
                if s["s"] != "assign":
                    continue
                pl, rv = s["place"], s["rv"]
                moved = None
                for op in rv_operands(rv):
                    p = op.get("move")
                    if p and at(p):
                        moved = p
                if moved is not None:
                    if moved["p"][len(pre0):] and not self.owned(self.place_ty(f, moved)):
                        if self.texty(self.place_ty(f, moved)):
                            st = READ if st == FULL else st
                        continue            # a part that carries no content moves out
                    if isfield:
                        st = EMPTY
                    elif not pl["p"] and pl["l"] != 0 and \
                            (rv["r"] == "use" or (rv["r"] == "agg" and (rv.get("def") in self.wrap or rv.get("agg") == "tuple"))):
                        l = pl["l"]
                        continue
                    else:
                        ended = True        # stored in a field, an aggregate, a closure or the result
                        break
                if not pl["p"]:
                    x = pl["l"]
                    if x in rf and rv["r"] != "ref":
                        rf.discard(x)
                    e.pop(x, None)
                    if rv["r"] == "ref":
                        q = rv["place"]
                        if at(q) or q["l"] in rf:
                            rf.add(x)
                    elif rv["r"] == "use":
                        c = rv["op"].get("const")
                        if c and "bool" in c and x in self.bools:
                            e[x] = ("b", bool(c["bool"]))
                        q = op_place(rv["op"])
                        if q:
                            if q["l"] in rf:
                                rf.add(x)
                            if not q["p"] and q["l"] in e:
                                e[x] = e[q["l"]]
                    elif rv["r"] == "discr":
                        q = rv["place"]
                        ty = self.place_ty(f, q)
                        if ty is not None and ty.k == "ref":
                            ty = ty.arg(0)
                        if at(q) or q["l"] in rf:
                            if ty is not None and ty.k == "adt" and ty.defpath in WRAP and (at(q) and len(q["p"]) == len(pre0) or
                                                                                           q["l"] in rf and self.whole(f, q, ty)):
                                e[x] = ("d", ty.defpath)
                        elif not q["p"] and e.get(q["l"]) == ("pop",):
                            e[x] = ("d", "Option")       # of what was popped
                    elif rv["r"] == "un" and rv.get("uop") == "Not":
                        q = op_place(rv["op"])
                        if q and not q["p"] and q["l"] in e and e[q["l"]][0] in ("b", "em", "ne"):
                            y = e[q["l"]]
                            e[x] = ("b", not y[1]) if y[0] == "b" else (NE[y[0]],) + y[1:]
                    elif rv["r"] == "bin":
                        y = self.len_test(rv, e)
                        if y:
                            e[x] = y
                    elif rv["r"] == "agg" and any(op_place(o) and op_place(o)["l"] in rf for o in rv_operands(rv)):
                        # captured by reference (closure, tuple of references)
                        if rv.get("agg") == "closure":
                            st = READ if st == FULL else st
                        else:
                            rf.add(x)
                else:
                    if at(pl) or pl["l"] in rf:
                        exact = at(pl) and len(pl["p"]) == len(pre0)
                        if exact and isfield:
                            now = self.assigned(f, rv)
                            if not (st == GONE and now in (EMPTY, NONE)):
                                st = now
                        elif any(self.owned(self.place_ty(f, op_place(o))) for o in rv_operands(rv) if op_place(o)):
                            st = FULL
            if ended:
                continue
            t = blk["t"]
            k = t["t"]

            def go(n, l=l, st=st):
                stack.append((n, 0, l, st, frozenset(e.items()), tuple(sorted(rf))))
            if k == "return":
                ends.add(st)
                continue
            if k == "drop":
                p = t["place"]
                if at(p):
                    if len(p["p"]) == len(pre0):
                        if st == FULL and not (isfield and (self.setter(f, b, p) or self.opens(f, b, p))):
                            out.append(("overwritten" if isfield else "dropped", b, origin, l, pre0))
                            if self.remember:
                                st = GONE
                        if not isfield:
                            continue        # gone
                    else:
                        # part of it (a field of a partly moved value)
                        pt = self.place_ty(f, p)
                        if not isfield and st == FULL and pt is not None and (self.owned(pt) or self.part(pt)) and \
                                not (self.replaced(f, b, p) and self.built_here(f, l)):
                            out.append(("dropped", b, origin, l, pre0))
                for n in f.succ(b):
                    go(n, st=st)
                continue
            if k == "call":
                c = callee(t)
                nm = nm_of(t)
                g = self.prog.fns.get(c["path"]) if c else None
                if hook:
                    hook(b, t, st)
                mv = None
                for ai, a in enumerate(t["args"]):
                    p = a.get("move")
                    if p and at(p):
                        if p["p"][len(pre0):] and not self.owned(self.place_ty(f, p)):
                            if self.texty(self.place_ty(f, p)):
                                st = READ if st == FULL else st
                            continue
                        mv = ai
                if mv is not None and not isfield:
                    # handed on; through wrappers and conversions it lives on in the result
                    if nm in THROUGH and g is None and not t["dest"]["p"] and t["to"] is not None and \
                            self.owned(f.lty(t["dest"]["l"])) and t["dest"]["l"] != 0:
                        if nm in LOSSY and st == FULL and f.ty(t["atys"][mv]).defpath not in WRAP:
                            out.append(("passed through " + nm, b, origin, l, pre0))
                        rf = set()
                        go(t["to"], l=t["dest"]["l"], st=st)
                    elif nm in ("drop", "forget") and g is None and st == FULL:
                        out.append(("dropped", b, origin, l, pre0))
                    continue
                d = t["dest"]
                touched = [ai for ai, a in enumerate(t["args"]) if op_place(a) and (op_place(a)["l"] in rf or at(op_place(a)))]
                if not d["p"]:
                    e.pop(d["l"], None)
                    rf.discard(d["l"])
                elif isfield and at(d) and len(d["p"]) == len(pre0):
                    st = self.creates(t) or FULL
                if touched:
                    st = self.call(f, b, t, nm, g, touched, e, rf, st, out, (origin, l, pre0))
                elif isfield and g is not None:
                    after = self.passed(f, t, g, l, pre0, st)
                    if t["to"] is not None:
                        for s2 in after:
                            go(t["to"], st=s2)
                    continue
                if t["to"] is not None:
                    go(t["to"], st=st)
                continue
            if k == "switch":
                p = op_place(t["op"])
                x = e.get(p["l"]) if p and not p["p"] else None
                if x is not None and x[0] == "b":
                    z = 1 if x[1] else 0
                    go(next((tg for val, tg in t["vals"] if int(val) == z), t["else"]))
                    continue
                if x is not None and x[0] in ("em", "ne", "d", "eq"):
                    for val, tg in list(t["vals"]) + [(None, t["else"])]:
                        s2 = st
                        v = int(val) if val is not None else None
                        if v is None:
                            rest = {0, 1} - {int(q) for q, _ in t["vals"]}
                            v = rest.pop() if len(rest) == 1 else None
                        opt = x[0] == "d" and x[1].endswith("Option") or x[1:] == ("o",)
                        if opt and st == NONE and (v == 1 if x[0] in ("d", "ne") else v == 0):
                            continue
                        if x[0] == "em" and v == 1 or x[0] == "ne" and v == 0:
                            s2 = NONE if opt else EMPTY
                        if x[0] == "eq" and v == 1 and st == FULL:
                            s2 = READ               # the same as another one, which stays
                        if x[0] == "d":
                            if opt and v == 0:
                                s2 = NONE if x[1] != "Option" else EMPTY
                            if x[1].endswith(("Result", "ControlFlow")) and v == 1:
                                s2 = EMPTY          # the error side holds no content
                        go(tg, st=s2)
                    continue
            for n in f.succ(b):
                go(n)
        uniq, res = set(), []
        for o in out:
            if (o[0], o[1]) not in uniq:
                uniq.add((o[0], o[1]))
                res.append(o)
        return res, ends

    def call(self, f, b, t, nm, g, touched, e, rf, st, out, info):
        """a call that gets a reference to (or into) the value"""
        d = t["dest"]
        rty = f.lty(d["l"]) if not d["p"] else self.place_ty(f, d)
        a0 = touched[0]
        aty = f.ty(t["atys"][a0])
        whole = self.holds(f, t, a0, info)
        if g is None:
            if nm in ("is_empty", "is_none") and rty.k == "bool":
                if whole:
                    e[d["l"]] = ("em", "o") if nm == "is_none" else ("em",)
            elif nm == "is_some":
                if whole:
                    e[d["l"]] = ("ne", "o")
            elif nm == "len":
                if whole:
                    e[d["l"]] = ("len",)
            elif nm in ("eq", "ne"):
                e[d["l"]] = ("eq",)
                if nm == "ne":
                    e.pop(d["l"])
            elif nm in ("clear", "truncate", "retain"):
                if st == FULL and whole:
                    out.append(("cleared", b) + info)
                    st = EMPTY if nm == "clear" else st
                elif whole:
                    st = EMPTY if nm == "clear" else st
            elif nm in FILL and a0 == 0 and len(t["args"]) > 1:
                st = FULL
            elif a0 > 0 and nm == "append":
                st = EMPTY
            elif a0 > 0 and nm in FILL:
                st = READ if st == FULL else st
            elif nm in ("take", "replace", "swap"):
                if nm == "take" and whole:
                    st = GONE if st == GONE else NONE
                elif nm == "replace" and whole:
                    st = FULL
            elif nm == "drain":
                if whole and "RangeFull" in f.ty(t["atys"][1]).s:
                    st = EMPTY
            elif nm in POP:
                if whole and not d["p"]:
                    e[d["l"]] = ("pop",)
            elif nm in ALL:
                st = READ if st == FULL else st
                if nm in ("iter", "iter_mut", "values"):
                    pass
            elif nm in LOOK:
                if rty.k == "ref" or (rty.k == "adt" and rty.defpath in WRAP):
                    rf.add(d["l"])
            elif a0 > 0 and rty.k == "tuple" and not rty.argl():
                st = READ if st == FULL else st
            elif self.owned(rty) or self.texty(rty):
                st = READ if st == FULL else st
            elif rty.k == "ref" or (rty.k == "adt" and any(x.k == "ref" for x in rty.argl())):
                rf.add(d["l"])
            return st
        # a function of the crate
        ismut = aty.s.startswith("&mut")
        if rty.k == "bool" or rty.k in ("int", "uint", "never"):
            if nm == "is_empty" and rty.k == "bool" and whole:
                e[d["l"]] = ("em",)
            elif nm == "eq":
                e[d["l"]] = ("eq",)
            if ismut and any(self.owned(f.ty(x)) for x in t["atys"]):
                st = FULL
        elif ismut and any(self.owned(f.ty(x)) for x in t["atys"]):
            st = FULL
        elif self.owned(rty) or self.texty(rty):
            st = READ if st == FULL else st
        elif rty.k == "ref" or (rty.k == "adt" and any(x.k == "ref" for x in rty.argl())):
            rf.add(d["l"])
        elif any(f.ty(x).s.startswith("&mut") for i, x in enumerate(t["atys"]) if i not in touched):
            st = READ if st == FULL else st        # looked at in order to fill something else
        elif not ismut and rty.k == "adt" and rty.defpath in self.prog.adts and self.prog.adts[rty.defpath]["local"] and \
                self.prog.adts[rty.defpath]["kind"] == "struct":
            st = READ if st == FULL else st        # a structure is made with it
        return st

    def holds(self, f, t, ai, info):
        """the reference argument is to the whole value, not to a part of it"""
        ty = f.ty(t["atys"][ai])
        while ty is not None and ty.k == "ref":
            ty = ty.arg(0)
        return ty is not None and (self.owned(ty) or self.tracked(ty) or ty.k == "slice")

    def whole(self, f, q, ty):
        return self.owned(ty) or any(x.k == "ref" for x in ty.argl())

    def texty(self, rty):
        if rty is None:
            return False
        if rty.k == "adt" and (rty.defpath or "").endswith("String"):
            return True
        return rty.k in ("adt", "tuple") and any(self.texty(x) for x in rty.argl())

    def assigned(self, f, rv):
        if rv["r"] == "agg" and rv.get("vname") == "None":
            return NONE
        for o in rv_operands(rv):
            p = op_place(o)
            if p is None:
                c = o.get("const") if isinstance(o, dict) else None
                return EMPTY if c is not None else FULL
            if not p["p"]:
                s = self.fresh(f, p["l"])
                if s:
                    return NONE if rv["r"] == "use" and self.none(f, p["l"]) else s
        return FULL

    def fresh(self, f, l, depth=0):
        """EMPTY when the local only ever holds a new, empty container or None"""
        got = []
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "agg" and rv.get("vname") == "None":
                        got.append(True)
                    elif rv["r"] in ("agg", "use", "cast") and depth < 4:
                        ps = [op_place(o) for o in rv_operands(rv)]
                        got.append(bool(ps) and all(p is not None and not p["p"] and self.fresh(f, p["l"], depth + 1) for p in ps))
                    else:
                        got.append(False)
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not t["dest"]["p"]:
                got.append(nm_of(t) in ("new", "default", "with_capacity") and not any(self.owned(f.ty(a)) for a in t["atys"]))
        return EMPTY if got and all(got) else None

    def none(self, f, l):
        """the local only ever holds None"""
        got = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]]
        got += [None for b in f.blocks if b["t"]["t"] == "call" and b["t"]["dest"]["l"] == l and not b["t"]["dest"]["p"]]
        return bool(got) and all(rv is not None and rv["r"] == "agg" and rv.get("vname") == "None" for rv in got)

    def setter(self, f, b, p):
        """the field is overwritten with something the caller passed by value for it"""
        seen, work = set(), [b]
        while work:
            x = work.pop()
            if x in seen or f.blocks[x]["cleanup"]:
                continue
            seen.add(x)
            for s in f.blocks[x]["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and self.pkey(s["place"]["p"]) == self.pkey(p["p"]):
                    return self.from_param(f, s["rv"])
            if len(seen) < 6:
                work.extend(f.succ(x))
        return False

    def opens(self, f, b, p):
        """an optional field gets a new, still empty value: Some(Vec::new()), Some(Thing::new())"""
        if not self.opening:
            return False
        for n in f.succ(b):
            for s in f.blocks[n]["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and self.pkey(s["place"]["p"]) == self.pkey(p["p"]):
                    return any(q is not None and self.some_new(f, q["l"]) for q in map(op_place, rv_operands(s["rv"])))
        return False

    def some_new(self, f, l):
        got = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]]
        if len(got) != 1 or got[0]["r"] != "agg" or got[0].get("vname") != "Some":
            return False
        q = op_place(rv_operands(got[0])[0])
        return q is not None and not q["p"] and self.built_here(f, q["l"])

    def replaced(self, f, b, p):
        """the dropped place is assigned straight away"""
        return any(s["s"] == "assign" and s["place"]["l"] == p["l"] and self.pkey(s["place"]["p"]) == self.pkey(p["p"])
                   for n in f.succ(b) if not f.blocks[n]["cleanup"] for s in f.blocks[n]["s"])

    def built_here(self, f, l, seen=None):
        """the local only holds values that were constructed in this function, not taken from elsewhere"""
        seen = seen or set()
        if l in seen:
            return True
        seen.add(l)
        got = False
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    got = True
                    for o in rv_operands(s["rv"]):
                        q = op_place(o)
                        if q is not None and self.owned(f.lty(q["l"])) and not self.built_here(f, q["l"], seen):
                            return False
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not t["dest"]["p"]:
                got = True
                for a, ty in zip(t["args"], t["atys"]):
                    ty = f.ty(ty)
                    if ty.s.startswith("&mut") and self.owned(ty.arg(0)) or nm_of(t) in ("take", "replace", "swap") and ty.k == "ref":
                        return False
                    q = op_place(a)
                    if q is not None and self.owned(ty) and not self.built_here(f, q["l"], seen):
                        return False
        return got and not 1 <= l <= f.argc

    def from_param(self, f, rv, depth=0):
        for o in rv_operands(rv):
            q = op_place(o)
            if q is None:
                continue
            if 1 <= q["l"] <= f.argc and f.lty(q["l"]).k != "ref":
                return True
            if depth < 5:
                for b in f.blocks:
                    for s in b["s"]:
                        if s["s"] == "assign" and s["place"]["l"] == q["l"] and not s["place"]["p"] and self.from_param(f, s["rv"], depth + 1):
                            return True
        return False

    def len_test(self, rv, e):
        ops = rv_operands(rv)
        if len(ops) != 2:
            return None
        a, b = ops
        pa, pb = op_place(a), op_place(b)

        def num(o):
            c = o.get("const")
            if not c:
                return None
            for k in ("int", "uint", "bits", "val"):
                if k in c:
                    try:
                        return int(c[k])
                    except (TypeError, ValueError):
                        return None
            return None
        op = rv.get("op") or rv.get("bop")
        if pa and not pa["p"] and e.get(pa["l"]) == ("len",):
            n = num(b)
            tab = {("Gt", 0): "ne", ("Eq", 0): "em", ("Ne", 0): "ne", ("Lt", 1): "em", ("Ge", 1): "ne", ("Le", 0): "em"}
            return (tab[op, n],) if (op, n) in tab else None
        if pb and not pb["p"] and e.get(pb["l"]) == ("len",):
            n = num(a)
            tab = {("Lt", 0): "ne", ("Eq", 0): "em", ("Ne", 0): "ne", ("Gt", 1): "em", ("Le", 1): "ne", ("Ge", 0): "em"}
            return (tab[op, n],) if (op, n) in tab else None
        return None

    # ---- through calls that get the structure holding the field ----
    def passed(self, f, t, g, l, pre, st):
        """a crate function gets (a reference to) the structure the field is in"""
        for ai, a in enumerate(t["args"]):
            p = op_place(a)
            if p is None:
                continue
            base = self.base_ref(f, p)
            if base is None:
                continue
            bl, bpre = base
            if bl != l or pre[:len(bpre)] != bpre:
                continue
            aty = f.ty(t["atys"][ai])
            if not aty.s.startswith("&mut"):
                return {st}
            rest = pre[len(bpre):]
            outs = self.transfer(g, ai + 1, (("deref",),) + rest if not rest or rest[0] != ("deref",) else rest, st)
            self.prepare(f)
            return outs or {st}
        return {st}

    def base_ref(self, f, p):
        """(local, projection) a reference operand stands for"""
        seen = 0
        while seen < 6:
            seen += 1
            if p["p"]:
                return p["l"], self.pkey(p["p"])
            if 1 <= p["l"] <= f.argc:
                return p["l"], (("deref",),)
            d = None
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]:
                        d = s["rv"] if d is None else False
            if not d:
                return None
            if d["r"] == "ref":
                return d["place"]["l"], self.pkey(d["place"]["p"])
            if d["r"] == "use" and op_place(d["op"]):
                p = op_place(d["op"])
                continue
            return None
        return None

    def everywhere(self, f, param, pre, st, hook, extra=None, pass_on=None):
        """follow a field from f through every function that gets the structure it is in;
        hook(function, block, terminator, state, extra) at every call; pass_on(function, terminator,
        callee, extra) gives what the callee's context carries"""
        seen, work = set(), [(f, param, pre, st, extra)]
        while work:
            c = work.pop()
            f, param, pre, st, ex = c
            if (f.path,) + c[1:] in seen:
                continue
            seen.add((f.path,) + c[1:])

            def at_call(b, t, s, f=f, param=param, pre=pre, ex=ex):
                hook(f, b, t, s, ex)
                fn = callee(t)
                g = self.prog.fns.get(fn["path"]) if fn else None
                if g is None:
                    return
                for ai, a in enumerate(t["args"]):
                    p = op_place(a)
                    base = self.base_ref(f, p) if p is not None else None
                    if base and base[0] == param and pre[:len(base[1])] == base[1] and f.ty(t["atys"][ai]).k == "ref":
                        rest = pre[len(base[1]):]
                        work.append((g, ai + 1, rest if rest and rest[0] == ("deref",) else (("deref",),) + rest, s,
                                     pass_on(f, t, g, ex) if pass_on else None))
            self.follow(f, (0, 0, param, pre, st, ""), at_call)
        return seen

    def transfer(self, g, param, pre, st):
        """states of the field at the normal returns of g when it is st on entry"""
        key = (g.path, param, pre, st)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = set()
        for _ in range(4):
            r = self.follow(g, (0, 0, param, pre, st, ""))[1]
            if r == self.memo[key]:
                break
            self.memo[key] = self.memo[key] | r
        return self.memo[key]
