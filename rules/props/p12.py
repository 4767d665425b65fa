"""After an include the parser is back in the including file; includes end."""
from flow import op_place
from linear import nm_of
from mir import callee, short, rv_operands
from props.p03 import where
from props.p25 import Scope
from visit import PARTIAL

READS = ("std::fs::read_to_string", "std::fs::read", "std::fs::File::open", "std::io::read_to_string")
ARR = {"len", "contains", "any", "all", "iter", "position", "find", "starts_with", "ends_with", "last", "count", "filter", "capacity", "as_slice", "deref", "into_iter"}


def target_of(prog, t):
    c = callee(t)
    return prog.fns.get(c["path"]) if c else None


def edges_of(prog):
    """function -> functions it calls or whose closures it makes"""
    if not hasattr(prog, "_p12_edges"):
        e = {p: {callee(t)["path"] for _b, t in f.calls() if callee(t)} & set(prog.fns) for p, f in prog.fns.items()}
        for q in prog.fns:
            if "::{closure" in q:
                e.setdefault(q.rsplit("::{closure", 1)[0], set()).add(q)
        prog._p12_edges, prog._p12_reach = e, {}
    return prog._p12_edges


def closure_of(prog, f):
    """functions a function can call, closures included"""
    e = edges_of(prog)
    if f.path not in prog._p12_reach:
        seen, stk = set(), [f.path]
        while stk:
            p = stk.pop()
            if p not in seen and p in prog.fns:
                seen.add(p)
                stk += e.get(p, ())
        prog._p12_reach[f.path] = seen
    return prog._p12_reach[f.path]


def in_cycle(prog, p):
    return any(p in closure_of(prog, prog.fns[q]) for q in edges_of(prog).get(p, ()) if q in prog.fns)


def file_reads(prog, f):
    return [(bi, t) for bi, t in f.calls() if callee(t) and (callee(t)["path"] in READS or short(callee(t)["path"]) in READS)]


def self_param(f, owner):
    for p in range(1, f.argc + 1):
        t = f.lty(p)
        if t.k == "ref" and t.arg(0).k == "adt" and t.arg(0).defpath == owner:
            return p
    return None


def field_in(p, owner):
    """the field of the owner a place goes through"""
    for e in p["p"]:
        if e[0] == "field" and len(e) > 4 and e[4] == owner:
            return e[1]
    return None


def slice_of(prog, f, starts, owner, depth=0, seen=None):
    """(fields of the owner, names of calls) a value depends on, through locals and the results of calls"""
    seen = set() if seen is None else seen
    fields, names, calls = set(), set(), []
    stk = list(starts)
    mut = {}
    while stk:
        l = stk.pop()
        if (f.path, l) in seen:
            continue
        seen.add((f.path, l))
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign" or s["place"]["l"] != l:
                    continue
                for p in [op_place(o) for o in rv_operands(s["rv"])] + ([s["rv"]["place"]] if s["rv"]["r"] in ("ref", "discr", "len") else []):
                    if p is None:
                        continue
                    x = field_in(p, owner)
                    if x is not None:
                        fields.add(x)
                    else:
                        stk.append(p["l"])
            t = b["t"]
            if t["t"] == "call":
                args = [op_place(a)["l"] for a in t["args"] if op_place(a)]
                into = t["dest"]["l"] == l or (args and refers(f, args[0], l) and mutates(f, args[0]))
                if not into:
                    continue
                names.add(nm_of(t))
                calls.append((bi, t))
                g = target_of(prog, t)
                if g is not None and not g.derived and depth < 4 and self_param(g, owner) is not None:
                    fs, ns, _c = slice_of(prog, g, [0], owner, depth + 1, seen)
                    fields |= fs
                    names |= ns
                    sp = self_param(g, owner)
                    stk += [a for i, a in enumerate(args) if i != sp - 1]
                else:
                    stk += args
    return fields, names, calls


def refers(f, l, root, depth=0):
    """a local is a reference to (part of) another"""
    if not hasattr(f, "_p12_refs"):
        f._p12_refs = {}
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and not s["place"]["p"] and s["rv"]["r"] == "ref":
                    f._p12_refs.setdefault(s["place"]["l"], set()).add(s["rv"]["place"]["l"])
    return l == root or depth < 4 and any(refers(f, x, root, depth + 1) for x in f._p12_refs.get(l, ()))


def mutates(f, l):
    return f.lty(l).k == "ref" and f.lty(l).s.startswith("&mut")


def err_blocks(f):
    return {bi for bi, b in enumerate(f.blocks)
            if any(s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("vname") == "Err" and s["place"]["l"] == 0 for s in b["s"])
            or b["t"]["t"] == "call" and nm_of(b["t"]) == "from_residual"}


def only_errors(f, b, err):
    """every return that can follow a block passes an error result"""
    seen, stk = set(), [b]
    n = 0
    while stk:
        x = stk.pop()
        if x in seen or f.blocks[x]["cleanup"]:
            continue
        seen.add(x)
        if x in err:
            n += 1
            continue
        if f.blocks[x]["t"]["t"] == "return":
            return False
        stk += f.succ(x)
    return n > 0


def guards(prog, f, owner, stack, depth=0):
    """blocks after which the stack is known to be shallow, or not to hold the file already: tests with an error on one side"""
    out = {}
    err = err_blocks(f)
    for bi, b in enumerate(f.blocks):
        t = b["t"]
        if b["cleanup"]:
            continue
        if t["t"] == "switch" and op_place(t["op"]):
            succ = f.succ(bi)
            bad = [x for x in succ if only_errors(f, x, err)]
            if not bad or len(bad) == len(set(succ)):
                continue
            fields, names, _c = slice_of(prog, f, [op_place(t["op"])["l"]], owner)
            if fields == {stack} and names & ARR:
                out[bi] = limit(f, op_place(t["op"])["l"])
        elif t["t"] == "call" and depth < 3:
            g = target_of(prog, t)
            if g is not None and self_param(g, owner) is not None and f.path not in closure_of(prog, g) and "Result" in g.lty(0).s and guards(prog, g, owner, stack, depth + 1):
                gg = guards(prog, g, owner, stack, depth + 1)
                oks = [x for x, bb in enumerate(g.blocks) if bb["t"]["t"] == "return"]
                if all(any(g.dominates(k, r) for k in gg) for r in oks):
                    out[bi] = next(iter(gg.values()))
    return out


def limit(f, l):
    """the number a length is compared with"""
    for b in f.blocks:
        for s in b["s"]:
            if s["s"] == "assign" and s["place"]["l"] == l and s["rv"]["r"] == "bin":
                for o in rv_operands(s["rv"]):
                    c = o.get("const") or {}
                    for k in ("int", "uint", "bits"):
                        if c.get(k) is not None:
                            try:
                                return int(c[k])
                            except (TypeError, ValueError):
                                pass
            elif s["s"] == "assign" and s["place"]["l"] == l and s["rv"]["r"] in ("use", "un"):
                for o in rv_operands(s["rv"]):
                    if op_place(o):
                        return limit(f, op_place(o)["l"])
    return None


class Depth:
    """how many entries a function leaves on a stack field of the owner"""

    def __init__(self, prog, owner, field):
        self.prog, self.owner, self.field, self.memo, self.busy = prog, owner, field, {}, set()

    def on_field(self, f, op):
        p = op_place(op)
        for _ in range(4):
            if p is None:
                return False
            if field_in(p, self.owner) == self.field:
                return True
            d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
            if len(d) != 1:
                return False
            p = d[0]["place"] if d[0]["r"] == "ref" else (op_place(d[0]["op"]) if d[0]["r"] == "use" else None)
        return False

    def effect(self, f):
        if f.path in self.memo:
            return self.memo[f.path]
        if f.path in self.busy:
            return {0}
        self.busy.add(f.path)
        r, _ = self.run(f)
        self.busy.discard(f.path)
        self.memo[f.path] = r
        return r

    def run(self, f, at=()):
        """depths at normal returns, and at the given blocks"""
        err = err_blocks(f)
        out, there, seen, stk = set(), {}, set(), [(0, 0, None)]
        while stk:
            b, d, saved = stk.pop()
            if (b, d, saved) in seen or b in err or f.blocks[b]["cleanup"]:
                continue
            seen.add((b, d, saved))
            if abs(d) > 5:
                return {None}, there
            if b in at:
                there.setdefault(b, set()).add(d)
            t = f.blocks[b]["t"]
            if t["t"] == "return":
                out.add(d)
                continue
            ds = {d}
            if t["t"] == "call":
                g = target_of(self.prog, t)
                nm = nm_of(t)
                if t["args"] and self.on_field(f, t["args"][0]):
                    if nm in ("push", "push_back", "insert"):
                        ds = {d + 1}
                    elif nm in ("pop", "pop_back", "remove"):
                        ds = {d - 1}
                    elif nm in ("truncate", "split_off"):
                        ds = {saved if saved is not None else 0}
                    elif nm in ("clear",):
                        ds = {None}
                    elif nm == "len":
                        saved = d
                elif g is not None and not g.derived and self_param(g, self.owner) is not None and any(op_place(a) and mutates(f, op_place(a)["l"]) for a in t["args"]):
                    ds = {None if e is None else d + e for e in self.effect(g)}
            for x in ds:
                if x is None:
                    return {None}, there
                for n in f.succ(b):
                    stk.append((n, x, saved))
        return out, there


def run(prog, rep):
    rep.rule("include-balanced: on every path of an include the file is noted while its content is parsed, and taken back at the end")
    rep.rule("include-restored: numbers of the parser that an include changes (the level offset) are what they were when it ends")
    rep.rule("include-bounded: an include is only followed after a test of the files it is nested in that otherwise ends in an error")
    rep.rule("include-relative: the path that is read depends on the origin and on all files it is nested in, noted after it was resolved")
    includes = []
    for f in prog.bodies():
        if f.derived or f.kind == "closure" or "::bin::" in f.path:
            continue
        own = next((f.lty(p).arg(0).defpath for p in range(1, f.argc + 1) if f.lty(p).k == "ref" and f.lty(p).s.startswith("&mut") and
                    f.lty(p).arg(0).k == "adt" and f.lty(p).arg(0).defpath.endswith("Parser")), None)
        if own and in_cycle(prog, f.path) and directly(prog, f):
            includes.append((f, own, closure_of(prog, f)))
    for f, own, cl in includes:
        rep.count("includes")
        fn = short(f.path).rsplit("::", 1)[-1]
        rec = {bi for bi, t in f.calls() if callee(t) and callee(t)["path"] in cl and f.path in closure_of(prog, prog.fns[callee(t)["path"]])}
        rep.count("recursive_calls", len(rec))
        fields = list(prog.adt_fields(own))
        # the files an include is nested in
        stacks = [i for i, (n, t) in enumerate(fields) if t is not None and t.k == "adt" and ("Vec<" in t.s or "VecDeque<" in t.s) and ("String" in t.s or "PathBuf" in t.s)]
        noted = []
        for i in stacks:
            d = Depth(prog, own, i)
            ends, there = d.run(f, rec)
            if not any(x for s in there.values() for x in s if x):
                continue
            noted.append(i)
            if ends != {0}:
                rep.violate("unbalanced", "include-balanced", where(f, 0),
                            f"{fn} does not take back the note of the included file on every path: what follows is taken for part of that file")
            for b, s in there.items():
                if s != {1}:
                    rep.violate("not-noted", "include-balanced", where(f, b), f"{fn} parses the content of the included file without having noted the file (or having noted it twice)")
        if not noted:
            rep.violate("no-note", "include-balanced", where(f, 0), f"{fn} does not note which file it parses: targets in that file are resolved as if they were in the including file")
            continue
        rep.count("file_stacks", len(noted))
        # numbers
        for i, (n, t) in enumerate(fields):
            if t is None or t.k not in ("int", "uint") and t.s not in ("i8", "i16", "i32", "i64", "isize", "u8", "u16", "u32", "u64", "usize"):
                continue
            sc = Scope(prog, own, i)
            rep.count("number_fields")
            if not restores(prog, sc, f.path):
                rep.violate(f"not-restored:{t.s}", "include-restored", where(f, 0),
                            f"{fn} leaves the parser's '{n}' as the include, or the included file, set it: what follows the include is treated differently")
        # ends
        gs = {}
        for i in noted:
            gs.update(guards(prog, f, own, i))
        for b in rec:
            if not any(f.dominates(g, b) for g in gs):
                rep.violate("unbounded", "include-bounded", where(f, b), f"{fn} follows an include without testing how it is nested: files that include each other overflow the stack")
        for g, n in gs.items():
            rep.count("nesting_tests")
            if n is not None and n > 1024:
                rep.violate("bound", "include-bounded", where(f, g), f"{fn} allows includes to be nested {n} deep, which overflows the stack")
        # relative
        for bi, t in f.calls():
            g = target_of(prog, t)
            if (bi, t) not in file_reads(prog, f) and not (g is not None and f.path not in closure_of(prog, g) and
                                                           any(file_reads(prog, prog.fns[q]) for q in closure_of(prog, g))):
                continue
            rep.count("files_read")
            a = [op_place(x)["l"] for x in t["args"] if op_place(x)]
            fs, names, calls = slice_of(prog, f, a, own)
            origin = {i for i, (n, ty) in enumerate(fields) if ty is not None and ty.k == "adt" and ty.defpath.endswith("PathBuf")}
            if not fs & origin:
                rep.violate("origin", "include-relative", where(f, bi), f"the path {fn} reads does not depend on the directory of the document")
            if not fs & set(noted):
                rep.violate("nested", "include-relative", where(f, bi), f"the path {fn} reads does not depend on the files the include is nested in")
            res = {b for b, u in calls if target_of(prog, u) is not None and self_param(target_of(prog, u), own) is not None}
            push = {b for b, u in f.calls() if u["args"] and nm_of(u) in ("push", "push_back") and any(Depth(prog, own, i).on_field(f, u["args"][0]) for i in noted)}
            pushed_path = any(slice_of(prog, f, [op_place(u["args"][1])["l"]], own)[0] & origin for b, u in f.calls() if b in push and op_place(u["args"][1]))
            for b in res:
                for p in push:
                    if b in f.reachable(p) and not f.dominates(b, p):
                        rep.violate("early-note", "include-relative", where(f, p), f"{fn} notes the included file before resolving its path, which is then relative to itself")
                g = target_of(prog, f.blocks[b]["t"])
                if not pushed_path:
                    part = partial_use(prog, g, own, set(noted))
                    if part:
                        rep.violate("some-files", "include-relative", where(g, 0), f"{short(g.path)} uses only some of the files the include is nested in (“{part}”)")
    rep.floor("includes", 1)
    rep.floor("recursive_calls", 1)
    rep.floor("files_read", 1)
    rep.floor("number_fields", 1)
    rep.assume("the file system's canonicalize resolves a path as the operating system does")


def restores(prog, sc, p, depth=0):
    """a function leaves the field as it was, or everything that calls it does"""
    if sc.memo.get(p, True):
        return True
    callers = [q for q, e in edges_of(prog).items() if p in e and q != p]
    return depth < 2 and bool(callers) and all(restores(prog, sc, q, depth + 1) for q in callers)


def directly(prog, f):
    """reads a file itself, or in a function it calls that is not part of the recursion"""
    if file_reads(prog, f):
        return True
    for _b, t in f.calls():
        g = target_of(prog, t)
        if g is not None and f.path not in closure_of(prog, g) and any(file_reads(prog, prog.fns[q]) for q in closure_of(prog, g)):
            return True
    return False


def partial_use(prog, g, own, stacks):
    for _b, t in g.calls():
        if nm_of(t) in PARTIAL and t["args"] and op_place(t["args"][0]):
            l = op_place(t["args"][0])["l"]
            ty = g.lty(l).s
            if ("Iter" in ty or "[" in ty or "Vec<" in ty) and slice_of(prog, g, [l], own, depth=9)[0] & stacks:
                return nm_of(t)
    return None
