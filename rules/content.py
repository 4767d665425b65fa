"""The document's own types, found by their role, and the use-once analyses over them."""
from mir import callee, short, rv_operands
from flow import op_place
from linear import Linear, nm_of, FULL, EMPTY, NONE, READ

LOOKS = {"last_mut", "first_mut", "back_mut", "front_mut", "get_mut", "as_mut", "unwrap", "expect", "deref_mut", "iter_mut", "next",
         "as_deref_mut", "borrow_mut", "index_mut", "branch", "ok_or", "ok_or_else", "filter", "rev", "by_ref", "last", "values_mut", "into_iter",
         "get_or_insert_with", "unwrap_or_else", "map", "and_then", "find"}


def adt(prog, suffix):
    c = [p for p in local_adts(prog) if p.endswith("::" + suffix)]
    return c[0] if c else None


def payloads(prog):
    """Block and Inline and the structures their variants hold, without those that hold no content"""
    out = {}
    for name in ("Block", "Inline"):
        for p, a in local_adts(prog).items():
            if p.endswith("::" + name) and a["kind"] == "enum":
                out[name] = p
    return out


def local_adts(prog):
    return {p: a for p, a in prog.adts.items() if a["local"]}


def field_types(prog, path):
    a = prog.adts[path]
    return [a["crate"]["types"][fl["ty"]] for v in a["variants"] for fl in v["fields"] if fl["ty"] is not None]


def holds(prog, path, targets, seen=None):
    """a local structure that contains (by value) one of the target types, or text"""
    seen = seen or set()
    if path in seen or path not in prog.adts:
        return False
    seen.add(path)
    return any(mentions(t, targets) for t in field_types(prog, path))


def mentions(t, targets, depth=0):
    if t is None or depth > 6:
        return False
    if t.k == "adt" and t.defpath in targets:
        return True
    return t.k in ("adt", "tuple", "array", "slice") and any(mentions(x, targets, depth + 1) for x in t.argl())


def content_types(prog):
    """(enums that wrap, all content types)"""
    w = payloads(prog)
    enums = set(w.values())
    core = set(enums)
    for e in enums:
        for t in field_types(prog, e):
            if t.k == "adt" and t.defpath in prog.adts and prog.adts[t.defpath]["local"]:
                if holds(prog, t.defpath, enums) or any(x.s.endswith("string::String") for x in field_types(prog, t.defpath)):
                    core.add(t.defpath)
    # any other structure that holds inlines or blocks by value, except the document and the parser
    for p, a in local_adts(prog).items():
        if a["kind"] == "struct" and p not in core and holds(prog, p, core) and not is_state(p):
            core.add(p)
    return enums, core


def is_state(p):
    return p.endswith(("::Parser", "::Asg")) or "backends" in p


def roots(f, op, seen=None):
    """reference parameters (or None for something local) a receiver operand may stand for"""
    p = op_place(op)
    if p is None:
        return set()
    out, work, seen = set(), [p], set()
    while work:
        q = work.pop()
        l = q["l"]
        if l in seen:
            continue
        seen.add(l)
        if 1 <= l <= f.argc:
            out.add(l if f.lty(l).k == "ref" else None)
            continue
        hit = False
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    hit = True
                    if s["rv"]["r"] in ("ref", "discr"):
                        work.append(s["rv"]["place"])
                    for o in rv_operands(s["rv"]):
                        if op_place(o):
                            work.append(op_place(o))
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not t["dest"]["p"]:
                hit = True
                if nm_of(t) in LOOKS or f.lty(l).k == "ref":
                    for a in t["args"][:1]:
                        if op_place(a):
                            work.append(op_place(a))
                else:
                    out.add(None)
        if not hit:
            out.add(None)
    return out


class Newness:
    """is a block or inline that is stored one that was made just now, as opposed to taken from the state?"""

    def __init__(self, prog, lin):
        self.prog, self.lin = prog, lin
        self.params = set()
        while True:
            n = len(self.params)
            for f in prog.bodies():
                for bi, t in f.calls():
                    c = callee(t)
                    g = prog.fns.get(c["path"]) if c else None
                    if g is None:
                        continue
                    for ai, a in enumerate(t["args"]):
                        if (g.path, ai + 1) not in self.params and lin.owned(f.ty(t["atys"][ai])) and self.new(f, a):
                            self.params.add((g.path, ai + 1))
            if len(self.params) == n:
                break

    def new(self, f, op):
        p = op_place(op)
        return p is not None and self._new(f, p["l"], set())

    def _new(self, f, l, seen):
        if l in seen:
            return True
        seen.add(l)
        if 1 <= l <= f.argc:
            return (f.path, l) in self.params
        got = False
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    got = True
                    for o in rv_operands(s["rv"]):
                        q = op_place(o)
                        if q is not None and self.lin.owned(f.lty(q["l"])) and not self._new(f, q["l"], seen):
                            return False
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not t["dest"]["p"]:
                got = True
                for a, ty in zip(t["args"], t["atys"]):
                    ty = f.ty(ty)
                    if ty.s.startswith("&mut"):
                        return False
                    q = op_place(a)
                    if q is not None and self.lin.owned(ty) and not self._new(f, q["l"], seen):
                        return False
        return got


def state_fields(prog, lin, owner):
    """(index, name, type) of the fields of a state structure that hold tracked values"""
    out = []
    for i, (name, t) in enumerate(prog.adt_fields(owner, 0)):
        if lin.owned(t):
            out.append((i, name, t))
    return out
