"""What the derived serialisation of the document makes of each node: keys, when they are left out, and the names of unit variants."""
from flow import op_place
from linear import nm_of
from mir import callee, rv_operands
from content import local_adts

NAMED = {"to_string", "to_owned", "from", "into", "as_str", "as_ref", "clone", "deref", "borrow", "new", "must_use", "format", "String"}


def trace(f, op, depth=0):
    """the place a (re)borrowed operand refers to"""
    p = op_place(op)
    for _ in range(8):
        if p is None or len(p["p"]) > 1 or any(e[0] == "field" for e in p["p"]):
            return p
        d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
        if len(d) != 1:
            return p
        if d[0]["r"] == "ref":
            p = d[0]["place"]
        elif d[0]["r"] in ("use", "cast"):
            q = op_place(d[0]["op"]) if "op" in d[0] else None
            if q is None:
                return p
            p = q
        else:
            return p
    return p


def const_str(op):
    c = op.get("const") if isinstance(op, dict) else None
    return c.get("str") if isinstance(c, dict) else None


class Shape:
    """per local type: struct -> {key: (field index, when left out)}, enum -> {variant: name} or {variant: type}"""

    def __init__(self, prog):
        self.prog = prog
        self.structs, self.units, self.wraps, self.custom = {}, {}, {}, {}
        for p, f in prog.fns.items():
            if "Serialize for " not in p or not p.endswith(">::serialize") or "__SerializeWith" in p or f.argc < 1 or f.lty(1).k != "ref":
                continue
            t = f.lty(1).arg(0)
            if t.k != "adt" or t.defpath not in prog.adts:
                continue
            if prog.adts[t.defpath]["kind"] == "struct":
                self.structs[t.defpath] = self.struct(f)
            else:
                self.enum(f, t.defpath)

    def struct(self, f):
        out = {}
        skips = {}
        for bi, t in f.calls():
            nm = nm_of(t)
            if nm == "serialize_field" and len(t["args"]) > 2:
                key = const_str(t["args"][1])
                p = trace(f, t["args"][2])
                fl = next((e[1] for e in (p["p"] if p else []) if e[0] == "field"), None)
                if key is not None:
                    out[key] = (fl, None)
            elif nm == "skip_field" and len(t["args"]) > 1:
                skips[const_str(t["args"][1])] = self.when(f, bi)
        return {k: (fl, skips.get(k)) for k, (fl, _n) in out.items()}

    def when(self, f, bi):
        """what decides that a field is left out"""
        for _ in range(4):
            ps = f.preds()[bi]
            if len(ps) != 1:
                return "unknown"
            pb = list(ps)[0]
            t = f.blocks[pb]["t"]
            if t["t"] == "switch":
                l = op_place(t["op"])
                for b in f.blocks:
                    u = b["t"]
                    if l and u["t"] == "call" and u["dest"]["l"] == l["l"]:
                        return self.means(u)
                return "unknown"
            bi = pb
        return "unknown"

    def means(self, t, depth=0):
        nm = nm_of(t)
        if nm in ("is_empty", "is_none"):
            return "empty"
        g = self.prog.fns.get(callee(t)["path"]) if callee(t) else None
        if g is not None and depth < 3:
            inner = [u for _b, u in g.calls() if u["dest"]["l"] == 0]
            sw = any(b["t"]["t"] == "switch" for b in g.blocks)
            if len(inner) == 1 and not sw:
                return self.means(inner[0], depth + 1)
        return nm

    def enum(self, f, p):
        for bi, t in f.calls():
            nm = nm_of(t)
            if nm == "serialize_unit_variant":
                i = t["args"][2].get("const", {}).get("int")
                self.units.setdefault(p, {})[int(i)] = const_str(t["args"][3])
            elif nm == "serialize":
                q = trace(f, t["args"][0])
                d = self.downcast(f, t["args"][0])
                if d is not None:
                    self.wraps.setdefault(p, {})[d[0]] = d[1]

    def downcast(self, f, op):
        p = op_place(op)
        for _ in range(8):
            if p is None:
                return None
            for e in p["p"]:
                if e[0] == "downcast":
                    t = next((x for x in p["p"] if x[0] == "field"), None)
                    a = self.prog.adts
                    return e[1], f.ty(t[3]) if t else None
            d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
            if len(d) != 1:
                return None
            p = d[0]["place"] if d[0]["r"] == "ref" else (op_place(d[0]["op"]) if d[0]["r"] in ("use", "cast") else None)
        return None

    def built(self, path):
        """(function, block, operands) of every place that builds a structure or variant"""
        for f in self.prog.bodies():
            if f.derived:
                continue
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") == path:
                        yield f, bi, s["rv"]

    def names(self, path, idx):
        """the constant texts a text field is built with, or None"""
        out = set()
        for f, bi, rv in self.built(path):
            v = self.text(f, rv_operands(rv)[idx])
            if v is None:
                return None
            out.add(v)
        return out

    def text(self, f, op, depth=0):
        c = const_str(op)
        if c is not None:
            return c
        p = op_place(op)
        if p is None or depth > 8:
            return None
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]:
                    if s["rv"]["r"] in ("use", "cast"):
                        return self.text(f, s["rv"]["op"], depth + 1)
                    if s["rv"]["r"] == "ref":
                        return self.text(f, {"copy": s["rv"]["place"]}, depth + 1) if not any(e[0] == "field" for e in s["rv"]["place"]["p"]) else None
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == p["l"] and t["args"]:
                return self.text(f, t["args"][0], depth + 1) if nm_of(t) in NAMED else None
        return None
