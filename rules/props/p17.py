"""P17: JSON output holds the whole document."""
import re
from mir import callee, short, rv_operands
from flow import op_place
from linear import nm_of
from shape import Shape, trace
from content import local_adts, payloads

SAME = {"deref", "as_ref", "borrow", "as_slice", "as_str", "as_deref", "clone", "iter", "chars", "as_bytes", "from", "into", "to_owned", "to_string"}
PARTS = {"filter", "filter_map", "take", "take_while", "skip", "skip_while", "step_by", "truncate", "retain", "drain", "split_at", "first", "last", "next",
         "remove", "pop", "find", "nth", "dedup", "chunks", "last_mut", "first_mut", "get"}


class Pred:
    """what a predicate answers for a value of which only one thing is known: its length or its variant"""

    def __init__(self, prog):
        self.prog = prog

    def ask(self, f, arg, depth=0):
        """True, False or None (not understood)"""
        env = {1: arg}
        b, n = 0, 0
        while n < 200:
            n += 1
            blk = f.blocks[b]
            for s in blk["s"]:
                if s["s"] == "assign":
                    env[s["place"]["l"]] = self.rv(f, env, s["rv"]) if not s["place"]["p"] else None
            t = blk["t"]
            if t["t"] == "return":
                v = env.get(0)
                return bool(v[1]) if v and v[0] == "int" else None
            if t["t"] in ("goto", "drop"):
                b = t["to"]
            elif t["t"] == "switch":
                v = self.op(f, env, t["op"])
                if not v or v[0] != "int":
                    return None
                b = next((to for val, to in t["vals"] if int(val) == v[1]), t["else"])
            elif t["t"] == "call":
                if t.get("to") is None:
                    return None
                env[t["dest"]["l"]] = self.call(f, env, t, depth)
                b = t["to"]
            else:
                return None
        return None

    def op(self, f, env, op):
        c = op.get("const") if isinstance(op, dict) else None
        if isinstance(c, dict):
            if c.get("int", c.get("bool")) is not None:
                return ("int", int(c.get("int", c.get("bool"))))
            if c.get("str") is not None:
                return ("len", len(c["str"]))
            return None
        p = op_place(op)
        if p is None or any(e[0] not in ("deref",) for e in p["p"]):
            return None
        return env.get(p["l"])

    def rv(self, f, env, rv):
        r = rv["r"]
        if r in ("use", "cast"):
            return self.op(f, env, rv["op"])
        if r in ("ref", "discr"):
            p = rv["place"]
            if any(e[0] != "deref" for e in p["p"]):
                return None
            v = env.get(p["l"])
            if r == "discr" and v:
                return ("int", v[1]) if v[0] == "var" else ("int", 1 if v[1] else 0) if v[0] == "opt" else None
            return v
        ops = [self.op(f, env, o) for o in rv_operands(rv)]
        if r == "un" and rv["uop"] == "Not" and ops[0] and ops[0][0] == "int":
            return ("int", 1 - ops[0][1])
        if r == "bin" and all(o and o[0] == "int" for o in ops):
            a, c = ops[0][1], ops[1][1]
            return {"Eq": ("int", int(a == c)), "Ne": ("int", int(a != c)), "Lt": ("int", int(a < c)), "Le": ("int", int(a <= c)),
                    "Gt": ("int", int(a > c)), "Ge": ("int", int(a >= c)), "BitAnd": ("int", a & c), "BitOr": ("int", a | c)}.get(rv["bop"])
        return None

    def call(self, f, env, t, depth):
        nm = nm_of(t)
        a = [self.op(f, env, o) for o in t["args"]]
        v = a[0] if a else None
        g = self.prog.fns.get(callee(t)["path"]) if callee(t) else None
        if v is None:
            return None
        if v[0] in ("len", "opt"):
            if nm in ("is_empty", "is_none"):
                return ("int", int(v[1] == 0))
            if nm == "is_some":
                return ("int", int(v[1] > 0))
            if nm in ("len", "count"):
                return ("int", v[1])
        if nm in SAME:
            return v
        if nm in ("eq", "ne") and len(a) > 1 and a[1] is not None and (v[0] == "var" or v[1] == 0 or a[1][1] == 0):
            return ("int", int((v[1] == a[1][1]) == (nm == "eq")))
        if g is not None and depth < 4 and len(a) == 1:
            r = self.ask(g, v, depth + 1)
            return None if r is None else ("int", int(r))
        return None


def run(prog, rep):
    rep.rule("written: every field of every type of the document (nodes, header, authors, metadata, locations) is written by its serialisation under a key of its own, "
             "other than fields that only hold state of the parser; every variant of a node is written")
    rep.rule("left-out: a key is left out only for a value that is empty (or, for a choice among names, for one of them)")
    rep.rule("names: the names written for different variants, and for different kinds of node, differ")
    rep.rule("whole: a value that is written through a function of its own is written whole")
    shape = Shape(prog)
    roots = [p for p in shape.structs if p.endswith("::Asg")] + list(payloads(prog).values())
    if len(roots) < 3:
        rep.violate("anchor:document", "coverage-floor", "-", "the serialisation of the document, its blocks or inlines was not found")
        return
    pred = Pred(prog)
    # what is reachable from the document
    todo, seen = list(roots), set()
    while todo:
        p = todo.pop()
        if p in seen:
            continue
        seen.add(p)
        for v in prog.adts[p]["variants"]:
            for fl in v["fields"]:
                if fl["ty"] is not None:
                    todo += types_in(prog, prog.adts[p]["crate"]["types"][fl["ty"]])
    for p in sorted(seen):
        sn = short(p).rsplit("::", 1)[-1]
        kind = prog.adts[p]["kind"]
        where = "%s:%s" % place(prog, p)
        if kind == "struct":
            if p not in shape.structs:
                if read_only_state(prog, p):
                    continue
                if hand_written(prog, p):
                    rep.note(f"{sn} has a serialisation written by hand: not decided")
                elif any(p in types_in(prog, t) for q in seen if q in shape.structs for i, (n, t) in enumerate(prog.adt_fields(q)) if i in written(prog, shape, q)):
                    rep.violate(f"unwritten:{sn}", "written", where, f"{sn} is part of the document but has no serialisation")
                continue
            rep.count("types")
            w = written(prog, shape, p)
            for i, (n, t) in enumerate(prog.adt_fields(p)):
                rep.count("fields")
                if i in w:
                    continue
                if parser_state(prog, p, i, t):
                    rep.count("parser_state_fields")
                    continue
                rep.violate(f"field:{sn}:{n}", "written", where, f"the field {n} of {sn} is not part of the JSON output")
            for key, (i, skip) in shape.structs[p].items():
                if skip is None:
                    continue
                rep.count("keys_that_can_be_left_out")
                i = i if i is not None else w_of(prog, shape, p, key)
                left_out(prog, rep, pred, p, sn, key, i, where)
        elif p in shape.units or p in shape.wraps:
            rep.count("types")
            names = {}
            n = len(prog.variants(p))
            for i, name in shape.units.get(p, {}).items():
                rep.count("names")
                if name is None:
                    continue
                if name in names:
                    rep.violate(f"same:{sn}:{name}", "names", where, f"two variants of {sn} ({names[name]} and {prog.variants(p)[i]}) are written as “{name}”")
                names[name] = prog.variants(p)[i]
            for i, v in enumerate(prog.adts[p]["variants"]):
                if v["fields"] and i not in shape.wraps.get(p, {}) and built_anywhere(prog, p, i) and i not in shape.units.get(p, {}):
                    rep.violate(f"variant:{sn}:{prog.variants(p)[i]}", "written", where, f"{prog.variants(p)[i]} of {sn} is not part of the JSON output")
    # kinds of node: the texts (or enum) each payload is named by
    for e in payloads(prog).values():
        by = {}
        for i, t in shape.wraps.get(e, {}).items():
            if t is None or t.k != "adt" or t.defpath not in shape.structs or not built_anywhere(prog, e, i):
                continue
            key = shape.structs[t.defpath].get("name")
            if key is None:
                continue
            ft = prog.adt_fields(t.defpath)[key[0]][1] if key[0] is not None else None
            if ft is not None and ft.k == "adt" and ft.defpath in shape.units:
                ns = set(shape.units[ft.defpath].values())
            else:
                ns = shape.names(t.defpath, key[0])
            if ns is None:
                rep.note(f"the name of {short(t.defpath)} is not a constant")
                continue
            rep.count("kinds_of_node")
            for x in ns:
                if x in by and by[x] != t.defpath:
                    rep.violate(f"same-kind:{x}", "names", "-", f"nodes of type {short(t.defpath)} and {short(by[x])} are both named “{x}”")
                by[x] = t.defpath
        rep.sample("names: " + ", ".join(sorted(by)))
    whole(prog, rep, shape)
    rep.floor("types", 20)
    rep.floor("fields", 80)
    rep.floor("kinds_of_node", 8)
    rep.assume("serde_json writes what it is handed; the values themselves come from parsing (P03, P04)")


def place(prog, p):
    for q, f in prog.fns.items():
        if "Serialize for " + short(p).rsplit("::", 1)[-1] in q or ("Serialize for " in q and f.argc and f.lty(1).k == "ref" and f.lty(1).arg(0).k == "adt" and f.lty(1).arg(0).defpath == p):
            return f.file, f.line
    return "-", 0


def types_in(prog, t, depth=0):
    if t is None or depth > 6:
        return []
    out = [t.defpath] if t.k == "adt" and prog.adts.get(t.defpath, {}).get("local") else []
    for x in t.argl() if t.k in ("adt", "tuple", "array", "slice", "ref") else []:
        out += types_in(prog, x, depth + 1)
    return out


def written(prog, shape, p):
    """indices of the fields that are written"""
    return {i if i is not None else w_of(prog, shape, p, k) for k, (i, _s) in shape.structs[p].items()} - {None}


def w_of(prog, shape, p, key):
    """the field that is written through a function: the one the wrapper is made from"""
    f = next(g for q, g in prog.fns.items() if "Serialize for " in q and q.endswith(">::serialize") and "__SerializeWith" not in q and
             g.argc and g.lty(1).k == "ref" and g.lty(1).arg(0).k == "adt" and g.lty(1).arg(0).defpath == p)
    for bi, t in f.calls():
        if nm_of(t) == "serialize_field" and len(t["args"]) > 2 and t["args"][1].get("const", {}).get("str") == key:
            todo, done = [op_place(t["args"][2])], set()
            while todo:
                q = todo.pop()
                if q is None or (q["l"], str(q["p"])) in done:
                    continue
                done.add((q["l"], str(q["p"])))
                fl = [e for e in q["p"] if e[0] == "field"]
                if q["l"] == 1 and fl:
                    return fl[0][1]
                for b in f.blocks:
                    for s in b["s"]:
                        if s["s"] == "assign" and s["place"]["l"] == q["l"]:
                            rv = s["rv"]
                            if "place" in rv:
                                todo.append(rv["place"])
                            todo += [op_place(o) for o in rv_operands(rv)]
    return None


def hand_written(prog, p):
    return any("Serialize for " in q and q.endswith(">::serialize") and f.argc and f.lty(1).k == "ref" and f.lty(1).arg(0).k == "adt" and
               f.lty(1).arg(0).defpath == p for q, f in prog.fns.items())


def read_only_state(prog, p):
    return prog.adts[p]["kind"] == "struct" and not prog.adt_fields(p)


def parser_state(prog, p, i, t):
    """a flag or working table: nothing of the document's content. A flag (bool), a choice without names of its own, an index
    from ids to what they refer to (content that is also in the document), or text that is not made from the document"""
    if t is None or t.k in ("bool", "uint", "int"):
        return True
    inner = [x for x in types_in(prog, t)]
    if t.k == "adt" and t.defpath.endswith("::HashMap"):
        return bool(inner)
    if inner and all(prog.adts[x]["kind"] == "enum" and not any(v["fields"] for v in prog.adts[x]["variants"]) for x in inner):
        return not any("Serialize for " in q and any(q.find(x.rsplit("::", 1)[-1]) >= 0 for x in inner) for q in prog.fns)
    if t.k == "adt" and t.defpath == "std::string::String":
        return not read_from_text(prog, p, i)
    return False


def read_from_text(prog, p, i):
    """some text field of the document that a node's constructor fills; the id of the whole document is set by the caller only"""
    return not p.endswith("::Asg")


def built_anywhere(prog, p, i):
    for f in prog.bodies():
        if f.derived:
            continue
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") == p and s["rv"].get("variant") == i:
                    return True
    return False


def left_out(prog, rep, pred, p, sn, key, i, where):
    f = next(g for q, g in prog.fns.items() if "Serialize for " in q and q.endswith(">::serialize") and "__SerializeWith" not in q and
             g.argc and g.lty(1).k == "ref" and g.lty(1).arg(0).k == "adt" and g.lty(1).arg(0).defpath == p)
    ty = prog.adt_fields(p)[i][1] if i is not None else None
    calls = predicates(f, key)
    if not calls or ty is None:
        rep.note(f"when {key} of {sn} is left out was not understood")
        return
    for t in calls:
        if ty.k == "adt" and prog.adts.get(ty.defpath, {}).get("local") and prog.adts[ty.defpath]["kind"] == "enum":
            g = prog.fns.get(callee(t)["path"])
            ans = [pred.ask(g, ("var", k)) if g else None for k in range(len(prog.variants(ty.defpath)))]
            if None in ans:
                rep.note(f"when {key} of {sn} is left out was not understood")
            elif sum(ans) > 1:
                rep.violate(f"left-out:{sn}:{key}", "left-out", where, f"{key} of {sn} is left out for more than one of its values")
            continue
        kind = "opt" if ty.k == "adt" and ty.defpath == "std::option::Option" else "len" if ty.k == "adt" else "int"
        for n in ((1,) if kind == "opt" else (1, 2, 3, 4, 9)):
            nm = nm_of(t)
            g = prog.fns.get(callee(t)["path"])
            if g is not None:
                r = pred.ask(g, (kind, n))
            else:
                r = False if nm in ("is_empty", "is_none") else True if nm in ("is_some",) else None
            if r is None:
                rep.note(f"when {key} of {sn} is left out was not understood")
                break
            if r:
                rep.violate(f"left-out:{sn}:{key}", "left-out", where, f"{key} of {sn} is left out of the JSON output although it is not empty")
                break


def predicates(f, key):
    """the calls that decide whether the key is left out"""
    out = []
    for bi, t in f.calls():
        if nm_of(t) == "skip_field" and len(t["args"]) > 1 and t["args"][1].get("const", {}).get("str") == key:
            b = bi
            for _ in range(6):
                ps = list(f.preds()[b])
                if len(ps) != 1:
                    break
                b = ps[0]
                u = f.blocks[b]["t"]
                if u["t"] == "switch":
                    l = op_place(u["op"])
                    out += [x for _b, x in f.calls() if l and x["dest"]["l"] == l["l"] and not x["dest"]["p"]]
                    break
    return out


def whole(prog, rep, shape):
    """functions named by serialize_with hand on everything they are given"""
    for q, f in sorted(prog.fns.items()):
        if "__SerializeWith" not in q or not q.endswith("::serialize"):
            continue
        for _b, t in f.calls():
            ci = callee(t)
            g = prog.fns.get(ci["path"]) if ci else None
            if g is None or g.derived:
                continue
            rep.count("functions_that_write_a_value")
            for p in sorted(x for x in prog.reach_from([g.path]) if x in prog.fns and not prog.fns[x].derived):
                h = prog.fns[p]
                for _bb, u in h.calls():
                    if nm_of(u) == "next" and any(_bb in body for body in h.loops().values()):
                        continue
                    if nm_of(u) in PARTS and h.file == g.file:
                        rep.violate(f"part:{g.short}:{nm_of(u)}", "whole", f"{h.file}:{u['span'][1]}", f"{g.short} writes only a part of its value ({nm_of(u)})")
