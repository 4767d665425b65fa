"""Docx formatting ends where the block or span it belongs to ends."""
from linear import nm_of
from mir import callee, short, rv_operands
from flow import op_place
from symval import SymVal
from visit import PARTIAL
from content import adt, local_adts
from props.p03 import where

E, O = "entry", "other"


def writer_and_style(prog):
    """the structure that holds the current paragraph style, and the field"""
    for p, a in local_adts(prog).items():
        if a["kind"] != "struct" or "docx" not in p:
            continue
        for i, (n, t) in enumerate(prog.adt_fields(p)):
            if t is not None and t.k == "adt" and t.defpath in prog.adts and prog.adts[t.defpath]["local"] and t.defpath.endswith("DocumentStyles"):
                return p, i, t.defpath
    return None


def is_writer(f, l, w):
    t = f.lty(l)
    return t.k == "ref" and t.s.startswith("&mut") and t.arg(0).k == "adt" and t.arg(0).defpath == w


def field_of(f, p, par, idx):
    """place is exactly the style field of the writer parameter"""
    pr = [e for e in p["p"]]
    return p["l"] == par and len(pr) == 2 and pr[0][0] == "deref" and pr[1][0] == "field" and pr[1][1] == idx


class Scope:
    """is a field, at the end of a function (or of a loop's body), what it was at the start?"""

    def __init__(self, prog, writer, idx):
        self.prog, self.w, self.idx = prog, writer, idx
        self.memo, self.setters = {}, {}
        fs = [f for f in prog.bodies() if any(is_writer(f, p, writer) for p in range(1, f.argc + 1))]
        self.fns = fs
        for f in fs:
            self.memo[f.path] = True
        while True:
            ch = False
            for f in fs:
                if self.memo[f.path]:
                    par = next(p for p in range(1, f.argc + 1) if is_writer(f, p, writer))
                    if self.ends(f, par, 0, lambda b: f.blocks[b]["t"]["t"] == "return") - {E}:
                        self.memo[f.path] = False
                        ch = True
            if not ch:
                break

    def bad_blocks(self, f):
        """blocks that only lead to an error result"""
        err = set()
        for bi, b in enumerate(f.blocks):
            if any(s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("vname") == "Err" and s["place"]["l"] == 0 for s in b["s"]) or \
                    b["t"]["t"] == "call" and nm_of(b["t"]) == "from_residual":
                err.add(bi)
        return err

    def sets(self, g):
        """parameters whose value the field has at the end of a function, whatever it was"""
        if g.path not in self.setters:
            self.setters[g.path] = set()
            par = next((p for p in range(1, g.argc + 1) if is_writer(g, p, self.w)), None)
            if par is not None:
                self.setters[g.path] = {k for k in range(1, g.argc + 1) if k != par and
                                        self.ends(g, par, 0, lambda b: g.blocks[b]["t"]["t"] == "return", None, O, frozenset([k])) == {E}}
        return self.setters[g.path]

    def ends(self, f, par, start, stop, within=None, at=E, holding=frozenset()):
        err = self.bad_blocks(f)
        out, seen, first = set(), set(), True
        stk = [(start, at, holding)]
        while stk:
            b, st, held = stk.pop()
            if (b, st, held) in seen or b in err or f.blocks[b]["cleanup"] or (within is not None and b not in within):
                continue
            seen.add((b, st, held))
            h = set(held)
            aliases = set()
            for s in f.blocks[b]["s"]:
                if s["s"] != "assign":
                    continue
                pl, rv = s["place"], s["rv"]
                ops = [op_place(o) for o in rv_operands(rv)]
                if field_of(f, pl, par, self.idx):
                    st = E if any(p and not p["p"] and p["l"] in h for p in ops) else O
                elif not pl["p"]:
                    h.discard(pl["l"])
                    if rv["r"] == "use" and ops and ops[0]:
                        if field_of(f, ops[0], par, self.idx) and st == E or not ops[0]["p"] and ops[0]["l"] in h:
                            h.add(pl["l"])
            t = f.blocks[b]["t"]
            if stop(b) and not (first and within is not None):
                out.add(st)
                if within is None:
                    continue
            first = False
            if t["t"] == "call":
                c = callee(t)
                nm = nm_of(t)
                g = self.prog.fns.get(c["path"]) if c else None
                refs = [self.ref_of(f, a) for a in t["args"]]
                on_field = [i for i, p in enumerate(refs) if p is not None and field_of(f, p, par, self.idx)]
                if not t["dest"]["p"]:
                    h.discard(t["dest"]["l"])
                if on_field and (g is None or g.derived):
                    if nm == "clone" and st == E:
                        h.add(t["dest"]["l"])
                    elif nm in ("replace", "take"):
                        if st == E:
                            h.add(t["dest"]["l"])
                        st = O
                        if nm == "replace" and len(t["args"]) > 1:
                            q = op_place(t["args"][1])
                            if q and q["l"] in h:
                                st = E
                elif g is not None and any(is_writer(f, op_place(a)["l"], self.w) or self.is_reborrow(f, a, par)
                                           for a in t["args"] if op_place(a)):
                    if any(k <= len(t["args"]) and op_place(t["args"][k - 1]) and op_place(t["args"][k - 1])["l"] in h for k in self.sets(g)):
                        st = E
                    elif not self.memo.get(g.path, True):
                        st = O
                elif field_of(f, t["dest"], par, self.idx):
                    st = O
            for n in f.succ(b):
                stk.append((n, st, frozenset(h)))
        return out

    def ref_of(self, f, op):
        p = op_place(op)
        if p is None or p["p"]:
            return p
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"] and s["rv"]["r"] == "ref":
                    q = s["rv"]["place"]
                    if len(q["p"]) == 1 and q["p"][0][0] == "deref":        # reborrow of a reference
                        r = self.ref_of(f, {"copy": {"l": q["l"], "p": []}})
                        return r if r is not None and r["p"] else q
                    return q
        return p

    def is_reborrow(self, f, op, par):
        p = self.ref_of(f, op)
        return p is not None and p["l"] == par and all(e[0] == "deref" for e in p["p"])


def net_depth(prog, f, par):
    """possible numbers of entries a function leaves behind on a stack it was given"""
    out, seen = set(), set()
    stk = [(0, 0)]
    refs = {par}
    for _ in range(4):
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "ref" and rv["place"]["l"] in refs and all(e[0] == "deref" for e in rv["place"]["p"]):
                        refs.add(s["place"]["l"])
                    elif rv["r"] == "use" and op_place(rv["op"]) and op_place(rv["op"])["l"] in refs and not op_place(rv["op"])["p"]:
                        refs.add(s["place"]["l"])
    touched = 0
    while stk:
        b, d = stk.pop()
        if (b, d) in seen or f.blocks[b]["cleanup"]:
            continue
        seen.add((b, d))
        if abs(d) > 4:
            return {None}, touched
        t = f.blocks[b]["t"]
        if t["t"] == "return":
            out.add(d)
        if t["t"] == "call" and t["args"] and op_place(t["args"][0]) and op_place(t["args"][0])["l"] in refs:
            nm = nm_of(t)
            if nm in ("push", "push_back", "insert"):
                d += 1
                touched += 1
            elif nm in ("pop", "pop_back", "remove"):
                d -= 1
            elif nm in ("truncate", "clear", "drain", "retain", "split_off"):
                return {0}, touched          # set back to a remembered length: not counted here
        for n in f.succ(b):
            stk.append((n, d))
    return out, touched


def formatting(prog, rep):
    """each kind of span has a formatting of its own, added to that of the spans around it"""
    var = adt(prog, "InlineSpanVariant")
    if not var:
        return
    for f in prog.bodies():
        if not any(t.k == "adt" and t.defpath == "docx_rs::Run" for t in (f.lty(l) for l in range(len(f.locals)))):
            continue
        fn = short(f.path).rsplit("::", 1)[-1]
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                # formatting that replaces the one already there
                if s["s"] == "assign" and s["place"]["p"] and s["place"]["p"][-1][0] == "field" and f.lty(s["place"]["l"]).k == "adt" \
                        and f.lty(s["place"]["l"]).defpath.startswith("docx_rs::") and len(s["place"]["p"]) == 1:
                    rep.count("formatting_assignments")
                    old = (s["place"]["l"], s["place"]["p"][-1][1])
                    if not derives(f, rv_operands(s["rv"]), old):
                        rep.violate(f"replaced:{fn}", "formatting-kept", where(f, bi),
                                    f"{fn} replaces the formatting a run already has instead of adding to it: the formatting of the enclosing spans is lost")
            t = b["t"]
            if t["t"] != "switch":
                continue
            d = next((s for s in reversed(b["s"]) if s["s"] == "assign" and s["rv"]["r"] == "discr" and op_place(t["op"]) and
                      s["place"]["l"] == op_place(t["op"])["l"]), None)
            if d is None or not d["rv"].get("adt", "").endswith("InlineSpanVariant") and not place_is(f, d["rv"]["place"], var):
                continue
            vs = [v["name"] for v in prog.adts[var]["variants"]]
            tg = {int(v): x for v, x in t["vals"]}
            sigs = {}
            arms = {v: tg.get(i, t["else"]) for i, v in enumerate(vs)}
            if len(tg) < len(vs) - 1 and len({a for a in arms.values()}) < 3:
                continue                            # a test for one kind
            rep.count("span_kinds", len(vs))
            some = partly(prog, f, d["rv"]["place"]["l"])
            if some:
                rep.violate(f"outer:{fn}", "formatting-kept", where(f, bi),
                            f"{fn} formats text by some of the spans around it only (“{some}”): the formatting of the others is lost")
            for v, a in arms.items():
                sig = signature(f, a)
                if not sig:
                    rep.violate(f"plain:{v}", "formatting-given", where(f, bi), f"{fn} gives text in a span of the kind {v} no formatting")
                elif sig in sigs:
                    rep.violate(f"alike:{v}", "formatting-given", where(f, bi), f"{fn} formats spans of the kinds {sigs[sig]} and {v} in the same way")
                else:
                    sigs[sig] = v


def partly(prog, f, l, depth=0):
    """the name of what picks some of the elements of a collection that a value comes from"""
    seen, stk = set(), [l]
    while stk:
        l = stk.pop()
        if l in seen:
            continue
        seen.add(l)
        if 1 <= l <= f.argc and f.kind != "closure" and depth < 3 and f.lty(l).k == "ref" and "InlineSpanVariant" in f.lty(l).s and "Vec" not in f.lty(l).s:
            for g in prog.bodies():
                for _b, t in g.calls():
                    if callee(t) and callee(t)["path"] == f.path and op_place(t["args"][l - 1]):
                        r = partly(prog, g, op_place(t["args"][l - 1])["l"], depth + 1)
                        if r:
                            return r
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l:
                    stk += [op_place(o)["l"] for o in rv_operands(s["rv"]) if op_place(o)]
                    if s["rv"]["r"] in ("ref", "discr"):
                        stk.append(s["rv"]["place"]["l"])
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not b["cleanup"]:
                if nm_of(t) in PARTIAL:
                    return nm_of(t)
                stk += [op_place(a)["l"] for a in t["args"][:1] if op_place(a)]
    return None


def place_is(f, p, var):
    t = f.lty(p["l"])
    for x in p["p"]:
        t = f.ty(x[3]) if x[0] == "field" else (t.arg(0) if x[0] == "deref" and t.k in ("ref", "ptr") else t)
        if t is None:
            return False
    return t.k == "adt" and t.defpath == var


def derives(f, ops, old):
    seen, stk = set(), [op_place(o) for o in ops]
    while stk:
        p = stk.pop()
        if p is None:
            continue
        if p["l"] == old[0] and (not p["p"] or p["p"][0][0] == "field" and p["p"][0][1] == old[1]):
            return True
        if p["l"] in seen:
            continue
        seen.add(p["l"])
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"]:
                    stk += [op_place(o) for o in rv_operands(s["rv"])]
                    if s["rv"]["r"] == "ref":
                        stk.append(s["rv"]["place"])
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == p["l"]:
                stk += [op_place(a) for a in t["args"]]
    return False


def signature(f, a):
    """what the blocks only this arm leads to do with docx values"""
    out = []
    for b in sorted(x for x in f.reachable() if f.dominates(a, x) and not f.blocks[x]["cleanup"]):
        for s in f.blocks[b]["s"]:
            if s["s"] == "assign" and s["rv"]["r"] == "agg" and "docx" in str(s["rv"].get("def")):
                out.append((short(s["rv"]["def"]), s["rv"].get("vname")))
        t = f.blocks[b]["t"]
        if t["t"] == "call" and callee(t) and ("docx_rs" in callee(t)["path"] or callee(t)["path"].startswith("asciidocr::")):
            cs = tuple(str((x.get("const") or {}).get("str", (x.get("const") or {}).get("int"))) for x in t["args"] if not op_place(x))
            vs = tuple(variant_of(f, x) for x in t["args"] if op_place(x))
            out.append((short(callee(t)["path"]), cs, vs))
    return tuple(sorted(set(out), key=str))


def variant_of(f, op):
    """the variant of a freely written enum value"""
    l = op_place(op)["l"]
    for b in f.blocks:
        for s in b["s"]:
            if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"] and s["rv"]["r"] == "agg":
                return s["rv"].get("vname")
    return None


def headings(prog, rep, w, idx, styles, sc, renders):
    """blocks below a heading are not written in the style of the heading"""
    S = SymVal(prog)
    gen = [f for f in prog.bodies() if f.kind != "closure" and f.argc == 1 and f.lty(0).k == "adt" and f.lty(0).defpath == "docx_rs::Style"
           and styles in (f.lty(1).defpath if f.lty(1).k == "adt" else (f.lty(1).arg(0).defpath if f.lty(1).k == "ref" and f.lty(1).arg(0).k == "adt" else ""),)]
    bold = {v["name"] for v in prog.adts[styles]["variants"] for g in gen
            for e in S.returns(g, {1: ("enum", styles, v["name"])}) if "'docx_rs::Style::bold'" in str(e)}
    rep.count("heading_styles", len(bold))
    eff = {}
    for f in sc.fns:                                   # what a function sets the style to: a parameter, a variant, or what it was
        par = next(p for p in range(1, f.argc + 1) if is_writer(f, p, w))
        if sc.memo[f.path]:
            eff[f.path] = ("same",)
            continue
        sets = set()
        for bi, b in enumerate(f.blocks):
            for s in b["s"]:
                if s["s"] == "assign" and field_of(f, s["place"], par, idx) and not b["cleanup"]:
                    sets.add(style_value(f, s["rv"]))
        calls = [g for _b, t in f.calls() if callee(t) for g in [prog.fns.get(callee(t)["path"])] if g in sc.fns and not sc.memo[g.path]]
        eff[f.path] = next(iter(sets)) if len(sets) == 1 and not calls else ("?",)
    for f in sc.fns:
        fn = short(f.path).rsplit("::", 1)[-1]
        par = next(p for p in range(1, f.argc + 1) if is_writer(f, p, w))
        seen, stk = set(), [(0, ("entry",))]
        err = sc.bad_blocks(f)
        while stk:
            b, st = stk.pop()
            if (b, st) in seen or f.blocks[b]["cleanup"] or b in err:
                continue
            seen.add((b, st))
            for s in f.blocks[b]["s"]:
                if s["s"] == "assign" and field_of(f, s["place"], par, idx):
                    st = style_value(f, s["rv"])
            t = f.blocks[b]["t"]
            if t["t"] == "call" and callee(t):
                g = prog.fns.get(callee(t)["path"])
                if g in sc.fns:
                    if renders(g) and st[0] == "variant" and st[1] in bold:
                        rep.violate(f"heading:{fn}", "style-scope", where(f, b),
                                    f"{fn} writes blocks while the style {st[1]} of their heading is still set: they are formatted like headings")
                    e = eff[g.path]
                    if e[0] == "param":
                        a = t["args"][e[1] - 1]
                        st = style_value(f, {"r": "use", "op": a}) if op_place(a) else ("?",)
                    elif e[0] != "same":
                        st = e
            for n in f.succ(b):
                stk.append((n, st))


def style_value(f, rv):
    for _ in range(5):
        if rv["r"] == "agg":
            return ("variant", rv.get("vname"))
        p = op_place(rv["op"]) if rv["r"] == "use" else None
        if p is None or p["p"]:
            return ("?",)
        if 1 <= p["l"] <= f.argc:
            return ("param", p["l"])
        d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
        if len(d) != 1:
            return ("?",)
        rv = d[0]
    return ("?",)


def run(prog, rep):
    rep.rule("Wherever blocks are written one after the other, the paragraph style in force after one of them must be the one that was in force before it "
             "(followed through saves, restores and every function that gets the writer).")
    rep.rule("A function that is given the stack of enclosing spans leaves it as long as it found it on every path.")
    rep.rule("Each kind of span is given a formatting of its own, and formatting is only ever added to what a run already has.")
    got = writer_and_style(prog)
    if not got:
        rep.violate("missing:style", "anchor", "-", "the docx writer no longer keeps a current paragraph style")
        return
    w, idx, styles = got
    sc = Scope(prog, w, idx)
    rep.count("functions_with_the_writer", len(sc.fns))
    blk = adt(prog, "Block")
    cg = prog.callgraph()

    def renders(g):
        return any(g.lty(p).k == "ref" and g.lty(p).arg(0).k == "adt" and g.lty(p).arg(0).defpath == blk for p in range(1, g.argc + 1))
    for f in prog.bodies():
        loops = f.loops()
        for head, body in (loops.items() if isinstance(loops, dict) else loops):
            calls = []
            for bi in body:
                t = f.blocks[bi]["t"]
                if t["t"] == "call" and callee(t):
                    g = prog.fns.get(callee(t)["path"])
                    if g is not None and g in sc.fns and renders(g):
                        calls.append((bi, t, g))
            if not calls:
                continue
            rep.count("block_loops")
            par = next((p for p in range(1, f.argc + 1) if is_writer(f, p, w)), None)
            if par is None:
                bad = [g for _b, _t, g in calls if not sc.memo[g.path]]
            else:
                back = {b for b in body if head in f.succ(b)}
                ends = sc.ends(f, par, head, lambda b: b in back, set(body))
                bad = [g for _b, _t, g in calls] if ends - {E} else []
            for g in bad[:1]:
                fn = short(g.path).rsplit("::", 1)[-1]
                rep.violate(f"style:{fn}", "style-scope", where(f, calls[0][0]),
                            f"after {fn} has written a block, the paragraph style may be another one than before: the next block in "
                            f"{short(f.path).rsplit('::', 1)[-1]} is written in the style of this one")
    var = adt(prog, "InlineSpanVariant")
    for f in prog.bodies():
        for p in range(1, f.argc + 1):
            t = f.lty(p)
            if f.kind != "closure" and t.s.startswith("&mut") and t.arg(0) is not None and t.arg(0).k == "adt" and \
                    t.arg(0).defpath.endswith(("Vec", "VecDeque")) and var and "InlineSpanVariant" in t.s:
                rep.count("span_stacks")
                d, n = net_depth(prog, f, p)
                rep.count("pushes_onto_span_stacks", n)
                if d - {0}:
                    fn = short(f.path).rsplit("::", 1)[-1]
                    rep.violate(f"spans:{fn}", "span-scope", f"{f.file}:{f.line}",
                                f"{fn} may leave the stack of enclosing spans longer or shorter than it found it: text after a nested span is formatted "
                                f"like the text inside of it")
    formatting(prog, rep)
    headings(prog, rep, w, idx, styles, sc, renders)
    rep.floor("block_loops", 4)
    if not rep.counts.get("span_stacks"):
        rep.note("no function shares a stack of spans with its caller: nothing to balance")
    rep.assume("setting the stack back by truncating it to a length is taken to be a remembered one")
