"""Every style and numbering a docx paragraph refers to is defined in the document."""
from linear import nm_of
from mir import callee, short, rv_operands
from flow import op_place
from symval import SymVal, TOP
from props.p25 import Scope, writer_and_style, field_of, is_writer
from props.p03 import where


def norm(e):
    """expression of a string, as text pieces: format!("{} Title", x) and x + " Title" are the same"""
    if e[0] == "str":
        return (e[1],)
    if e[0] == "call" and e[1].endswith("Arguments::new") and len(e[2]) == 2 and e[2][0][0] == "str":
        vals = [v for _n, v in e[2][1][3]] if e[2][1][0] == "agg" else [e[2][1]]
        return ("fmt", e[2][0][1], tuple(norm(v[2][0]) if v[0] == "call" else v for v in vals))
    if e[0] == "call" and len(e[2]) == 1 and e[1].rsplit("::", 1)[-1] in ("new", "from"):
        return norm(e[2][0])
    return ("expr",) + tuple(map(str, e))


def ids_of(e):
    """(id, names of other styles referred to) of an expression that builds a style"""
    refs = []
    while True:
        if e[0] == "agg" and e[1].endswith("::Style"):
            d = dict(e[3])
            return d.get("style_id", TOP), refs
        if e[0] == "call" and e[1].startswith("docx_rs::Style::") and e[2]:
            nm = e[1].rsplit("::", 1)[-1]
            if nm == "new":
                return e[2][0], refs
            if nm in ("based_on", "next", "link") and len(e[2]) > 1:
                refs.append((nm, e[2][1]))
            e = e[2][0]
            continue
        return TOP, refs


def show(n):
    return "".join(n[:1]) if len(n) == 1 else (repr(n[1]) if n[0] == "fmt" else "?")


def run(prog, rep):
    rep.rule("For each kind of paragraph style, the id a paragraph refers to is the id of the style that is generated for it; both are computed "
             "as expressions over the parameters of the style.")
    rep.rule("Every value the current style is set to is one the document always has, one that was saved before, or is generated and added to the document "
             "on every path that follows.")
    rep.rule("Every change of the number list items refer to is followed on every path by adding that numbering to the document; the "
             "abstract numbering it is made of is added too.")
    got = writer_and_style(prog)
    if not got:
        rep.violate("missing:style", "anchor", "-", "the docx writer no longer keeps a current paragraph style")
        return
    w, idx, styles = got
    S = SymVal(prog)
    idf = [f for f in prog.bodies() if f.kind != "closure" and f.argc == 1 and ref_to(f, styles) and f.lty(0).s.endswith("string::String") and not f.derived and not trait_impl(f)]
    gen = [f for f in prog.bodies() if f.kind != "closure" and f.argc == 1 and ref_to(f, styles) and f.lty(0).k == "adt" and f.lty(0).defpath == "docx_rs::Style"]
    if not idf or not gen:
        rep.violate("missing:style-functions", "anchor", "-", "no function gives the id of a style, or generates it")
        return
    # the styles of the empty document
    base = set()
    for f in prog.bodies():
        if f.lty(0).k == "adt" and f.lty(0).defpath == "docx_rs::Docx" and f.argc == 0:
            for e in S.returns(f, {}):
                while e[0] == "call" and e[1].startswith("docx_rs::Docx::") and e[2]:
                    if e[1].endswith("::add_style") and len(e[2]) > 1:
                        i, _r = ids_of(e[2][1])
                        if i[0] == "str":
                            base.add(i[1])
                    e = e[2][0]
            if not base:
                # in a loop or the like: the styles named in what it calls
                for v in mentioned(prog, f, styles):
                    for g in gen:
                        for x in S.returns(g, {1: ("enum", styles, v)}):
                            i, _r = ids_of(x)
                            if i[0] == "str":
                                base.add(i[1])
    rep.count("styles_of_the_empty_document", len(base))
    same, referred = {}, []
    for v in prog.adts[styles]["variants"]:
        a = {1: ("enum", styles, v["name"])}
        got = {norm(x) for f in idf for x in S.returns(f, a)}
        made, opaque = set(), False
        for g in gen:
            for x in S.returns(g, a):
                i, refs = ids_of(x)
                if i == TOP:
                    opaque = True
                made.add(norm(i))
                referred += [(v["name"], k, r) for k, r in refs]
        rep.count("kinds_of_style")
        if opaque or any(x[0] == "expr" for x in got | made):
            rep.note(f"the id of {v['name']} could not be computed")
            continue
        rep.count("ids_compared")
        rep.sample(f"style {v['name']}: {sorted(map(show, got))}")
        if got != made:
            rep.violate(f"id:{v['name']}", "style-id", f"{idf[0].file}:{idf[0].line}",
                        f"paragraphs of the style {v['name']} refer to {'/'.join(sorted(map(show, got)))}, but the style added to the document is "
                        f"{'/'.join(sorted(map(show, made)))}")
        same[v["name"]] = got
    ids = {}
    for v, g in same.items():
        for x in g:
            if x in ids:
                rep.violate(f"shared:{v}", "style-id", f"{idf[0].file}:{idf[0].line}",
                            f"the styles {ids[x]} and {v} have the same id: whichever is used first formats the paragraphs of both")
            ids[x] = v
    base_variants = {v for v, g in same.items() if all(len(x) == 1 and x[0] in base for x in g)}
    for v, k, r in referred:
        rep.count("styles_built_on_others")
        if r[0] == "str" and r[1] not in base:
            rep.violate(f"{k}:{v}", "style-reference", f"{gen[0].file}:{gen[0].line}",
                        f"the style {v} is {'based on' if k == 'based_on' else 'followed by'} “{r[1]}”, which documents do not always have")
    rep.floor("ids_compared", 8)
    rep.floor("styles_of_the_empty_document", 1)
    uses(prog, rep, S, w, idx, styles, base, base_variants, {g.path for g in gen}, {f.path for f in idf})
    numberings(prog, rep, w)


def trait_impl(f):
    return " as " in f.path and "Display" not in f.path and "ToString" not in f.path and "From" not in f.path


def ref_to(f, a):
    t = f.lty(1)
    return (t.k == "ref" and t.arg(0).k == "adt" and t.arg(0).defpath == a) or (t.k == "adt" and t.defpath == a)


def mentioned(prog, f, styles):
    """variants of an enum that a function, or one it calls, writes"""
    out, seen, stk = set(), set(), [f]
    while stk:
        g = stk.pop()
        if g is None or g.path in seen or len(seen) > 40:
            continue
        seen.add(g.path)
        for b in g.blocks:
            for s in b["s"]:
                if s["s"] != "assign":
                    continue
                if s["rv"]["r"] == "agg" and s["rv"].get("def") == styles:
                    out.add(s["rv"]["vname"])
                stk += [promoted(prog, o) for o in rv_operands(s["rv"])]
            t = b["t"]
            if t["t"] == "call":
                stk += [promoted(prog, o) for o in t["args"]]
                if callee(t):
                    stk.append(prog.fns.get(callee(t)["path"]))
    return out


def promoted(prog, op):
    c = op.get("const") or {}
    return prog.fns.get(c["of"] + "{promoted#%d}" % c["promoted"]) if "promoted" in c else None


def adders(prog, gen):
    """functions that add a style to the document"""
    out = set()
    while True:
        n = len(out)
        for f in prog.bodies():
            if f.path not in out and any(callee(t) and (short(callee(t)["path"]).endswith("Docx::add_style") or callee(t)["path"] in out) for _b, t in f.calls()):
                if any(f.lty(p).k == "adt" and f.lty(p).defpath == "docx_rs::Style" for p in range(1, f.argc + 1)):
                    out.add(f.path)
        if len(out) == n:
            return out


def feeds_add(f, l, adds, seen=None):
    """the style in a local is added to the document"""
    seen = seen or set()
    if l in seen:
        return set()
    seen.add(l)
    out = set()
    for bi, b in enumerate(f.blocks):
        for s in b["s"]:
            if s["s"] == "assign" and any(op_place(o) and op_place(o)["l"] == l for o in rv_operands(s["rv"])) and not s["place"]["p"]:
                out |= feeds_add(f, s["place"]["l"], adds, seen)
        t = b["t"]
        if t["t"] == "call" and callee(t) and any(op_place(a) and op_place(a)["l"] == l for a in t["args"]):
            if short(callee(t)["path"]).endswith("Docx::add_style") or callee(t)["path"] in adds:
                out.add(bi)
            elif t["dest"]["l"] != l and "Style" in f.lty(t["dest"]["l"]).s:
                out |= feeds_add(f, t["dest"]["l"], adds, seen)
    return out


def err_blocks(f):
    return {bi for bi, b in enumerate(f.blocks)
            if any(s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("vname") == "Err" and s["place"]["l"] == 0 for s in b["s"])
            or b["t"]["t"] == "call" and nm_of(b["t"]) == "from_residual"}


def always(f, start, hits, err):
    """every path from a block to a normal return passes one of the blocks"""
    seen, stk = set(), [start]
    while stk:
        b = stk.pop()
        if b in seen or b in hits or b in err or f.blocks[b]["cleanup"]:
            continue
        seen.add(b)
        if f.blocks[b]["t"]["t"] == "return":
            return False
        stk += f.succ(b)
    return True


def uses(prog, rep, S, w, idx, styles, base, base_variants, gen, idf):
    adds = adders(prog, gen)
    sc = Scope(prog, w, idx)
    defs = {}
    for f in prog.bodies():
        fn = short(f.path).rsplit("::", 1)[-1]
        par = next((p for p in range(1, f.argc + 1) if is_writer(f, p, w)), None)
        added = {}                              # block of a call that generates a style -> blocks that add it
        for bi, t in f.calls():
            if callee(t) and callee(t)["path"] in gen:
                added[bi] = feeds_add(f, t["dest"]["l"], adds)
        hits = set().union(*added.values()) if added else set()
        err = err_blocks(f)
        if par is not None:
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] == "assign" and field_of(f, s["place"], par, idx):
                        rep.count("places_that_set_the_style")
                        src = origin(f, rv_operands(s["rv"]), s["rv"])
                        if src == "saved" or (src[0] == "variant" and src[1] in base_variants):
                            continue
                        l = local_root(f, rv_operands(s["rv"]))
                        if any(f.dominates(h, bi) for g, hs in added.items() for h in hs if l is not None and local_root(f, f.blocks[g]["t"]["args"]) == l):
                            continue                # added ahead of setting it
                        if not always(f, bi, hits, err):
                            rep.violate(f"unadded:{fn}", "style-added", where(f, bi),
                                        f"{fn} may set the current style without adding it to the document: paragraphs refer to a style that is not there")
        # ids that are given to paragraphs
        for bi, t in f.calls():
            if callee(t) and short(callee(t)["path"]) in ("docx_rs::Paragraph::style", "docx_rs::Table::style", "docx_rs::Run::style") and len(t["args"]) == 2:
                rep.count("paragraph_styles")
                c = const_text(f, t["args"][1])
                if "str" in c:
                    if c["str"] not in base:
                        rep.violate(f"style:{c['str']}", "style-added", where(f, bi), f"{fn} refers to the style “{c['str']}”, which documents do not always have")
                    continue
                v = id_variant(prog, f, t["args"][1], idf)
                if v and v not in base_variants:
                    sets = {b for b, u in f.calls() if callee(u) and any(made(prog, f, a) == v for a in u["args"] if op_place(a))
                            and callee(u)["path"] not in idf and sets_style(prog, callee(u)["path"], gen, adds)}
                    if not any(f.dominates(b, bi) for b in sets):
                        rep.violate(f"style:{v}", "style-added", where(f, bi), f"{fn} refers to the style {v} without adding it to the document")
    rep.floor("paragraph_styles", 2)


def const_text(f, op):
    for _ in range(6):
        p = op_place(op)
        if p is None:
            return op.get("const") or {}
        d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
        if len(d) != 1:
            return {}
        if d[0]["r"] == "use":
            op = d[0]["op"]
        elif d[0]["r"] == "ref" and all(e[0] == "deref" for e in d[0]["place"]["p"]):
            op = {"copy": {"l": d[0]["place"]["l"], "p": []}}
        else:
            return {}
    return {}


def local_root(f, ops):
    p = op_place(ops[0]) if ops else None
    for _ in range(6):
        if p is None or any(e[0] != "deref" for e in p["p"]):
            return None
        d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
        if len(d) != 1 or d[0]["r"] not in ("use", "ref"):
            return p["l"]
        q = op_place(d[0]["op"]) if d[0]["r"] == "use" else d[0]["place"]
        if q is None:
            return p["l"]
        p = q
    return None


def sets_style(prog, path, gen, adds):
    g = prog.fns.get(path)
    if g is None:
        return False
    for bi, t in g.calls():
        if callee(t) and callee(t)["path"] in gen and feeds_add(g, t["dest"]["l"], adds):
            return True
    return path in gen


def made(prog, f, op, depth=0):
    """the variant of an enum value that is written here"""
    g = promoted(prog, op)
    if g is not None:
        return next((s["rv"].get("vname") for b in g.blocks for s in b["s"] if s["s"] == "assign" and s["rv"]["r"] == "agg"), None)
    if op_place(op) is None or depth > 5:
        return None
    l = op_place(op)["l"]
    for b in f.blocks:
        for s in b["s"]:
            if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                if s["rv"]["r"] == "agg":
                    return s["rv"].get("vname")
                if s["rv"]["r"] == "use":
                    return made(prog, f, s["rv"]["op"], depth + 1)
                if s["rv"]["r"] == "ref":
                    return made(prog, f, {"copy": {"l": s["rv"]["place"]["l"], "p": []}}, depth + 1) \
                        if all(e[0] == "deref" for e in s["rv"]["place"]["p"]) else None
    return None


def id_variant(prog, f, op, idf):
    """the variant of the style whose id this is, if it is written here"""
    l, seen = op_place(op)["l"], set()
    while l not in seen:
        seen.add(l)
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    q = op_place(s["rv"]["op"]) if s["rv"]["r"] == "use" else (s["rv"]["place"] if s["rv"]["r"] == "ref" else None)
                    if q:
                        l = q["l"]
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and not t["dest"]["p"] and callee(t) and t["args"] and op_place(t["args"][0]):
                if callee(t)["path"] in idf:
                    return made(prog, f, t["args"][0])
                l = op_place(t["args"][0])["l"]
    return None


def origin(f, ops, rv):
    """where a style that is assigned comes from: saved earlier, or a variant written here"""
    if rv["r"] == "agg":
        return ("variant", rv.get("vname")) if not rv_operands(rv) else ("built", None)
    p = op_place(ops[0]) if ops else None
    if p is None or p["p"]:
        return ("?",)
    l, seen = p["l"], set()
    while l not in seen:
        seen.add(l)
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == l and not s["place"]["p"]:
                    if s["rv"]["r"] == "agg":
                        return ("variant", s["rv"].get("vname")) if not rv_operands(s["rv"]) else ("built", None)
                    q = op_place(s["rv"]["op"]) if s["rv"]["r"] == "use" else None
                    if q and q["p"]:
                        return "saved" if q["p"][-1][0] == "field" else ("?",)
                    if q:
                        l = q["l"]
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == l and nm_of(t) in ("clone", "replace", "take"):
                return "saved"
    return ("?",)


def numberings(prog, rep, w):
    """the writer's field that is given to NumberingId::new"""
    idx = set()
    for f in prog.bodies():
        for bi, t in f.calls():
            if callee(t) and short(callee(t)["path"]).endswith("NumberingId::new"):
                rep.count("numbering_references")
                p = root(f, t["args"][0])
                if p and p["p"] and p["p"][-1][0] == "field" and len(p["p"][-1]) > 4 and p["p"][-1][4] == w:
                    idx.add(p["p"][-1][1])
                elif p is None and "const" in t["args"][0]:
                    rep.violate("numbering:const", "numbering-defined", where(f, bi), "list items refer to a fixed numbering")
                else:
                    rep.note("a numbering that is not the writer's is referred to: " + short(f.path))
    for f in prog.bodies():
        fn = short(f.path).rsplit("::", 1)[-1]
        err = err_blocks(f)
        num = {bi for bi, t in f.calls() if callee(t) and short(callee(t)["path"]).endswith("Docx::add_numbering")}
        absn = {bi for bi, t in f.calls() if callee(t) and short(callee(t)["path"]).endswith("Docx::add_abstract_numbering")}
        for g in prog.bodies():
            if g is not f and any(callee(t) and short(callee(t)["path"]).endswith("Docx::add_numbering") for _b, t in g.calls()) and \
                    always(g, 0, {bi for bi, t in g.calls() if callee(t) and short(callee(t)["path"]).endswith("Docx::add_numbering")}, err_blocks(g)):
                num |= {bi for bi, t in f.calls() if callee(t) and callee(t)["path"] == g.path}
            if g is not f and any(callee(t) and short(callee(t)["path"]).endswith("Docx::add_abstract_numbering") for _b, t in g.calls()) and \
                    always(g, 0, {bi for bi, t in g.calls() if callee(t) and short(callee(t)["path"]).endswith("Docx::add_abstract_numbering")}, err_blocks(g)):
                absn |= {bi for bi, t in f.calls() if callee(t) and callee(t)["path"] == g.path}
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                pl = s.get("place")
                if s["s"] == "assign" and pl["p"] and pl["p"][-1][0] == "field" and len(pl["p"][-1]) > 4 and pl["p"][-1][4] == w and pl["p"][-1][1] in idx:
                    rep.count("numbering_changes")
                    # restoring a number that was in force before
                    if origin(f, rv_operands(s["rv"]), s["rv"]) == "saved" and not grows(f, s["rv"]):
                        continue
                    for hits, what in ((num, "numbering"), (absn, "abstract numbering")):
                        if not always(f, bi, hits, err):
                            rep.violate(f"{what.replace(' ', '-')}:{fn}", "numbering-defined", where(f, bi),
                                        f"{fn} counts up the numbering of lists, but on some path does not add the {what} to the document: items refer to a "
                                        f"numbering that is not defined")
        # numbering n is made of the abstract numbering n
        for bi, t in f.calls():
            if callee(t) and short(callee(t)["path"]).endswith("docx_rs::Numbering::new") and len(t["args"]) == 2:
                rep.count("numberings")
                num_id, abs_id = (source(f, a) for a in t["args"])
                if num_id[0] in ("field", "const") and idx and num_id not in [("field", i) for i in idx]:
                    rep.violate(f"numbering-id:{fn}", "numbering-defined", where(f, bi), f"the numbering {fn} adds is not the one list items refer to")
                made_ids = set()
                for _b, u in f.calls():
                    if callee(u) and u["dest"] and f.lty(u["dest"]["l"]).k == "adt" and f.lty(u["dest"]["l"]).defpath == "docx_rs::AbstractNumbering":
                        g = prog.fns.get(callee(u)["path"])
                        if g is None and nm_of(u) == "new":
                            made_ids.add(source(f, u["args"][0]))
                        elif g is not None:
                            for e in SymVal(prog).returns(g, {i + 1: ("param", i) for i in range(g.argc)}):
                                while e[0] == "call" and e[1].startswith("docx_rs::AbstractNumbering::") and not e[1].endswith("::new"):
                                    e = e[2][0]
                                e = e[2][0] if e[0] == "call" and e[1].endswith("AbstractNumbering::new") else TOP
                                made_ids.add(source(f, u["args"][e[1]]) if e[0] == "param" else (("const", str(e[1])) if e[0] == "int" else ("?",)))
                made_ids = {x for x in made_ids if x[0] in ("field", "const")}
                if made_ids and abs_id[0] in ("field", "const") and made_ids != {abs_id}:
                    rep.violate(f"abstract-id:{fn}", "numbering-defined", where(f, bi), f"the numbering {fn} adds is made of an abstract numbering that is not the one added with it")
    # each list has a numbering of its own
    def changes(f):
        return {bi for bi, b in enumerate(f.blocks) for s in b["s"] if s["s"] == "assign" and s["place"]["p"] and
                s["place"]["p"][-1][0] == "field" and len(s["place"]["p"][-1]) > 4 and s["place"]["p"][-1][4] == w and s["place"]["p"][-1][1] in idx and grows(f, s["rv"])}

    def fresh(f, bi, seen=()):
        ch = changes(f)
        if bi in ch:
            return True
        if goes(f, f.succ(bi), bi, ch):
            return False                        # again, without a change in between
        if ch and not goes(f, [0], bi, ch):
            return True
        sites = [(g, b) for g in prog.bodies() for b, t in g.calls() if callee(t) and callee(t)["path"] == f.path]
        return bool(sites) and f.path not in seen and all(fresh(g, b, seen + (f.path,)) for g, b in sites)
    if idx:
        for f in prog.bodies():
            for bi, t in f.calls():
                if callee(t) and short(callee(t)["path"]).endswith("Docx::add_numbering"):
                    rep.count("numberings_added")
                    if not fresh(f, bi):
                        fn = short(f.path).rsplit("::", 1)[-1]
                        rep.violate(f"shared-numbering:{fn}", "numbering-own", where(f, bi),
                                    f"{fn} may add a numbering without having counted up: two lists then share one numbering and go on counting in each other")
        for f in prog.bodies():
            ch = changes(f)
            for bi, b in enumerate(f.blocks):
                for s in b["s"]:
                    if s["s"] == "assign" and s["place"]["p"] and s["place"]["p"][-1][0] == "field" and len(s["place"]["p"][-1]) > 4 and \
                            s["place"]["p"][-1][4] == w and s["place"]["p"][-1][1] in idx and not grows(f, s["rv"]) and any(changes(g) for g in prog.bodies()):
                        fn = short(f.path).rsplit("::", 1)[-1]
                        rep.violate(f"reused-numbering:{fn}", "numbering-own", where(f, bi),
                                    f"{fn} sets the count of numberings back: the next list uses a number that another list already has")
    rep.floor("numbering_references", 1)
    if idx:
        rep.floor("numbering_changes", 1)


def goes(f, starts, to, avoid):
    seen, stk = set(), list(starts)
    while stk:
        b = stk.pop()
        if b in avoid or b in seen or f.blocks[b]["cleanup"]:
            continue
        if b == to:
            return True
        seen.add(b)
        stk += f.succ(b)
    return False


def source(f, op):
    c = op.get("const") or {}
    if op_place(op) is None:
        return ("const", str(c.get("int", c.get("uint", c.get("bits")))))
    p = root(f, op)
    if p is not None and p["p"] and p["p"][-1][0] == "field":
        return ("field", p["p"][-1][1])
    return ("?",)


def grows(f, rv):
    seen, stk = set(), rv_operands(rv)
    while stk:
        p = op_place(stk.pop())
        if p is None or p["l"] in seen:
            continue
        seen.add(p["l"])
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"]:
                    if s["rv"]["r"] == "bin":
                        return True
                    stk += rv_operands(s["rv"])
    return False


def root(f, op):
    p = op_place(op)
    seen = set()
    while p is not None and not p["p"] and p["l"] not in seen:
        seen.add(p["l"])
        for b in f.blocks:
            q = next((s for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]), None)
            if q is not None:
                n = op_place(q["rv"]["op"]) if q["rv"]["r"] in ("use",) else None
                if n is not None:
                    p = n
                break
    return p
