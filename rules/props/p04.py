"""Attributes, ids and roles declared ahead of a block belong to that block."""
from collections import defaultdict
from content import content_types, adt, state_fields, roots, Newness
from linear import Linear, FULL, READ, nm_of
from mir import callee, short, rv_operands
from flow import op_place
from props.p03 import where


def merges(prog, meta):
    """functions that add one set of metadata to another: (function, receiver, source)"""
    for f in prog.bodies():
        if f.derived or f.kind == "closure" or f.argc < 2:
            continue
        ps = [p for p in range(1, f.argc + 1) if f.lty(p).k == "ref" and f.lty(p).arg(0) is not None and
              f.lty(p).arg(0).k == "adt" and f.lty(p).arg(0).defpath == meta]
        if len(ps) == 2 and f.lty(ps[0]).s.startswith("&mut") and not f.lty(ps[1]).s.startswith("&mut"):
            yield f, ps[0], ps[1]


def field_flow(f, dst, src):
    """pairs (field of src, field of dst): values read from one are put into the other"""
    taint = defaultdict(set)         # local -> fields of src

    def of(p):
        out = set(taint[p["l"]])
        if p["l"] == src:
            fl = [e[2] for e in p["p"] if e[0] == "field"]
            out |= set(fl[:1])
        return out
    pairs = set()
    ref_to = {}                       # local -> field of dst it refers into
    while True:
        before = (sum(map(len, taint.values())), len(ref_to), len(pairs))
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign":
                    continue
                got = set()
                for o in rv_operands(s["rv"]):
                    if op_place(o):
                        got |= of(op_place(o))
                        if op_place(o)["l"] in ref_to and not s["place"]["p"]:
                            ref_to[s["place"]["l"]] = ref_to[op_place(o)["l"]]
                if s["rv"]["r"] == "ref":
                    q = s["rv"]["place"]
                    got |= of(q)
                    fl = [e[2] for e in q["p"] if e[0] == "field"]
                    if q["l"] == dst and fl:
                        ref_to[s["place"]["l"]] = fl[0]
                    elif q["l"] in ref_to:
                        ref_to[s["place"]["l"]] = ref_to[q["l"]]
                pl = s["place"]
                fl = [e[2] for e in pl["p"] if e[0] == "field"]
                if pl["l"] == dst and fl:
                    pairs |= {(g, fl[0]) for g in got}
                elif pl["l"] in ref_to and pl["p"]:
                    pairs |= {(g, ref_to[pl["l"]]) for g in got}
                elif not pl["p"] or got:
                    taint[pl["l"]] |= got
            t = b["t"]
            if t["t"] == "call":
                got = set()
                for a in t["args"]:
                    if op_place(a):
                        got |= of(op_place(a))
                for a in t["args"]:
                    q = op_place(a)
                    if q and q["l"] in ref_to and got:
                        pairs |= {(g, ref_to[q["l"]]) for g in got}
                d = t["dest"]
                taint[d["l"]] |= got
                for a in t["args"][:1]:
                    q = op_place(a)
                    if q and q["l"] in ref_to:
                        ref_to[d["l"]] = ref_to[q["l"]]
        if (sum(map(len, taint.values())), len(ref_to), len(pairs)) == before:
            return pairs


def run(prog, rep):
    rep.rule("Metadata that the parser keeps for the next block is followed through every function it can reach: wherever a block that was "
             "just made is put on the stack, into a parent or into the document, the pending metadata must have been taken before.")
    rep.rule("Metadata is never dropped, cleared or overwritten unread on a path that succeeds, and combining two sets of it combines "
             "attributes, options and roles alike.")
    meta, parser, tok = adt(prog, "ElementMetadata"), adt(prog, "Parser"), adt(prog, "Token")
    entry = [f for f in prog.find("Parser::parse") if f.short.endswith("Parser::parse")]
    if not meta or not parser or not entry:
        rep.violate("missing:metadata", "anchor", "-", "the metadata type, the parser or its entry point is gone")
        return
    enums, core = content_types(prog)
    blk = {p for p in enums if p.endswith("::Block")}
    lin = Linear(prog, lambda t: t.k == "adt" and t.defpath == meta, lambda t: t.k == "adt" and t.defpath == tok, ())
    lin.opening = False
    cont = Linear(prog, lambda t: t.k == "adt" and t.defpath in core, lambda t: t.k == "adt" and t.defpath == tok, enums)
    inline_meta = inline_only(prog, parser, lin)
    for f in prog.bodies():
        if f.derived:
            continue
        for kind, b, origin, ty in lin.run(f):
            if kind == "overwritten" and origin.rsplit(".", 1)[-1] in inline_meta:
                # one style per span: the scanner only finds one directly ahead of a span
                lin.opening = True
                again = [x for x in lin.run(f) if x[0] == kind and x[2] == origin]
                lin.opening = False
                if not again:
                    continue
            fn = short(f.path).rsplit("::", 1)[-1]
            rep.violate(f"lost:{fn}:{kind}:{origin}", "use-once", where(f, b), f"{origin} (metadata) is {kind} in {fn} although nothing has taken it")
    for k, n in lin.counts.items():
        rep.count(k, n)
    new = Newness(prog, cont)
    for i, name, ty in state_fields(prog, lin, parser):
        if name in inline_meta:
            spans(prog, rep, lin, parser, i, name)
            continue
        rep.count("pending_fields")
        stores = set()

        def at_call(f, b, t, st, _extra):
            c = callee(t)
            if not c or len(t["args"]) < 2:
                return
            ty0 = f.ty(t["atys"][0])
            if not ty0.s.startswith("&mut") or ty0.arg(0).k == "adt" and ty0.arg(0).defpath == parser:
                return
            for ai in range(1, len(t["args"])):
                aty = f.ty(t["atys"][ai])
                if not (aty.k == "adt" and aty.defpath in blk and "move" in t["args"][ai]):
                    continue
                r = roots(f, t["args"][0])
                if not (r - {None}) or not new.new(f, t["args"][ai]):
                    continue
                stores.add((f.path, b))
                if st == FULL:
                    fn = short(f.path).rsplit("::", 1)[-1]
                    rep.violate(f"pending:{fn}:{nm_of(t)}", "applied-first", where(f, b),
                                f"{fn} stores a new block while metadata declared ahead of it may still be pending: the block does not get it, "
                                f"a later one does")
                elif st == READ:
                    fn = short(f.path).rsplit("::", 1)[-1]
                    rep.violate(f"kept:{fn}:{nm_of(t)}", "applied-once", where(f, b),
                                f"{fn} stores a new block whose metadata was copied, not taken: the next block gets it as well")
        ctx = lin.everywhere(entry[0], 1, (("deref",), ("f", i)), FULL, at_call)
        rep.count("places_that_store_new_blocks", len(stores))
        rep.count("functions_followed", len({c[0] for c in ctx}))
    fields = [n for n, t in prog.adt_fields(meta) if t.k == "adt" and t.defpath.rsplit("::", 1)[-1] in ("Vec", "HashMap", "BTreeMap", "HashSet")
              and any("String" in x.s for x in t.argl())]
    for f, d, s in merges(prog, meta):
        rep.count("merges")
        pairs = field_flow(f, d, s)
        for n in fields:
            if (n, n) not in pairs:
                rep.violate(f"merge:{n}", "merge", f"{f.file}:{f.line}", f"{f.short} does not carry '{n}' over to '{n}' of the combined metadata")
        for a, b in pairs:
            if a != b and a in fields and b in fields:
                rep.violate(f"merge:{a}->{b}", "merge", f"{f.file}:{f.line}", f"{f.short} puts '{a}' into '{b}'")
    # metadata taken apart: whoever moves one part out has to see to the others as well
    for f in prog.bodies():
        if f.derived:
            continue
        moved, used = defaultdict(set), defaultdict(set)
        for bi, si, o in operands(f):
            for p, how in o:
                for n, e in enumerate(p["p"]):
                    if e[0] == "field" and len(e) > 4 and e[4] == meta and e[2] in fields:
                        base = (p["l"], str(p["p"][:n]))
                        used[base].add(e[2])
                        if how == "move" and n == len(p["p"]) - 1 and not any(x[0] == "deref" for x in p["p"]):
                            moved[base].add((e[2], bi))
        for base, got in moved.items():
            rep.count("taken_apart")
            for n in fields:
                if n not in used[base]:
                    rep.violate(f"apart:{f.short}:{n}", "use-once", where(f, min(b for _n, b in got)),
                                f"{f.short} takes {', '.join(sorted(x for x, _b in got))} out of metadata and drops its {n}")
    collected(prog, rep, meta, fields)
    rep.floor("pending_fields", 1)
    rep.floor("places_that_store_new_blocks", 4)
    rep.floor("merges", 1)
    rep.assume("metadata without any attribute, option or role has nothing to apply")


SHRINK = {"clear", "truncate", "drain", "pop", "retain", "take", "remove", "swap_remove", "remove_entry", "split_off", "pop_front", "pop_back", "dedup"}
GROW = {"insert", "push", "extend", "append", "extend_from_slice", "or_insert", "or_insert_with", "push_back", "get_mut", "entry", "and_modify", "insert_entry"}
PART = {"take", "step_by", "take_while", "truncate", "map_while"}


def collected(prog, rep, meta, fields):
    """what is written in attribute lists is collected: added to what is there, all of it"""
    every = {n for n, _t in prog.adt_fields(meta)}
    adders = {}
    for f in prog.bodies():
        if f.derived or f.kind == "closure" or f.argc < 1:
            continue
        t = f.lty(1)
        if t.k == "ref" and t.s.startswith("&mut") and t.arg(0).k == "adt" and t.arg(0).defpath == meta:
            adders[f.path] = f

    def fields_of(f):
        """locals that borrow a field of the metadata in parameter 1, and locals that are the parameter"""
        ref, me = {}, {1}
        while True:
            n = len(ref) + len(me)
            for bi, b in enumerate(f.blocks):
                for s in b["s"]:
                    if s["s"] != "assign" or s["place"]["p"]:
                        continue
                    q = s["rv"]["place"] if s["rv"]["r"] == "ref" else next((op_place(o) for o in rv_operands(s["rv"]) if op_place(o)), None) \
                        if s["rv"]["r"] == "use" else None
                    if q is None:
                        continue
                    fl = [e[2] for e in q["p"] if e[0] == "field"]
                    if q["l"] in me and fl and s["rv"]["r"] == "ref":
                        ref[s["place"]["l"]] = fl[0]
                    elif q["l"] in me and not fl and all(e[0] == "deref" for e in q["p"]):
                        me.add(s["place"]["l"])
                    elif q["l"] in ref:
                        ref[s["place"]["l"]] = ref[q["l"]]
                t = b["t"]
                if t["t"] == "call" and t["args"] and op_place(t["args"][0]) and op_place(t["args"][0])["l"] in ref and callee(t) \
                        and callee(t)["name"] in ("deref_mut", "entry", "or_default", "or_insert", "or_insert_with", "get_mut", "iter_mut", "as_mut"):
                    ref[t["dest"]["l"]] = ref[op_place(t["args"][0])["l"]]
            if len(ref) + len(me) == n:
                return ref, me

    # everything that reads a list of attributes reads all of it
    readers = dict(adders)
    for f in prog.bodies():
        if not f.derived and f.kind != "closure" and f.lty(0).k == "adt" and f.lty(0).defpath == meta:
            readers[f.path] = f
    for f in list(readers.values()):
        for c, info, bi, o in prog.callgraph().get(f.path, []):
            g = prog.fns.get(c)
            if g is not None and not g.derived and "String" in g.lty(0).s:
                readers[c] = g
    for path, f in sorted(readers.items()):
        rep.count("readers_of_attributes")
        for bi, t in f.calls():
            c = callee(t)
            if c and c["name"] in PART and (c.get("trait") == "std::iter::Iterator" or c["name"] == "truncate"):
                rep.violate(f"part:{f.short}:{c['name']}", "collected", where(f, bi), f"{f.short} only looks at a part of the attributes ({c['name']})")
    for path, f in sorted(adders.items()):
        rep.count("functions_that_add")
        ref, me = fields_of(f)
        grow, excused = set(), set()
        # closures that hold the metadata or a part of it
        held = {s["place"]["l"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("agg") == "closure"
                and any(op_place(o) and (op_place(o)["l"] in me or op_place(o)["l"] in ref) for o in rv_operands(s["rv"]))}
        tests = {}
        for bi, b in enumerate(f.blocks):
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign" or s["place"]["l"] not in me:
                    continue
                fl = [e[2] for e in s["place"]["p"] if e[0] == "field"]
                if fl and fl[0] in every:
                    if fl[0] in fields and len(fl) == 1 and not rebuilt(f, me, ref, fl[0]):
                        rep.violate(f"replaced:{fl[0]}", "use-once", where(f, bi), f"{f.short} replaces the {fl[0]} collected so far instead of adding to them")
                    grow.add(bi)
            t = b["t"]
            if t["t"] != "call" or not callee(t):
                continue
            name, a0 = callee(t)["name"], op_place(t["args"][0]) if t["args"] else None
            if a0 and a0["l"] in ref and ref[a0["l"]] in fields:
                if name in SHRINK and name not in ("retain", "dedup") and not rebuilt(f, me, ref, ref[a0["l"]]):
                    rep.violate(f"shrunk:{ref[a0['l']]}:{name}", "use-once", where(f, bi), f"{f.short} takes out of the {ref[a0['l']]} collected so far ({name})")
                if name in GROW:
                    grow.add(bi)
            if any(op_place(a) and op_place(a)["l"] in held for a in t["args"]):
                grow.add(bi)
            if callee(t)["path"] in adders and a0 and a0["l"] in me:
                grow.add(bi)
            if name in ("is_empty", "contains_key", "contains"):
                tests[t["dest"]["l"]] = bi
        for bi, b in enumerate(f.blocks):
            t = b["t"]
            if t["t"] == "switch" and op_place(t["op"]) and op_place(t["op"])["l"] in tests:
                excused.add((bi, t["else"]))          # nothing there, or there already
        heads = f.loops()
        for _ in range(3):
            for h, body in heads.items():
                if h not in grow and body & grow and not cycle(f, h, body, grow, excused):
                    grow.add(h)
        for p in range(2, f.argc + 1):
            ty = f.lty(p)
            base = ty
            while base.k == "ref":
                base = base.arg(0)
            if base.k == "str" or base.s in ("str", "std::string::String") or base.k == "adt" and base.defpath.endswith("::Token"):
                if leads(f, 0, grow, excused):
                    rep.violate(f"ignored:{f.short}", "collected", f"{f.file}:{f.line}", f"{f.short} can ignore what it is given: an attribute is neither stored nor empty")
                rep.count("attributes_followed")
                break
            if base.k == "adt" and base.defpath.endswith("::Vec") and base.arg(0) is not None and "String" in base.arg(0).s:
                rep.count("attributes_followed")
                for h, body in heads.items():
                    if not (body & grow):
                        continue
                    if h not in grow:
                        rep.violate(f"ignored:{f.short}", "collected", f"{f.file}:{f.line}",
                                    f"{f.short} can pass over an attribute: it is neither stored nor empty")
                break
    rep.floor("functions_that_add", 2)
    rep.floor("attributes_followed", 1)


def rebuilt(f, me, ref, field):
    """is the old content of the field read (moved, cloned, taken) in the same function?"""
    n = 0
    for bi, si, o in operands(f):
        for p, how in o:
            fl = [e[2] for e in p["p"] if e[0] == "field"]
            if p["l"] in me and fl[:1] == [field]:
                n += how in ("move", "copy") or how == "ref" and si != "term" and not f.blocks[bi]["s"][si]["rv"].get("mut")
                n += how == "ref" and taken(f, f.blocks[bi]["s"][si]["place"]["l"]) if si != "term" else 0
    return n > 0


def taken(f, l):
    return any(callee(t) and callee(t)["path"].endswith(("mem::take", "mem::replace", "mem::swap")) and any(op_place(a) and op_place(a)["l"] == l for a in t["args"])
               for _b, t in f.calls())


def leads(f, start, avoid, excused, goal=None, inside=None):
    """can a normal return (or `goal`) be reached without passing `avoid`?"""
    seen, work = {start}, [start]
    while work:
        b = work.pop()
        if b in avoid:
            continue
        if goal is None and f.blocks[b]["t"]["t"] == "return":
            return True
        for s in f.succ(b):
            if (b, s) in excused or f.blocks[s]["cleanup"] or inside is not None and s not in inside:
                continue
            if s == goal:
                return True
            if s not in seen:
                seen.add(s)
                work.append(s)
    return False


def cycle(f, h, body, grow, excused):
    return leads(f, h, grow, excused, goal=h, inside=body)


def operands(f):
    """places read by each statement and call: (place, how)"""
    for bi, b in enumerate(f.blocks):
        if b["cleanup"]:
            continue
        for si, s in enumerate(b["s"]):
            if s["s"] != "assign":
                continue
            out = [(op_place(o), "move" if "move" in o else "copy") for o in rv_operands(s["rv"]) if op_place(o)]
            if s["rv"]["r"] in ("ref", "discr"):
                out.append((s["rv"]["place"], "ref"))
            yield bi, si, out
        if b["t"]["t"] == "call":
            yield bi, "term", [(op_place(a), "move" if "move" in a else "copy") for a in b["t"]["args"] if op_place(a)]


def spans(prog, rep, lin, parser, i, name):
    """metadata of a span: taken by the time the span it precedes is stored"""
    for f in prog.bodies():
        if f.derived or not any(nm_of(t) == "take" and t["args"] and lin.resolve(f, t["args"][0]) and
                                [e[1] for e in lin.resolve(f, t["args"][0])["p"] if e[0] == "field"] == [i] for _b, t in f.calls()):
            continue
        par = next((p for p in range(1, f.argc + 1) if f.lty(p).k == "ref" and f.lty(p).arg(0).k == "adt" and f.lty(p).arg(0).defpath == parser), None)
        given = [p for p in range(1, f.argc + 1) if f.lty(p).k == "adt" and f.lty(p).defpath.endswith("::Inline")]
        if par is None or not given:
            continue
        rep.count("functions_that_store_spans")

        def at_call(b, t, st, f=f):
            if st in (FULL, READ) and any("move" in a and f.ty(t["atys"][k]).k == "adt" and f.ty(t["atys"][k]).defpath.endswith("::Inline")
                                          for k, a in enumerate(t["args"]) if k) and f.ty(t["atys"][0]).s.startswith("&mut"):
                fn = short(f.path).rsplit("::", 1)[-1]
                rep.violate(f"pending:{fn}:{nm_of(t)}", "applied-first", where(f, b),
                            f"{fn} stores a span while the metadata ahead of it may still be pending: a later span gets it")
        lin.follow(f, (0, 0, par, (("deref",), ("f", i)), FULL, ""), at_call)


def inline_only(prog, parser, lin):
    """pending metadata that belongs to the next span: what is taken from the field goes to an inline"""
    out = set()
    names = [n for _i, n, _t in state_fields(prog, lin, parser)]
    if len(names) < 2:
        return out
    for f in prog.bodies():
        for bi, t in f.calls():
            if nm_of(t) != "take" or not t["args"]:
                continue
            p = lin.resolve(f, t["args"][0])
            fl = [e[2] for e in p["p"] if e[0] == "field"] if p else []
            if not fl or fl[-1] not in names:
                continue
            # where does the taken value go?
            seen, work = set(), [t["dest"]["l"]]
            while work:
                l = work.pop()
                if l in seen:
                    continue
                seen.add(l)
                for b in f.blocks:
                    if b["cleanup"]:
                        continue
                    for s in b["s"]:
                        if s["s"] == "assign" and any(op_place(o) and op_place(o)["l"] == l for o in rv_operands(s["rv"])):
                            work.append(s["place"]["l"])
                    u = b["t"]
                    if u["t"] == "call" and any(op_place(a) and op_place(a)["l"] == l for a in u["args"][1:]):
                        a0 = f.ty(u["atys"][0])
                        if a0.k == "ref" and a0.arg(0).k == "adt" and a0.arg(0).defpath.endswith(("::Inline", "::InlineSpan", "::InlineRef")):
                            out.add(fl[-1])
    return out
