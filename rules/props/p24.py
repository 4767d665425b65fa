"""A line break inside of running text keeps the words on both sides apart."""
from content import content_types, adt, roots
from linear import Linear, FULL, GONE, NONE, nm_of
from mir import callee, short, rv_operands
from flow import op_place
from props.p03 import where


def taint(f, start):
    """locals whose value is made from one of the start locals"""
    got = set(start)
    while True:
        n = len(got)
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] != "assign" or s["place"]["p"]:
                    continue
                src = [op_place(o) for o in rv_operands(s["rv"])]
                if s["rv"]["r"] == "ref":
                    src.append(s["rv"]["place"])
                if any(p and p["l"] in got for p in src):
                    got.add(s["place"]["l"])
            t = b["t"]
            if t["t"] == "call" and not t["dest"]["p"] and any(op_place(a) and op_place(a)["l"] in got for a in t["args"]):
                if f.lty(t["dest"]["l"]).k == "adt":
                    got.add(t["dest"]["l"])
        if len(got) == n:
            return got


def run(prog, rep):
    rep.rule("The line break that the parser holds back until it knows what follows is followed from the dispatch of a token through every "
             "function it can reach: wherever the text or inline made from that token is stored, the line break must have been added "
             "before, not still be pending and not have been thrown away on the same path.")
    tok, parser, tt = adt(prog, "Token"), adt(prog, "Parser"), adt(prog, "TokenType")
    entry = [f for f in prog.find("Parser::token_into")]
    if not (tok and parser and entry):
        rep.violate("missing:token_into", "anchor", "-", "the function that parses one token is gone")
        return
    enums, core = content_types(prog)
    inl = {p for p in core if p.endswith(("::Inline", "::InlineSpan", "::InlineRef", "::InlineLiteral"))}

    def is_tok(t):
        return t is not None and t.k == "adt" and t.defpath == tok
    lin = Linear(prog, is_tok)
    lin.remember = True
    pend = [(i, n) for i, (n, t) in enumerate(prog.adt_fields(parser)) if t.k == "adt" and t.defpath.endswith("Option") and is_tok(t.arg(0))]
    if not pend:
        rep.violate("missing:pending-newline", "anchor", "-", "the parser no longer keeps a line break for what follows")
        return
    tainted = {}

    def current(f):
        """locals made from the token the function was given"""
        if f.path not in tainted:
            ps = [p for p in range(1, f.argc + 1) if is_tok(f.lty(p)) or f.lty(p).k == "ref" and is_tok(f.lty(p).arg(0)) or
                  f.lty(p).k == "adt" and f.lty(p).defpath in core]
            tainted[f.path] = taint(f, ps)
        return tainted[f.path]
    f = entry[0]

    def self_content(t):
        if t.k == "ref":
            t = t.arg(0)
        return is_tok(t) or t.k == "adt" and t.defpath in inl

    def taken(i, stores, pass_on):
        """the line break, once taken or copied out of the parser, is added before the text of the token"""
        for g in prog.bodies():
            if g.derived:
                continue
            given = any(is_tok(g.lty(p)) for p in range(2, g.argc + 1))
            adds = {b for b, t in g.calls() if t["args"] and (g.path, b) in stores or
                    t["args"] and g.ty(t["atys"][0]).s.startswith("&mut") and callee(t) and prog.fns.get(callee(t)["path"]) is not None and pass_on(g, t, None, True)}
            fn = short(g.path).rsplit("::", 1)[-1]
            for b, t in g.calls():
                if nm_of(t) not in ("clone", "take", "replace") or not t["args"] or t["dest"]["p"] or t["to"] is None:
                    continue
                p = lin.resolve(g, t["args"][0])
                fl = [e for e in p["p"] if e[0] == "field"] if p else []
                if not fl or fl[-1][1] != i or len(fl[-1]) < 5 or fl[-1][4] != parser:
                    continue
                rep.count("line_breaks_taken")
                early = set()

                def at(b2, t2, st):
                    if b2 in adds and st == FULL:
                        early.add(b2)
                lost, _e = lin.follow(g, (t["to"], 0, t["dest"]["l"], (), FULL, ""), at)
                # the call that gets the line break itself is not early
                early = {x for x in early if not any(op_place(a) and op_place(a)["l"] not in current(g) and is_tok(g.lty(op_place(a)["l"]))
                                                    for a in g.blocks[x]["t"]["args"][1:])}
                late = {x[1] for x in lost if x[0] == "dropped" and g.reachable(x[1]) & adds}
                if not given:
                    # a function of its own for adding it: used on some paths only
                    mine = taint(g, {t["dest"]["l"]})
                    used = any(u["args"] and callee(u) and callee(u)["path"] in prog.fns and
                               any(op_place(a) and op_place(a)["l"] in mine and self_content(g.lty(op_place(a)["l"])) for a in u["args"]) for _b, u in g.calls())
                    late = {x[1] for x in lost if x[0] == "dropped"} if used else set()
                for x in sorted(early)[:1]:
                    rep.violate(f"early:{fn}", "newline-first", where(g, x), f"{fn} adds the text of a token ahead of the line break that precedes it")
                for x in sorted(late)[:1]:
                    rep.violate(f"unused:{fn}", "newline-first", where(g, x),
                                f"{fn} drops the line break it has taken and then adds the text that follows it: the words run together")
    for i, name in pend:
        stores = set()

        def at_call(f, b, t, st, ex):
            if not ex or not callee(t) or len(t["args"]) < 2:
                return
            ty0 = f.ty(t["atys"][0])
            if not ty0.s.startswith("&mut"):
                return
            recv = ty0.arg(0)
            if recv.k != "adt" or recv.defpath == parser or not (recv.defpath in inl or any(x.k == "adt" and x.defpath in inl for x in recv.argl())):
                return
            cur = current(f)
            src = [op_place(a)["l"] for a in t["args"][1:] if op_place(a)]
            if not any(l in cur for l in src):
                return
            # content: an inline by value, or text of the token
            if not any(self_content(f.lty(l)) for l in src if l in cur):
                return
            if not roots(f, t["args"][0]) - {None}:
                return
            stores.add((f.path, b))
            fn = short(f.path).rsplit("::", 1)[-1]
            if st == FULL:
                rep.violate(f"pending:{fn}:{nm_of(t)}", "newline-first", where(f, b),
                            f"{fn} adds to the running text while the line break ahead of it is still held back: the words run together")
            elif st == GONE:
                rep.violate(f"gone:{fn}:{nm_of(t)}", "newline-first", where(f, b),
                            f"{fn} adds to the running text after the line break ahead of it was thrown away: the words run together")

        def pass_on(f, t, g, ex):
            cur = current(f)
            return bool(ex) and any(op_place(a) and op_place(a)["l"] in cur and self_content(f.lty(op_place(a)["l"])) for a in t["args"][1:])
        ctx = lin.everywhere(f, 1, (("deref",), ("f", i)), FULL, at_call, True, pass_on)
        taken(i, stores, pass_on)
        rep.count("pending_line_breaks")
        rep.count("functions_followed", len({c[0] for c in ctx}))
        rep.count("places_that_add_text", len(stores))
        for p, b in sorted(stores)[:8]:
            rep.sample(f"{p.rsplit('::', 1)[-1]} bb{b}")
    rep.floor("pending_line_breaks", 1)
    rep.floor("places_that_add_text", 12)
