"""No part of the document is lost while it is parsed."""
from content import content_types, adt, state_fields
from linear import Linear, FULL, EMPTY, NONE
from mir import short


def where(f, b):
    sp = f.blocks[b]["t"].get("span")
    return f"{sp[0]}:{sp[1]}" if sp else f"{f.file}:{f.line}"


def kind_of(ty):
    """type without paths: survives a renamed field"""
    a = ",".join(kind_of(x) for x in ty.argl() if x.k == "adt" and not x.defpath.endswith("Global"))
    return ty.defpath.rsplit("::", 1)[-1] + (f"<{a}>" if a else "")


def run(prog, rep):
    rep.rule("Every block, inline and header that comes into being (made, taken from a collection, received by value) is followed along "
             "all paths that do not end in an error: it must be stored, handed on or looked at, never dropped while it may hold content; "
             "collections of them may not be cleared or overwritten unread.")
    rep.rule("When parsing succeeds, every collection of blocks or inlines that the parser keeps between tokens must be empty.")
    enums, core = content_types(prog)
    tok = adt(prog, "Token")
    lin = Linear(prog, lambda t: t.k == "adt" and t.defpath in core, lambda t: t.k == "adt" and t.defpath == tok, enums)
    rep.count("content_types", len(core))
    for f in prog.bodies():
        if f.derived:
            continue
        rep.count("functions")
        for kind, b, origin, ty in lin.run(f):
            fn = short(f.path).rsplit("::", 1)[-1]
            rep.violate(f"lost:{fn}:{kind}:{origin}", "use-once", where(f, b),
                        f"{origin} ({ty.s.rsplit('::', 1)[-1][:40]}) is {kind} in {fn} although it may hold content that nothing has taken")
    for k, n in lin.counts.items():
        rep.count(k, n)
    parser = adt(prog, "Parser")
    entry = [f for f in prog.find("Parser::parse") if f.short.endswith("Parser::parse")]
    if not parser or not entry:
        rep.violate("missing:Parser::parse", "anchor", "-", "the function that parses a token stream is gone")
        return
    p = entry[0]
    for i, name, ty in state_fields(prog, lin, parser):
        losses, ends = lin.follow(p, (0, 0, 1, (("deref",), ("f", i)), FULL, name))
        rep.count("pending_collections")
        rep.sample(f"{name}: {'/'.join(sorted(ends))} when parsing ends")
        if not ends or not ends <= {EMPTY, NONE}:
            rep.violate(f"pending:{kind_of(ty)}", "flushed", f"{p.file}:{p.line}",
                        f"'{name}' may still hold content when parsing ends successfully; it is not part of the document then")
    rep.floor("content_types", 12)
    rep.floor("values_followed", 150)
    rep.floor("fields_followed", 5)
    rep.floor("pending_collections", 3)
    rep.assume("paths that end in an error result are not considered: no document is produced then")
    rep.assume("content that is read (iterated, cloned, converted to text) counts as taken by the reader")
