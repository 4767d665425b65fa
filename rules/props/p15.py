"""HTML output contains all content of the document."""
from htmlai import Analysis, HOLDS


def analyse(prog, rep):
    a = getattr(prog, "_html", None)
    if a is None:
        a = prog._html = Analysis(prog, rep)
        a.go()
    for n, c in a.counts.items():
        rep.count(n, c)
    for m in a.notes:
        rep.note(m)
    return a


def run(prog, rep):
    rep.rule("rendered: on every path through the templates, for every kind of node the program can build, each content field that is not empty is rendered whole, once and in reading order")
    rep.rule("handed-over: each content field is serialised, and left out only when it is empty")
    a = analyse(prog, rep)
    for e in (a.block, a.inline):
        rep.count("kinds_of_node", len(a.kinds(e)))
        for k in a.kinds(e):
            rep.count("content_fields", len(a.content_keys(k)))
            for key, field in a.content_keys(k):
                skip = a.shape.structs[k.path][key][1] if key else None
                if skip not in (None, "empty"):
                    rep.violate(f"left-out:{k.name}:{key}", "handed-over", "-", f"{key} of a node of kind {k!r} is left out by “{skip}”, not only when it is empty")
    for (rule, key), (tpl, line, msg) in sorted(a.issues.items()):
        if rule in ("content", "templates"):
            rep.violate(key, "rendered", f"templates: {tpl}:{line}", msg)
    if not a.unreadable:
        rep.floor("templates", 1)
        rep.floor("macro_and_kind_pairs", 30)
        rep.floor("content_fields", 20)
    rep.sample("kinds: " + ", ".join(repr(k) for e in (a.block, a.inline) for k in a.kinds(e)))
    for k, v in HOLDS.items():
        rep.assume(f"a {k} holds only {', '.join(v)} nodes, and nothing else holds those")
    rep.assume("inline images hold no inlines")
