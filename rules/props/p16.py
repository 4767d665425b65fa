"""HTML output is well-formed and rendering does not fail."""
from props.p15 import analyse


def run(prog, rep):
    rep.rule("well-formed: on every path through the templates elements are closed in the order they were opened, are HTML elements, and list items, terms, rows and cells are inside what they belong to")
    rep.rule("no-failure: nothing that need not exist is printed, compared, iterated or passed on, and nothing that may be 0 is divided by")
    a = analyse(prog, rep)
    for (rule, key), (tpl, line, msg) in sorted(a.issues.items()):
        if rule == "html":
            rep.violate(key, "well-formed", f"templates: {tpl}:{line}", msg)
        elif rule in ("undefined", "templates"):
            rep.violate(key, "no-failure", f"templates: {tpl}:{line}", msg)
    if not a.unreadable:
        rep.floor("templates", 1)
        rep.floor("macro_and_kind_pairs", 30)
        rep.floor("paths", 100)
        rep.floor("elements", 20)
    rep.assume("text itself holds no markup except where the document passes it through")
