"""The docx output holds the text of the whole document."""
from linear import Linear
from mir import short
from props.p03 import where
from props.p07 import report
from visit import Visitor

# a piece of the output that holds text or other pieces, in the library's own words
PIECES = ("Paragraph", "Run", "TableCell", "TableRow", "Table", "Docx", "Hyperlink", "Footnote", "Comment", "Insert", "Delete",
          "StructuredDataTag", "TableOfContents", "Header", "Footer")


def run(prog, rep):
    rep.rule("From the function that writes a document, the document is followed through the program as access paths: for every kind of block and "
             "inline that is ever constructed and every field of it that holds children or text, every normal path must hand the whole field on.")
    rep.rule("Every piece of output that is built (run, paragraph, cell, row, table) and every buffer that collects such pieces is followed along all "
             "successful paths: it must be put into another piece or the document, never dropped, cleared or overwritten while it may hold something.")
    fs = [f for f in prog.find("docx::render_docx")]
    if not fs:
        rep.violate("missing:render_docx", "anchor", "-", "the docx backend's entry point is gone")
        return

    def is_leaf(a, f, t):
        return a.rsplit("::", 1)[-1] == "InlineLiteral" and f == "value"

    def field_ok(a, n, t):
        return "HashMap" not in t.s and "ElementMetadata" not in t.s
    v = Visitor(prog, field_ok, is_leaf)
    asg = [p for p in range(1, fs[0].argc + 1) if fs[0].lty(p).s.endswith("::Asg")]
    m, _ = v.check(fs[0], asg[0] if asg else 1)
    report(rep, "docx", v, m)
    rep.count("field_obligations", len(v.pairs))
    rep.count("functions_visited", v.counts["functions_checked"])
    pieces = {"docx_rs::" + x for x in PIECES}

    def tracked(t):
        return t.k == "adt" and (t.defpath in pieces or t.defpath.startswith("docx_rs::") and t.defpath.rsplit("::", 1)[-1] in PIECES)
    lin = Linear(prog, tracked)
    lin.part = lambda t: t.k == "adt" and t.defpath.endswith("::Vec") and "docx_rs::" in t.s and "Child" in t.s
    for f in prog.bodies():
        if f.derived:
            continue
        for kind, b, origin, ty in lin.run(f):
            fn = short(f.path).rsplit("::", 1)[-1]
            rep.violate(f"lost:{fn}:{kind}:{origin}", "use-once", where(f, b),
                        f"{origin} ({ty.s.rsplit('::', 1)[-1][:40]}) is {kind} in {fn} although it may hold text that is nowhere else in the output")
    rep.count("pieces_followed", lin.counts["values_followed"])
    rep.count("buffers_followed", lin.counts["fields_followed"])
    rep.floor("field_obligations", 40)
    rep.floor("pieces_followed", 40)
    rep.assume("the docx library writes out what was added to the document")
