"""Whole-document operations reach every block and inline, however deeply nested."""
from visit import Visitor

# operation, entry function, parameter, leaf that has to be looked at, blocks only
OPS = [
    ("text and word count", "Asg::all_text", 1, ("InlineLiteral", "value"), False),
    ("cross references", "Asg::consolidate", 1, ("InlineRef", "variant"), False),
    ("footnotes", "Asg::standardize_footnotes", 1, ("InlineSpan", "variant"), False),
    ("ids", "Asg::push_block", 2, (None, "ElementMetadata"), True),
]


def visitor(prog, leaf, blocks_only):
    adt, field = leaf

    def is_leaf(a, f, t):
        if adt is None:
            return field in t.s and a.rsplit("::", 1)[-1] != field
        return a.rsplit("::", 1)[-1] == adt and f == field

    def field_ok(a, n, t):
        if "HashMap" in t.s or "ElementMetadata" in t.s:
            return False
        if blocks_only and "Block" not in t.s:
            return False
        if a.endswith("::Asg"):          # the title belongs to the header, not to the body
            return "Header" not in t.s
        return True
    return Visitor(prog, field_ok, is_leaf)


def report(rep, what, v, missing):
    for m in missing:
        rep.violate(f"{what.replace(' ', '-')}:{m.what}", "visit", m.where,
                    f"{what}: {m.what} is not reached in {m.fn.split('::', 1)[-1]} ({m.reason})")


def run(prog, rep):
    rep.rule("For each operation the analysis starts at its entry function and follows the document "
             "through the program as access paths; for every kind of block and inline that is ever "
             "constructed and every field of it that holds children, every normal path must hand the "
             "whole field on, recursively, without aborting.")
    for what, entry, param, leaf, bo in OPS:
        fs = prog.find(entry)
        if not fs:
            rep.violate(f"missing:{entry}", "anchor", "-", f"the operation '{what}' ({entry}) is gone")
            continue
        v = visitor(prog, leaf, bo)
        m, _ex = v.check(fs[0], param)
        report(rep, what, v, m)
        rep.count("operations")
        rep.count("function_and_field_pairs", len(v.pairs))
        rep.count("functions_followed", v.counts["functions_checked"])
        rep.count("variants_constructed", len(v.constructible()))
        rep.sample(f"{what}: {v.counts['functions_checked']} functions, {len(v.pairs)} field obligations")
    rep.floor("operations", 4)
    rep.floor("function_and_field_pairs", 60)
    rep.assume("variants and fields that no code ever fills in need not be visited")
    rep.assume("library adaptors other than the listed partial ones (take, skip, first, …) pass every element on")
