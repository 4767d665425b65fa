"""P21: no document makes the converter panic (outside of the scanner, which P01 decides)."""
from mir import loc, short
import cursor, panicstd, tokshape


def run(prog, rep):
    rep.rule("Abstract interpretation of every function reachable from main (except the scanner's, see P01) over the "
             "MIR: per place, the variants an Option, Result or enum may be in, difference bounds over lengths, "
             "positions and integers, and the leading, trailing and contained characters of texts. Functions are "
             "summarised per exit; callers' facts flow in. Lists that are never empty are found by assuming it for "
             "every list field and dropping what some construction or removal breaks; the text of a token is described "
             "per kind of token by every token the scanner makes.")
    rep.rule("At each place that can panic (unwrap and expect, index, slice, drain, insert, remove, split, unsigned "
             "subtraction, division, panic!, todo!, unreachable!) the facts must exclude the panic.")
    eng = cursor.analyse(prog, rep)
    shapes, seen = None, set()
    if eng is None or eng.missing:
        rep.note("the scanner was not understood: nothing is known about the text of tokens")
    else:
        shapes, seen = tokshape.shapes(prog, eng), set(eng.fns_seen)
        if eng.findings or eng.notes:
            rep.note("the scanner is not fully understood (see P01)")
    roots = [f.path for f in prog.bodies() if f.krate == "bin" and f.name == "main"]
    if not roots:
        rep.violate("anchor:main", "coverage-floor", "-", "the program's main function was not found")
        return
    module = eng.module if eng is not None and not eng.missing else ""
    skip = {p for p in seen if not p.startswith(module + "::tokens")}
    e = panicstd.Calls(prog, rep, roots, skip, shapes=shapes, given=seen)
    e.run()
    for (p, b, kind), (ok, what, _unknown) in sorted(e.sites.items()):
        f = prog.fns[p]
        rep.count("places: " + kind)
        rep.count("places_that_can_panic")
        where = loc(f.blocks[b]["t"]["span"])
        rep.sample(f"{where} {f.short}: {kind}")
        if not ok:
            rep.violate(f"{f.short}:{kind}:{what}", "panic", where, f"in {f.short}: {what}")
    rep.count("functions_analysed", len({p for p in e.reached}))
    rep.count("blocks_reached", sum(len(b) for b in e.reached.values()))
    rep.count("passes", e.passes)
    rep.count("lists_never_empty", sum(1 for v in e.inv.values() if v[1]))
    if shapes:
        rep.count("token_kinds_with_known_text", len({k for t in shapes["fields"].values() for k, s in t.items() if s[0] or s[1]}))
    for n, c in sorted(e.unmodelled.items()):
        if n.startswith(("unwrap of", "a loop")):
            rep.note(f"{n} ({c}x): not decided")
    rep.count("calls_without_a_model", len(e.unmodelled))
    if e.stopped:
        rep.note(e.stopped)
    rep.floor("places_that_can_panic", 30)
    rep.floor("functions_analysed", 120)
    rep.assume("The process has memory and stack enough; files and standard streams behave.")
    rep.assume("Third-party crates (docx-rs, tera, serde_json, clap, regex) return as documented; whether they panic "
               "themselves is not decided.")
    rep.assume("Additions and multiplications do not overflow usize.")
    rep.assume("Every node records at least one source position.")
