"""P10: effect confinement by public entry point."""
from mir import callee, short, loc
import effects
from flow import op_place, single_defs

# what each part of the public API may do, by module of the exported function
ALLOWED = [
    ("asciidocr::scanner", set(), "tokenising"),
    ("asciidocr::graph", set(), "document graph operations"),
    ("asciidocr::utils", set(), "attribute helpers"),
    ("asciidocr::errors", set(), "error types"),
    ("asciidocr::parser", {"fs-read"}, "parsing (reads included files)"),
    ("asciidocr::backends::docx", {"fs-read", "fs-write", "stderr"}, "docx rendering"),
    ("asciidocr::backends", set(), "rendering to a string"),
    ("asciidocr", set(), "library"),
]
CLI = {"fs-read", "fs-write", "stdin", "stdout", "stderr", "exit", "env-read"}


def allowed(f):
    if f.krate == "bin":
        return CLI, "command line program"
    # the path of an impl method of a foreign trait is printed as <T as Trait>::m; use its type
    p = f.path
    if p.startswith("<"):
        p = (f.impl_of or p.lstrip("<&")).lstrip("&")
    p = p.lstrip("<")
    if f.trait and f.trait.endswith("FromStr"):
        return {"fs-read"}, "parsing from a string (reads included files)"
    for pre, ok, what in ALLOWED:
        if p == pre or p.startswith(pre + "::"):
            return ok, what
    return set(), "library"


def run(prog, rep):
    rep.rule("For every function of the crate, the set of effect primitives (file reads and writes, "
             "stdout/stderr/stdin, process exit, spawn, environment, network, threads, clock, randomness) "
             "reachable through the resolved call graph must be inside the set allowed for its part of "
             "the API; unsafe blocks and mutable statics must not exist.")
    d = effects.direct(prog)
    rep.count("effect_sites", sum(len(v) for v in d.values()))
    for f in prog.bodies():
        rep.count("functions")
        ok, what = allowed(f)
        par = prog.reach_from([f.path])
        for c in par:
            e = effects.prim(c)
            if not e or e in ok:
                continue
            chain = prog.chain(par, c)
            # attribute to the function containing the primitive and the first API layer that breaks
            owner = chain[-2] if len(chain) > 1 else f.short
            where = f"{f.file}:{f.line}"
            for eff, pr, bi, o in d.get(par[c], []):
                if pr == short(c):
                    where = loc(o["span"])
            rep.violate(f"effect:{owner}:{e}:{what}", "effect-outside-layer", where,
                        f"{what} must not perform '{e}', but {f.short} reaches {short(c)}", [" -> ".join(chain)])
    for k in ("lib", "bin"):
        for u in prog.facts[k]["unsafe_fns"]:
            rep.violate(f"unsafe:{u}", "no-unsafe", "-", f"{u} uses unsafe code, effects cannot be confined")
    for s in prog.statics:
        if s["mut"]:
            rep.violate(f"static-mut:{s['path']}", "no-global-state", "-", f"mutable static {s['path']}")
    for f in prog.bodies():
        for bi, t in f.calls():
            c = callee(t)
            if c and c.get("unsafe") and not t["span"][2] and not f.derived:
                rep.violate(f"unsafe-call:{f.short}:{short(c['path'])}", "no-unsafe", loc(t["span"]),
                            f"{f.short} calls the unsafe function {short(c['path'])}")
    rep.floor("effect_sites", 10)
    rep.floor("functions", 250)
    rep.assume("callbacks invoked inside external crates and the log facade are not followed; "
               "the primitives are those of std and of tera's file-reading constructors")
