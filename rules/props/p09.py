"""P09: an output file is created or truncated only once the conversion has succeeded."""
from mir import callee, short, loc
import effects
from flow import is_result
from props.p08 import error_types, peel


def run(prog, rep):
    rep.rule("From every call that creates or truncates a file (directly, or through a crate function "
             "that does), no later call in the same function, in the crate, may still fail with a "
             "conversion error; the callers are checked in the same way up to main.")
    d = effects.direct(prog)
    # functions that (transitively) write a file
    writers = {}
    for p in prog.fns:
        par = prog.reach_from([p])
        if any(effects.prim(c) == "fs-write" for c in par):
            writers[p] = par
    # conversion steps: crate functions that can fail
    fallible = {p for p, f in prog.fns.items() if not f.derived and f.kind == "fn" and is_result(f.lty(0))
                and p not in writers}
    # external rendering steps that can fail
    EXT_STEPS = ("tera::Tera::render", "tera::Context::from_serialize", "serde_json::to_string", "serde_json::to_value",
                 "serde_json::to_vec", "serde_json::to_string_pretty", "serde_json::to_writer", "tera::Tera::render_to",
                 "tera::Tera::render_str", "tera::Tera::one_off")
    errs = error_types(prog)

    def renders(f, c, t):
        """an outside step that is given part of the document and can fail"""
        if c.get("local") or not is_result(f.crate["types"][t["dty"]]):
            return False
        for a in t["atys"]:
            ty = peel(f.crate["types"][a])
            if ty is not None and ty.k == "adt" and ty.defpath.startswith("asciidocr::") and ty.defpath not in errs:
                return True
        return False

    for p in sorted(writers):
        f = prog.fns[p]
        for bi, t in f.calls():
            c = callee(t)
            if not c:
                continue
            direct_w = effects.prim(c["path"]) == "fs-write"
            if not direct_w and c["path"] not in writers:
                continue
            rep.count("write_sites")
            if t["to"] is None:
                continue
            after = f.reachable(t["to"])
            # inside a loop the call itself is reachable again: writing must not be repeated either
            for b2 in sorted(after):
                t2 = f.blocks[b2]["t"]
                if t2["t"] != "call":
                    continue
                c2 = callee(t2)
                if not c2:
                    continue
                s2 = short(c2["path"])
                rep.count("calls_after_write")
                if c2["path"] in fallible or s2.startswith(EXT_STEPS) or renders(f, c2, t2):
                    if c2["path"].startswith("<") and "From<" in c2["path"]:
                        continue
                    rep.violate(f"order:{f.short}:{short(c['path'])}:{s2}", "write-before-conversion-done", loc(t["span"]),
                                f"{f.short} opens the output with {short(c['path'])} while {s2}, which can still fail, "
                                f"runs afterwards", [f"write at {loc(t['span'])}", f"fallible step at {loc(t2['span'])}"])
    # destination of every write: handed in by the caller, not invented
    rep.floor("write_sites", 3)
    # stdout must carry a complete document too: print sites only in the CLI (see P10)


