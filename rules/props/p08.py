"""P08: a failure detected anywhere in the conversion reaches the caller (library) or ends the
program with a message and a non-zero status (CLI); it is never ignored and never becomes a panic."""
from mir import callee, short, loc, rv_operands
from flow import uses, is_result, op_local, op_place, EXIT
import effects

EXT_FAIL = ("std::io::Error", "tera::Error", "serde_json::Error", "anyhow::Error", "zip::result::ZipError",
            "docx_rs::DocxError", "std::string::FromUtf8Error", "std::str::Utf8Error")
SWALLOW = {"ok", "is_ok", "is_err", "is_ok_and", "is_err_and", "unwrap_or", "unwrap_or_default",
           "unwrap_or_else", "map_or", "map_or_else", "iter", "iter_mut", "into_iter", "or", "or_else",
           "unwrap_unchecked", "err"}
ABORT = {"unwrap", "expect", "unwrap_err", "expect_err"}
ITER_SWALLOW = {"flatten", "filter_map", "flat_map", "map_while"}


# failures of a conversion to a number; they count where the function could report them
NUMBER = ("std::num::ParseIntError", "std::num::TryFromIntError", "std::num::ParseFloatError")
# errors a document (or its surroundings) can cause: a kind that exists is reported somewhere
REPORTED = {"HeadingLevelError", "TagError", "TopLevelHeading", "OpenParse", "HeadingOffsetError", "TargetResolution", "IncludeDepth",
            "BlockContinuation", "TableColumns", "TableCell", "DanglingList", "ColumnError", "ZipFileError", "AttributeError", "CharacterMatch"}


def number(ty):
    return is_result(ty) and ty.arg(1) is not None and ty.arg(1).k == "adt" and ty.arg(1).defpath in NUMBER


def failure(ty):
    return ty is not None and ty.k == "adt" and (
        ty.defpath in EXT_FAIL or ty.defpath.startswith(("asciidocr::", "bin::")))


def fail_result(ty):
    return is_result(ty) and failure(ty.arg(1))


def peel(ty):
    while ty is not None and ty.k == "ref":
        ty = ty.arg(0)
    return ty


def result_items(prog):
    """types whose Iterator::next yields Option<Result<_, failure>>"""
    out = set()
    for f in prog.bodies():
        if f.name == "next" and f.trait == "std::iter::Iterator":
            r = f.lty(0)
            if r.k == "adt" and r.arg(0) is not None and fail_result(r.arg(0)):
                out.add(f.lty(1).arg(0).s.split("<")[0])
    return out


def probe_fn(prog, path):
    """a query over plain strings: takes only shared references to primitive/str data and can
    reach no effect; its Err answers 'does not have this form', it does not report a failure"""
    f = prog.fns.get(path)
    if f is None:
        return False
    for l in range(1, f.argc + 1):
        t = f.lty(l)
        if t.k == "ref":
            if t.d.get("mut"):
                return False
            t = peel(t)
        if t.k == "adt" and t.defpath != "std::string::String":
            return False
    return not effects.closure_effects(prog, path)


def error_types(prog):
    """the failure types: what stands in the error place of some Result in the crate"""
    return {f.lty(l).arg(1).defpath for f in prog.bodies() for l in range(len(f.locals)) if fail_result(f.lty(l))}


def exit_failure(f, b):
    """does block b set the status main returns to a failure?"""
    blk = f.blocks[b]
    for s in blk["s"]:
        if s["s"] == "assign" and s["place"]["l"] == 0 and not s["place"]["p"]:
            k = (s["rv"].get("op") or {}).get("const") if s["rv"]["r"] == "use" else None
            if k and (k.get("item", "").endswith("ExitCode::FAILURE") or k.get("bits")):
                return True
    t = blk["t"]
    if t["t"] == "call" and t["dest"]["l"] == 0 and callee(t) and callee(t)["name"] in ("from", "into") and t["args"]:
        k = t["args"][0].get("const", {})
        return bool(k.get("int"))
    return False


def another_number(f, b):
    """a further attempt to read a number, whose failure is looked at by itself"""
    t = f.blocks[b]["t"]
    return t["t"] == "call" and number(f.crate["types"][t["dty"]])


def numbers(f, u, rep):
    """failed conversions to a number in a function that could report them"""
    if not fail_result(f.lty(0)):
        return
    errs = {f.lty(0).arg(1).defpath}
    for l in range(f.argc + 1, len(f.locals)):
        if not number(f.lty(l)):
            continue
        for k, bi, si, o in u.get(l, []):
            c = callee(o) if si == "term" and k in ("callarg", "read") and o["t"] == "call" else None
            if si == "term" and k in ("def", "store"):
                rep.count("numbers_read")
            if c and (c["path"].startswith(("std::result::Result", "core::result::Result")) or
                      (c.get("impl_of") or "").startswith("std::result::Result")):
                if c["name"] in SWALLOW and not (c["name"] == "unwrap_or" and bounded(f, o)):
                    rep.violate(f"number:{f.short}:{c['name']}", "ignored-failure", loc(o["span"]),
                                f"a text that is not a number is replaced by a default (`{c['name']}`) in {f.short}, which could report it")
            elif k == "discr":
                if any(k3 == "discr" and b3 != bi and f.dominates(b3, bi) for k3, b3, s3, o3 in u[l]):
                    continue
                for k2, b2, s2, o2 in u.get(o["place"]["l"], []):
                    if k2 != "switch":
                        continue
                    arms = [x[1] for x in o2["vals"] if x[0] == 1] or \
                           ([o2["else"]] if any(x[0] == 0 for x in o2["vals"]) else [])
                    for e in arms:
                        if err_edge_leaks(f, e, l, errs, another_number):
                            rep.violate(f"number:{f.short}:branch", "ignored-failure", loc(o["span"]),
                                        f"{f.short} goes on without an error when a text is not a number")


def bounded(f, t):
    """unwrap_or with the largest or smallest number: the value is limited, not replaced"""
    k = t["args"][1].get("const", {}) if len(t["args"]) > 1 else {}
    return str(k.get("item", "")).endswith(("::MAX", "::MIN")) or k.get("int") in (
        127, -128, 255, 32767, -32768, 65535, 2**31 - 1, -2**31, 2**32 - 1, 2**63 - 1, -2**63, 2**64 - 1)


def declared(prog, rep, errs):
    made = set()
    for f in prog.bodies():
        if f.derived:
            continue
        for bi, si, s in f.stmts():
            if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") in errs:
                made.add((s["rv"]["def"], s["rv"].get("vname")))
            if s["s"] == "assign":
                made |= {x for op in rv_operands(s["rv"]) for x in ctor(op)}
        for bi, t in f.calls():
            made |= {x for op in t["args"] for x in ctor(op)}
            if callee(t):
                made.add(tuple(short(callee(t)["path"]).rsplit("::", 1)))
    for e in sorted(errs):
        if e in prog.adts and prog.adts[e]["local"]:
            for v in prog.variants(e):
                if v in REPORTED:
                    rep.count("kinds_of_error")
                    if (e, v) not in made:
                        rep.violate(f"unreported:{short(e)}:{v}", "ignored-failure", "-",
                                    f"nothing reports {short(e)}::{v} any more: this failure goes unnoticed or is turned into something else")


def ctor(op):
    k = op.get("const") or {}
    if "fn" in k:
        yield tuple(short(k["fn"]["path"]).rsplit("::", 1))


def err_edge_leaks(f, start, tracked, errs, handed=None):
    """can `return` be reached from `start` without an error having been put into the return
    place and without diverging? returns the block path, or None"""
    ret_is_result = is_result(f.lty(0))
    status = f.krate == "bin" and f.lty(0).k == "adt" and f.lty(0).defpath == "std::process::ExitCode"

    def sets_error(b):
        blk = f.blocks[b]
        if handed and handed(f, b):
            return True
        if status and exit_failure(f, b):
            return True
        if ret_is_result:
            for s in blk["s"]:
                if s["s"] == "assign" and s["place"]["l"] == 0 and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "agg" and rv.get("vname") == "Err":
                        return True
                    if rv["r"] == "use" and op_place(rv["op"]) and fail_result(f.lty(op_place(rv["op"])["l"])):
                        return True
        t = blk["t"]
        if t["t"] == "call":
            c = callee(t)
            if c and c["name"] == "from_residual":
                return True
            if t["to"] is None:
                return True                       # diverges: exit / panic / never-returning call
            if ret_is_result and t["dest"]["l"] == 0 and not t["dest"]["p"] and any(
                    is_error(peel(f.crate["types"][a])) or fail_result(f.crate["types"][a]) for a in t["atys"]):
                return True                       # the error is handed on (e.g. with added context)
        return False

    def is_error(ty):
        return failure(ty) and ty.defpath in errs

    st = [(start, (start,))]
    seen = {start}
    while st:
        b, path = st.pop()
        if sets_error(b):
            continue
        if f.blocks[b]["t"]["t"] == "return":
            return path
        for s in f.succ(b):
            if s not in seen:
                seen.add(s)
                st.append((s, path + (s,)))
    return None


def run(prog, rep):
    rep.rule("Rule 1: every value of type Result<_, failure type> is propagated, matched with an "
             "error arm that ends in an error or in process termination, or handed on; never dropped "
             "or reduced to its Ok part. Rule 2: no unwrap/expect of such a value. Rule 3: every "
             "process::exit in the CLI has a constant non-zero status and is preceded by a "
             "diagnostic; main terminates that way on the error result of the conversion. Rule 4: a text "
             "that is not a number is reported by a function that can report failures. Rule 5: each kind "
             "of error a document can cause is made somewhere.")
    items = result_items(prog)
    errs = error_types(prog)
    for f in prog.bodies():
        if f.derived or f.kind not in ("fn", "closure"):
            continue
        u = None
        n = 0
        for l, d in enumerate(f.locals):
            ty = f.lty(l)
            if not fail_result(ty) or l == 0:
                continue
            if l <= f.argc:
                continue
            if u is None:
                u = uses(f)
            us = u.get(l, [])
            defs = [x for x in us if x[0] in ("def", "store")]
            if not defs:
                continue
            rep.count("fallible_values")
            origin = None
            where = None
            for k, bi, si, o in defs:
                if si == "term":
                    c = callee(o)
                    origin = short(c["path"]) if c else "indirect call"
                    where = loc(o["span"])
                    probe = bool(c) and probe_fn(prog, c["path"])
                else:
                    rv = o["rv"]
                    origin = origin or "value"
                    where = where or loc(o["span"])
                    probe = False
            reads = [x for x in us if x[0] not in ("def", "store")]
            eff = [x for x in reads if x[0] != "drop"]
            name = f"{f.short}"
            if not eff:
                if any(o["rv"]["r"] == "agg" for k, bi, si, o in defs if si != "term"):
                    continue
                rep.violate(f"dropped:{name}:{origin}", "ignored-failure", where,
                            f"the failure of {origin} is discarded in {name}",
                            [f"{name} -> {origin}", "the result is only dropped, never inspected"])
                continue
            for k, bi, si, o in eff:
                if k in ("callarg", "read") and si == "term":
                    c = callee(o)
                    if not c:
                        continue
                    if c["path"].startswith(("std::result::Result", "core::result::Result")) or \
                            (c.get("impl_of") or "").startswith("std::result::Result"):
                        if c["name"] in SWALLOW and not probe:
                            rep.violate(f"swallowed:{name}:{origin}:{c['name']}", "ignored-failure", loc(o["span"]),
                                        f"the failure of {origin} is reduced by `{c['name']}` in {name}",
                                        [f"{name} -> {origin}", f"Result::{c['name']}"])
                        if c["name"] in ABORT:
                            rep.violate(f"abort:{name}:{origin}", "failure-becomes-panic", loc(o["span"]),
                                        f"the failure of {origin} is turned into a panic by `{c['name']}` in {name}",
                                        [f"{name} -> {origin}", f"Result::{c['name']}"])
                    if c["path"] in ("std::mem::drop", "core::mem::drop") or c["name"] == "drop" and c["path"].endswith("mem::drop"):
                        rep.violate(f"dropped:{name}:{origin}", "ignored-failure", loc(o["span"]),
                                    f"the failure of {origin} is discarded by drop() in {name}")
                elif k in ("ref", "mutref"):
                    # &result passed to is_ok()/is_err()/as_ref()
                    dl = o["place"]["l"] if si != "term" else None
                    for k2, b2, s2, o2 in u.get(dl, []):
                        if k2 == "callarg" and s2 == "term":
                            c = callee(o2)
                            if c and c["name"] in ("is_ok", "is_err") and "result::Result" in c["path"]:
                                sw = [x for x in u.get(o2["dest"]["l"], []) if x[0] == "switch"]
                                leak = not sw
                                for _k, _b, _s, o3 in sw:
                                    z = [x[1] for x in o3["vals"] if x[0] == 0]
                                    e = o3["else"] if c["name"] == "is_err" else (z[0] if z else None)
                                    leak = leak or e is None or err_edge_leaks(f, e, l, errs)
                                if not leak:
                                    rep.count("error_branches")
                                    continue
                            if c and c["name"] in SWALLOW and ("result::Result" in c["path"]) and not probe:
                                rep.violate(f"swallowed:{name}:{origin}:{c['name']}", "ignored-failure", loc(o2["span"]),
                                            f"the failure of {origin} is only tested by `{c['name']}` in {name}")
                elif k == "discr":
                    # a later test of the same discriminant only decides what is left to drop
                    if any(k3 == "discr" and b3 != bi and f.dominates(b3, bi) for k3, b3, s3, o3 in eff):
                        continue
                    dl = o["place"]["l"]
                    for k2, b2, s2, o2 in u.get(dl, []):
                        if k2 != "switch":
                            continue
                        rep.count("error_branches")
                        arms = [x[1] for x in o2["vals"] if x[0] == 1] or \
                               ([o2["else"]] if any(x[0] == 0 for x in o2["vals"]) else [])
                        for e in arms:
                            if probe:
                                rep.count("probe_branches")
                                continue
                            p = err_edge_leaks(f, e, l, errs)
                            if p:
                                rep.violate(f"swallowed:{name}:{origin}:branch", "ignored-failure", where,
                                            f"after {origin} fails, {name} can return without reporting the failure",
                                            [f"{name} -> {origin}", "error arm blocks " + ">".join(map(str, p[:12]))])
        if any(number(f.lty(l)) for l in range(len(f.locals))):
            numbers(f, u or uses(f), rep)
        # iterator adaptors that silently skip Err items
        for bi, t in f.calls():
            c = callee(t)
            if not c:
                continue
            if c["name"] in ITER_SWALLOW and t["atys"]:
                s = f.crate["types"][t["atys"][0]]
                base = peel(s).s.split("<")[0] if s else ""
                if base in items:
                    rep.violate(f"iter:{f.short}:{c['name']}", "ignored-failure", loc(t["span"]),
                                f"items of {base} that are errors are silently skipped by `{c['name']}` in {f.short}")
            for a in t["args"]:
                k = a.get("const")
                if k and "fn" in k and "result::Result" in k["fn"]["path"] and k["fn"]["name"] in SWALLOW:
                    rep.violate(f"iter:{f.short}:Result::{k['fn']['name']}", "ignored-failure", loc(t["span"]),
                                f"Result::{k['fn']['name']} used as an adaptor in {f.short}")
    declared(prog, rep, errs)
    # Rule 3
    exits = 0
    for f in prog.bodies():
        if f.krate != "bin" or f.derived:
            continue
        for bi, t in f.calls():
            c = callee(t)
            if c and c["path"] == "std::process::exit":
                exits += 1
                k = t["args"][0].get("const", {})
                if "int" not in k or int(k["int"]) == 0:
                    rep.violate(f"exit:{f.short}", "exit-status", loc(t["span"]),
                                f"{f.short} ends the program with a status that is not a non-zero constant")
                diag = [b for b, t2 in f.calls() if callee(t2) and
                        (callee(t2)["path"] in ("std::io::_eprint", "std::io::stdio::_eprint") or "log::" in callee(t2)["path"])
                        and f.dominates(b, bi)]
                # log macros test the level first: the diagnostic may sit in a side branch
                logs = [b for b, t2 in f.calls() if callee(t2) and callee(t2)["path"].startswith("log::")]
                if not diag and not logs:
                    rep.violate(f"exit-silent:{f.short}", "exit-status", loc(t["span"]),
                                f"{f.short} ends the program without a diagnostic")
        if f.lty(0).k == "adt" and f.lty(0).defpath == "std::process::ExitCode":
            for bi in f.reachable(0):
                if exit_failure(f, bi):
                    exits += 1
                    if not any(callee(t2) and (callee(t2)["path"] in ("std::io::_eprint", "std::io::stdio::_eprint")
                                               and f.dominates(b, bi) or callee(t2)["path"].startswith("log::"))
                               for b, t2 in f.calls()):
                        rep.violate(f"exit-silent:{f.short}", "exit-status", f"{f.file}:{f.line}",
                                    f"{f.short} ends the program without a diagnostic")
    rep.count("cli_exits", exits)
    # main must terminate with failure on the error of the conversion
    mains = [f for f in prog.bodies() if f.krate == "bin" and f.path == "bin::main"]
    for m in mains:
        if is_result(m.lty(0)):
            rep.count("main_checked")
            continue
        u = uses(m)
        seen = False
        for l in range(1, len(m.locals)):
            if fail_result(m.lty(l)):
                for k, bi, si, o in u[l]:
                    if k == "discr":
                        seen = True
        rep.count("main_checked", 1 if seen else 0)
    rep.floor("fallible_values", 150)
    rep.floor("error_branches", 5)
    rep.floor("main_checked", 1)
    rep.assume("failure types: the crate's own error enums, io, tera, serde_json, anyhow, zip and docx errors; "
               "a failed number conversion counts where the function returns such a failure; elsewhere it is a local fallback")
