"""Small reusable dataflow helpers over one function body."""
from collections import defaultdict
from mir import callee, short, rv_operands, loc

EXIT = {"std::process::exit", "std::process::abort"}


def op_place(op):
    return op.get("copy") or op.get("move")


def op_local(op):
    """local read whole (no projection)"""
    p = op_place(op)
    return p["l"] if p and not p["p"] else None


def const_of(op):
    return op.get("const")


def uses(fn):
    """local -> list of (kind, block, index or 'term', obj). kinds: move/copy/ref/mutref/discr/
    read (through projection)/drop/arg/def/callarg"""
    u = defaultdict(list)
    for bi, b in enumerate(fn.blocks):
        if b["cleanup"]:
            continue
        for si, s in enumerate(b["s"]):
            if s["s"] == "assign":
                rv = s["rv"]
                if s["place"]["p"]:
                    u[s["place"]["l"]].append(("store", bi, si, s))
                else:
                    u[s["place"]["l"]].append(("def", bi, si, s))
                for e in s["place"]["p"]:
                    if e[0] == "index":
                        u[e[1]].append(("copy", bi, si, s))
                for op in rv_operands(rv):
                    p = op_place(op)
                    if p:
                        k = "move" if "move" in op else "copy"
                        u[p["l"]].append((k if not p["p"] else "read", bi, si, s))
                        for e in p["p"]:
                            if e[0] == "index":
                                u[e[1]].append(("copy", bi, si, s))
                if "place" in rv:
                    p = rv["place"]
                    k = {"ref": "mutref" if rv.get("mut") else "ref", "discr": "discr"}.get(rv["r"], "read")
                    u[p["l"]].append((k, bi, si, s))
            elif s["s"] == "setdiscr":
                u[s["place"]["l"]].append(("store", bi, si, s))
        t = b["t"]
        if t["t"] == "call":
            for a in t["args"]:
                p = op_place(a)
                if p:
                    u[p["l"]].append(("callarg" if not p["p"] else "read", bi, "term", t))
            p = op_place(t["func"])
            if p:
                u[p["l"]].append(("callarg", bi, "term", t))
            d = t["dest"]
            u[d["l"]].append(("def" if not d["p"] else "store", bi, "term", t))
        elif t["t"] == "switch":
            p = op_place(t["op"])
            if p:
                u[p["l"]].append(("switch", bi, "term", t))
        elif t["t"] == "drop":
            u[t["place"]["l"]].append(("drop", bi, "term", t))
        elif t["t"] == "assert":
            p = op_place(t["cond"])
            if p:
                u[p["l"]].append(("copy", bi, "term", t))
            for o in t.get("ops", []):
                p = op_place(o)
                if p:
                    u[p["l"]].append(("copy", bi, "term", t))
    return u


def single_defs(fn):
    """local -> ('stmt', bi, si, rv) / ('call', bi, term) when it has exactly one definition"""
    d = defaultdict(list)
    for bi, b in enumerate(fn.blocks):
        if b["cleanup"]:
            continue
        for si, s in enumerate(b["s"]):
            if s["s"] == "assign" and not s["place"]["p"]:
                d[s["place"]["l"]].append(("stmt", bi, si, s["rv"]))
        t = b["t"]
        if t["t"] == "call" and not t["dest"]["p"]:
            d[t["dest"]["l"]].append(("call", bi, t))
    return {l: v[0] for l, v in d.items() if len(v) == 1}


def diverges(prog, path, _memo={}):
    return path in EXIT or path.startswith("core::panicking") or path.startswith("std::rt::begin_panic") \
        or path.startswith("core::option::expect_failed") or path.startswith("core::option::unwrap_failed")


def is_result(ty):
    return ty is not None and ty.k == "adt" and ty.defpath == "std::result::Result"


def is_option(ty):
    return ty is not None and ty.k == "adt" and ty.defpath == "std::option::Option"
