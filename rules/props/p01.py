"""P01: scanning is total - no input makes the scanner panic, run past its input, recurse or loop."""
from mir import callee, short, loc
import cursor
from cursor import is_int, TOP


def run(prog, rep):
    rep.rule("Abstract interpretation of one step of the token iterator over the MIR (scanner functions inlined, "
             "loops by inferred invariants), started from an arbitrary position on a character boundary of an arbitrary "
             "input. Every byte access is inside the input, every slice is ordered, inside the input and on character "
             "boundaries, every subtraction stays non-negative, every unwrapped value exists, no abort and no recursion is "
             "reachable, every loop iteration consumes input, every token consumes at least one byte, and the state the "
             "next step starts from satisfies the assumption of this one.")
    eng = cursor.analyse(prog, rep)
    if eng is None or eng.missing:
        rep.violate("anchor:scanner", "coverage-floor", "-", "the token iterator or its position fields were not found"
                    + (f": {eng.missing}" if eng else ""))
        return
    for key, (kind, where, msg, path) in eng.findings.items():
        rep.violate(key, kind, where, msg, path)
    for k, (n, ok) in eng.obl.items():
        rep.count("obligations: " + k, n)
    rep.count("abstract_paths", eng.paths)
    rep.count("scanner_functions", len(eng.fns_seen))
    rep.count("loops", len(eng.loops_seen))
    for n, c in eng.notes.items():
        rep.note(f"{n} ({c}x)")
    r = eng.roles
    where = f"{eng.nxt.file}:{eng.nxt.line}"
    for st in eng.finals:
        f = st.store["SELF"][3]
        p = eng.pos(st, f[r["current"]])
        end = st.q_end("T", 0)
        ret = st.store.get("RET", TOP)
        if p is None:
            rep.note("a path ends with an unmodelled cursor")
            continue
        last = st.tokens[-1] if st.tokens else None
        who = last["fn"] if last else eng.nxt.short
        w2 = loc(last["span"]) if last else where
        via = [" -> ".join(last["chain"])] if last else []
        rep.count("token_ends")
        if end is True:
            # at the end: either one end marker or None, and the flag goes down
            if ret[0] == "adt" and ret[2] == 1:
                flags = [i for i, v in f.items() if v == ("bool", False)]
                names = {i: n for n, i in r.items()}
                if not any(st.unk.get("flag:" + names[i]) is True for i in flags):
                    rep.violate("end-marker-repeats", "termination", where, "at the end of the input a token is returned "
                                "without recording that the end was reported: the iterator never ends")
            elif ret[0] == "adt" and ret[2] == 0:
                rep.count("end_of_stream_paths")
            continue
        if not st.q_le(*p):
            rep.violate(f"end-invariant:le:{who}", "invariant", w2, "the scanner can be left past the end of the input", via)
        if st.q_bnd(*p) is not True:
            rep.violate(f"end-invariant:boundary:{who}:{'/'.join(last['chain'][1:]) if last else ''}", "invariant", w2,
                        "the next token can start inside a multi-byte character", via)
        err = ret[0] == "adt" and ret[2] == 1 and ret[3].get(0, TOP)[0] == "adt" and ret[3][0][2] == 1
        lo = st.lower(cursor.lin_add(f[r["current"]], ("int", (("T", 1),), 0), -1))
        if not err and (lo is None or lo < 1):
            rep.violate(f"empty-token:{who}", "termination", w2, "a token can be produced without consuming input", via)
        for n in ("line", "startcol"):
            v = f[r[n]]
            if is_int(v):
                l2 = st.lower(v)
                if l2 is None or l2 < 1:
                    rep.violate(f"end-invariant:{n}:{who}", "invariant", w2, f"the {n} counter may drop below one", via)
    # constructors establish the start state
    for f in prog.bodies():
        for _b, s in aggs(f, eng.sdef):
            rep.count("scanner_constructions")
            ops = s["rv"]["ops"]
            for n, lo in (("current", 0), ("line", 1), ("startcol", 1)):
                o = ops[r[n]]
                v = o.get("const", {}).get("int") if "const" in o else None
                if v is None:
                    rep.note(f"{n} is not a constant in {f.short}")
                elif (n == "current" and int(v) != 0) or int(v) < lo:
                    rep.violate(f"start-state:{n}:{f.short}", "invariant", loc(s["span"]), f"a scanner is created with {n} = {v}")
    # helpers that are not inlined must not be able to abort
    from flow import diverges
    reach = prog.reach_from([eng.nxt.path])
    for p in sorted(reach):
        g = prog.fns.get(p)
        if g is None or p in eng.fns_seen or g.derived or g.kind not in ("fn", "closure"):
            continue
        rep.count("helpers_checked")
        for bi, t in g.calls():
            c = callee(t)
            if g.blocks[bi]["cleanup"]:
                continue
            bad = t["to"] is None or (c and c["name"] in ("unwrap", "expect", "index", "index_mut", "remove"))
            if bad:
                rep.violate(f"helper-abort:{g.short}:{c['name'] if c else '?'}", "abort", loc(t["span"]),
                            f"{g.short}, called while scanning, can abort in {short(c['path']) if c else '?'}")
    rep.floor("token_ends", 200)
    rep.floor("scanner_functions", 5)
    rep.floor("scanner_constructions", 1)
    rep.floor("end_of_stream_paths", 1)
    rep.assume("usize additions do not overflow (inputs are far smaller than the address space)")


def aggs(f, d):
    for b in f.blocks:
        if b["cleanup"]:
            continue
        for s in b["s"]:
            if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") == d:
                yield b, s
