"""P02: the tokens tile the source, and their line and column positions are those of their text."""
from mir import loc
import cursor
from cursor import is_int, TOP, lin_add

MARKERS = {"StartTag", "EndTag"}


def run(prog, rep):
    rep.rule("On every abstract path of the token iterator that returns a token: the token's text is the source from "
             "where the previous token ended to where the next one starts, its line and first column are the ones at that "
             "place, its last column is first column + length - 1, and afterwards the line counter has grown by exactly the "
             "number of line breaks consumed and the column is 1 after a line break, or moved by the length otherwise. "
             "Include-tag markers (which swallow the rest of their line) only have to keep the line counter right.")
    eng = cursor.analyse(prog, rep)
    if eng is None or eng.missing:
        rep.violate("anchor:scanner", "coverage-floor", "-", "the token iterator or its position fields were not found")
        return
    r = eng.roles
    tdef = None
    for p in prog.adts:
        if p.endswith("scanner::tokens::TokenType"):
            tdef = p
    variants = prog.variants(tdef)
    one = ("int", (), 1)
    L, C, T = (("int", ((s, 1),), 0) for s in ("L", "C", "T"))
    for st in eng.finals:
        if st.q_end("T", 0) is True:
            continue
        ret = st.store.get("RET", TOP)
        if not st.tokens:
            if ret[0] == "adt" and ret[2] == 1 and ret[3].get(0, TOP)[0] == "adt" and ret[3][0][2] == 1:
                rep.count("error_paths")
            else:
                rep.note("a path returns something whose construction was not seen")
            continue
        rep.count("token_paths")
        ev = st.tokens[-1]
        fl = ev["fields"]
        who, where, via = ev["fn"], loc(ev["span"]), [" -> ".join(ev["chain"])]
        chain = "/".join(ev["chain"][1:])
        tt = fl.get("token_type", TOP)
        tname = variants[tt[2]] if tt[0] == "adt" and tt[2] < len(variants) else "?"
        marker = tname in MARKERS
        via = via + [f"token type {tname}"] + [f"assuming {eng.show(c, t)}" for c, t in st.log[-6:]]

        def bad(rule, msg):
            rep.violate(f"{rule}:{tname}", rule, where, msg + f" ({tname} made by {chain})", via)
        f = st.store["SELF"][3]
        end = eng.pos(st, f[r["current"]])
        cur = eng.pos(st, ev["cur"])
        if end is None or cur is None:
            rep.note("unmodelled cursor")
            continue
        lex = eng.strip(st, fl.get("lexeme", TOP))
        if not marker:
            rep.count("texts_checked")
            if lex[0] == "slice":
                if lex[1] != ("T", 0):
                    bad("text-start", "the token text does not start where the previous token ended")
                elif lex[2] != cur:
                    bad("text-end", "the token text does not end at the cursor")
                if end != cur:
                    bad("text-end", "the scanner moves on after the token text ends: source text is skipped")
                elif len(st.tokens) > 1:
                    bad("token-dropped", "two tokens are built but only one is returned")
            elif lex[0] == "altered":
                bad("text-altered", f"the token text is the source changed by {lex[1]}")
            elif lex in (("str", ""), ("string", ())) and cur != ("T", 0):
                bad("text-altered", "the token text is empty although source text is consumed")
            else:
                rep.note(f"token text of {who} is not a slice of the source")
            own = eng.strip(st, fl.get("literal", TOP))
            if own[0] == "adt" and own[2] == 1:
                own = eng.strip(st, own[3].get(0, TOP))
                rep.count("own_texts_checked")
                if own[0] == "slice" and (own[1] != ("T", 0) or own[2] != cur):
                    bad("text-altered", "the text kept with the token is another part of the source")
                elif own[0] == "altered":
                    bad("text-altered", f"the text kept with the token is the source changed by {own[1]}")
                elif own in (("str", ""), ("string", ())) and cur != ("T", 0):
                    bad("text-altered", "the text kept with the token is empty although source text is consumed")
        n = st.nlbetween(("T", 0), end)
        key, off = st.span_key(("T", 0), end)
        line = f[r["line"]]
        rep.count("line_checks")
        if is_int(line):
            d = lin_add(line, L, -1)
            if n is None and d == ("int", (("N:" + key, 1),), 0):
                rep.count("multi_line_tokens")
            elif d[1]:
                bad("line-count", "the line counter is not derived from the previous one")
            elif n is None:
                bad("line-count", "the token can contain line breaks that are not counted")
            elif d[2] != n:
                bad("line-count", f"the line counter moves by {d[2]} while {n} line breaks are consumed")
        tl = eng.strip(st, fl.get("line", TOP))
        if is_int(tl) and tl != L:
            bad("token-line", "the token's line is not the line it starts on")
        if marker:
            rep.count("marker_paths")
            continue
        tc = eng.strip(st, fl.get("startcol", TOP))
        rep.count("column_checks")
        if is_int(tc) and tc != C:
            bad("token-column", "the token's first column is not the column it starts at")
        length = lin_add(ev["cur"], T, -1)
        te = eng.strip(st, fl.get("endcol", TOP))
        if is_int(te) and is_int(tc) and te != lin_add(lin_add(tc, length), one, -1):
            bad("token-end-column", "the token's last column is not its first column plus its length minus one")
        col = f[r["startcol"]]
        if is_int(col):
            if n == 0 and col != lin_add(C, length):
                bad("next-column", "the column does not move by the length of the token")
            elif n != 0 and col != one and st.newline(end[0], end[1] - 1) == 1:
                bad("next-column", "the column is not reset after a line break")
            elif n != 0 and st.newline(end[0], end[1] - 1) != 1:
                if col != ("int", (("K:" + key, 1),), end[1] - off):
                    bad("next-column", "the column is not counted from the last line break of the token")
    from props.p01 import aggs
    for g in prog.bodies():
        for _b, s in aggs(g, eng.sdef):
            rep.count("scanner_constructions")
            for n, want in (("current", 0), ("line", 1), ("startcol", 1)):
                o = s["rv"]["ops"][r[n]]
                v = o.get("const", {}).get("int") if "const" in o else None
                if v is None:
                    rep.note(f"{n} is not a constant in {g.short}")
                elif int(v) != want:
                    rep.violate(f"start-state:{n}:{g.short}", "start-state", loc(s["span"]),
                                f"scanning starts with {n} = {v} instead of {want}")
    rep.floor("token_paths", 200)
    rep.floor("texts_checked", 200)
    rep.floor("column_checks", 200)
