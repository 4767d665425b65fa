"""P13: block markup counts only at the start of a line, and tokens are what their characters say."""
from collections import Counter, defaultdict
from mir import loc
import cursor
from cursor import LEN, TOP

# what the language says about each kind of token: its first and last characters (a set of alternatives each)
ADMONITION = {"NotePara": "NOTE", "TipPara": "TIP", "ImportantPara": "IMPORTANT", "CautionPara": "CAUTION", "WarningPara": "WARNING"}
TEXT = {"PassthroughBlock": (["++++"], None), "SidebarBlock": (["****"], None), "SourceBlock": (["----"], None), "QuoteVerseBlock": (["____"], None),
        "CommentBlock": (["////"], None), "ExampleBlock": (["===="], None), "LiteralBlock": (["...."], None), "OpenBlock": (["--"], None),
        "Table": (["|==="], None), "ThematicBreak": (["'''"], None), "PageBreak": (["<<<"], None), "BlockContinuation": (["+"], None),
        "LineContinuation": (["+"], None), "UnorderedListItem": (["* "], None), "OrderedListItem": ([". "], None), "BlockLabel": (["."], None),
        "NewLineChar": (["\n"], None), "Strong": (["*"], None), "UnconstrainedStrong": (["**"], None), "Emphasis": (["_"], None),
        "UnconstrainedEmphasis": (["__"], None), "Monospace": (["`"], None), "UnconstrainedMonospace": (["``"], None), "Mark": (["#"], None),
        "UnconstrainedMark": (["##"], None), "Literal": (["+"], None), "UnconstrainedLiteral": (["++"], None), "Superscript": (["^"], None),
        "Subscript": (["~"], None), "FootnoteMacro": (["footnote:["], None), "PassthroughInlineMacro": (["pass:["], None),
        "DescriptionListMarker": (["::"], [" ", "\n"]), "BlockAnchor": (["[["], ["]]"]), "ElementAttributes": (["["], ["]"]),
        "BlockImageMacro": (["image::"], ["]"]), "InlineImageMacro": (["image:"], ["]"]), "Include": (["include::"], ["]"]), "LinkMacro": (["http"], ["["]),
        "Hyperlink": (["http"], [""]), "CrossReference": (["<<"], [">>"]), "AttributeReference": (["{"], ["}"]), "Attribute": ([":"], [""]),
        "Comment": (["//"], [""]), "StartTag": (["tag::"], ["]"]), "EndTag": (["end::"], ["]"]), "CodeCallout": (["<"], [">"]),
        "CodeCalloutListItem": (["<"], ["> "]), "TableCell": (["|"], [""]), "InlineMacroClose": (["]"], None), "InlineStyle": (["[."], ["]"]),
        "OpenDoubleQuote": (['"`'], None), "CloseDoubleQuote": (['`"'], None), "OpenSingleQuote": (["'`"], None), "CloseSingleQuote": (["`'"], None)}
for n in range(1, 6):
    TEXT[f"Heading{n}"] = (["="], [" "])
for k, w in ADMONITION.items():
    TEXT[k] = ([w + ": ", "[" + w], [": ", "]"])
DELIMITERS = {"PassthroughBlock", "SidebarBlock", "SourceBlock", "QuoteVerseBlock", "CommentBlock", "ExampleBlock", "LiteralBlock", "OpenBlock", "Table",
              "ThematicBreak", "PageBreak", "BlockContinuation"}
START = DELIMITERS | set(ADMONITION) | {f"Heading{n}" for n in range(1, 6)} | {
    "UnorderedListItem", "OrderedListItem", "CodeCalloutListItem", "BlockLabel", "BlockAnchor", "ElementAttributes", "BlockImageMacro", "Include",
    "Attribute", "Comment"}
WHOLE = DELIMITERS | {"LineContinuation", "CodeCallout", "BlockAnchor", "ElementAttributes", "Attribute"}
# a lone dash pair is a dash there (pinned by a unit test), and nothing is left to be continued
ENDLESS = {"OpenBlock", "BlockContinuation"}
AFTER_SPACE = {"TableCell", "LineContinuation"}
BREAK = {"\n", "\0"}
# lines that must be recognised: their beginning and what follows it (None: the end of the input)
LINES = {k: [(TEXT[k][0][0], "\n")] + ([] if k in ENDLESS else [(TEXT[k][0][0], None)]) for k in DELIMITERS}
LINES.update({f"Heading{n}": [("=" * n + " ", "a")] for n in range(1, 6)})
LINES.update({k: [(w + ": ", "a"), (f"[{w}]", "\n")] for k, w in ADMONITION.items()})
LINES.update({"UnorderedListItem": [("* ", "a")], "OrderedListItem": [(". ", "a")], "CodeCalloutListItem": [("<1> ", "a")], "Comment": [("// ", "a"), ("//a", "\n")],
              "BlockLabel": [(".", "a")], "BlockAnchor": [("[[a]]", "\n")], "ElementAttributes": [("[a]", "\n"), ("[a]", None)],
              "Attribute": [(":a:", "\n"), (":a: b", "\n")], "BlockImageMacro": [("image::a[]", "\n")], "Include": [("include::a[]", "\n")]})


def run(prog, rep):
    rep.rule("start-of-line: on every abstract path of the scanner that makes a token of a kind of block markup, the token is at the start of the "
             "input or the character ahead of it is a line break")
    rep.rule("whole-line: the character behind a delimiter, break or attribute line is a line break, or the input ends there")
    rep.rule("recognised: for every kind of block markup some path makes it at the beginning of the input and some path behind a line break; for "
             "delimiters and breaks some path ahead of a line break and some path at the end of the input")
    rep.rule("one-line: a text token holds no line break")
    rep.rule("text: the first and last characters of a token are those of its kind's markup; a token of fixed text has its length")
    eng = cursor.analyse(prog, rep)
    if eng is None or eng.missing:
        rep.violate("anchor:scanner", "coverage-floor", "-", "the token iterator or its position fields were not found")
        return
    tok = prog.adt_fields(eng.nxt.lty(0).arg(0).arg(0).defpath)
    kind = max((x for x in tok if x[1].k == "adt" and prog.adts.get(x[1].defpath, {}).get("local")),
               key=lambda x: len(prog.adts[x[1].defpath]["variants"]))
    text = next((n for n, t in tok if t.k == "adt" and t.defpath == "std::string::String"), None)
    names = prog.variants(kind[1].defpath)
    blind = list(eng.notes)
    seen, odd, ways = Counter(), Counter(), defaultdict(set)
    for st in eng.finals:
        for ev in st.tokens:
            k = ev["fields"].get(kind[0], TOP)
            v = eng.strip(st, ev["fields"].get(text, TOP))
            if k[0] != "adt" or v[0] != "slice" or v[2] == LEN:
                odd[k[0] == "adt" and names[k[2]] or "unknown"] += 1
                continue
            k = names[k[2]]
            if k not in TEXT and k != "Text":
                continue
            seen[k] += 1
            A, B = v[1], v[2]
            where, via = loc(ev["span"]), [" -> ".join(ev["chain"])]
            who = ev["chain"][-1] if ev["chain"] else eng.nxt.short

            def bad(rule, key, msg):
                if blind:
                    rep.note(f"{msg}: not decided, the scanner uses what is not modelled ({blind[0]})")
                else:
                    rep.violate(f"{rule}:{k}:{key}", rule, where, msg, via)
            if k == "Text" and st.nlbetween(A, B) != 0:
                bad("one-line", "", "a text can go on over a line break, so that markup at the beginning of the next line is not seen")
            before = st.charset(A[0], A[1] - 1)
            if k in START and not at_start(st, A) and not (before and before <= {"\n"}):
                bad("start-of-line", "", f"{k} can be recognised in the middle of a line")
            if k in AFTER_SPACE and not at_start(st, A) and not (before and before <= {"\n", " "}):
                bad("start-of-line", "", f"{k} can be recognised right behind other characters")
            after = st.charset(*B)
            if at_start(st, A) or st.decide(("poszero", *A)) is not False:
                ways[k].add("at the beginning of the input")
            if before is None or "\n" in before:
                ways[k].add("at the beginning of a later line")
            if st.q_end(*B):
                ways[k].add("at the end of the input")
            elif after is None or "\n" in after:
                ways[k].add("ahead of a line break")
            if k in WHOLE and not st.q_end(*B) and not (after and after <= BREAK):
                bad("whole-line", "", f"{k} can be recognised although other characters follow on its line")
            if k not in TEXT:
                continue
            first, last = TEXT[k]
            fit = [w for w in first if fits(st, A, w)]
            if not fit:
                bad("text", "begin", f"a token of kind {k} can begin with other characters than {' or '.join(map(repr, first))}")
            elif last is None:
                if A[0] == B[0] and B[1] - A[1] != len(fit[0]):
                    bad("text", "length", f"a token of kind {k} can have {B[1] - A[1]} instead of {len(fit[0])} characters")
            elif not any(fits(st, (B[0], B[1] - len(w)), w) for w in last) and not (
                    len(last) > 1 and between(st, B, last)):
                bad("text", "end", f"a token of kind {k} can end with other characters than {' or '.join(map(repr, last))}")
            if k.startswith("Heading"):
                n = length(st, A, B)
                if n is not None and n != int(k[-1]) + 1:
                    bad("text", "length", f"a token of kind {k} can have {n - 1} equals signs")
                elif n is None:
                    odd[k] += 1
    always(prog, rep, eng, names, kind[0], blind)
    for k, n in seen.items():
        rep.count("token_paths", n)
        rep.sample(f"{k}: {n} paths")
    rep.count("kinds", len(seen))
    for k in sorted(TEXT):
        if k not in names or k in odd and k not in seen:
            continue
        must = ["at the beginning of the input", "at the beginning of a later line"] if k in START else []
        if k in DELIMITERS:
            must.append("ahead of a line break")
            if k not in ENDLESS:
                must.append("at the end of the input")
        if k not in seen:
            must = ["anywhere"]
        for w in must:
            if w in ways[k]:
                rep.count("recognised")
            elif blind:
                rep.note(f"{k}: not known to be recognised {w} ({blind[0]})")
            else:
                rep.violate(f"recognised:{k}:{w}", "recognised", loc(eng.nxt.blocks[0]["sp"]) if "sp" in eng.nxt.blocks[0] else eng.nxt.short,
                            f"no path of the scanner recognises {k} {w}", [])
    for k, n in odd.items():
        if k in TEXT:
            rep.note(f"{k}: {n} tokens with a text that is not a part of the input: not decided")
    rep.floor("kinds", 40)
    rep.assume("The kinds of tokens keep their names.")


def always(prog, rep, eng, names, kind, blind):
    """no path takes such a line for something else (the flags of the scanner being as they are at first)"""
    rep.rule("always: no path of the scanner that makes another token is consistent with a line that begins with the markup; the conditions of the path are "
             "checked against the characters of the line, loops over them are resolved")
    usual = first_flags(prog, eng)
    wrong = {}
    for st in eng.finals:
        if not st.tokens or any(isinstance(k, str) and k.startswith("flag:") and v != usual.get(k[5:], v) for k, v in st.unk.items()):
            continue
        ev = st.tokens[0]
        k = ev["fields"].get(kind, TOP)
        k = names[k[2]] if k[0] == "adt" else None
        cs = st.charset("T", 0)
        for K, lines in LINES.items():
            if K not in names or k == K or k is None:
                continue
            for w, after in lines:
                if (cs is None or w[0] in cs) and (K, w, after, k) not in wrong:
                    rep.count("lines_against_paths")
                    for zero in (True, False):
                        if consistent(st, w, after, zero):
                            wrong[K, w, after, k] = (ev, zero)
    for (K, w, after, k), (ev, zero) in wrong.items():
        msg = f"{'the first' if zero else 'a later'} line that begins with {w + (after or '')!r} can be taken for {k} instead of {K}"
        if blind:
            rep.note(f"{msg}: not decided, the scanner uses what is not modelled ({blind[0]})")
        else:
            rep.violate(f"always:{K}:{w}:{k}", "always", loc(ev["span"]), msg, [" -> ".join(ev["chain"])])


def first_flags(prog, eng):
    """the values new scanners are made with"""
    fields = [n for n, _t in prog.adt_fields(eng.sdef)]
    vals = defaultdict(set)
    for f in prog.bodies():
        for _b, _i, x in f.stmts():
            rv = x["rv"] if x["s"] == "assign" else {"r": None}
            if rv["r"] == "agg" and rv.get("def") == eng.sdef:
                for n, o in zip(fields, rv["ops"]):
                    vals[n].add(o.get("const", {}).get("bool"))
    return {n: v.pop() for n, v in vals.items() if len(v) == 1 and None not in v}


def consistent(st, w, after, zero):
    s = st.copy()
    try:
        s.assume(("poszero", "T", 0), zero)
        if not zero:
            s.assume(("cin", "T", -1, frozenset("\n")), True)
        for i, c in enumerate(w + (after or "")):
            s.assume(("gelen", "T", i), False)
            s.assume(("bnd", "T", i), True)
            s.assume(("cin", "T", i, frozenset(c)), True)
        n = len(w + (after or ""))
        s.assume(("bnd", "T", n), True)
        if after is None:
            s.assume(("gelen", "T", n), True)
        sub = resolve(s)

        def put(p):
            return (sub[p[0]][0], p[1] + sub[p[0]][1]) if p[0] in sub else p
        for k, v in st.unk.items():
            if isinstance(k, tuple) and k[0] == "val":
                tot, syms = 0, Counter()
                for x, c in k[1]:
                    b, o = sub.get(x, (x, 0))
                    tot += c * o
                    syms[b] += c
                if not any(syms.values()) and tot != v:
                    return False
        for c, t in st.log:
            if c[0] == "unk" and isinstance(c[1], tuple) and c[1][0] == "has":
                d = holds(s, put(c[1][1]), put(c[1][2]), c[1][3])
            elif c[0] == "ends":
                A, B = put(c[1]), put(c[2])
                d = s.decide(("seqany", B[0], B[1] - len(c[3]), len(c[3]), (c[3],))) if A[0] == B[0] else None
            else:
                if len(c) > 2 and c[1] in sub:
                    c = (c[0], *put((c[1], c[2])), *c[3:])
                d = s.decide(c)
            if d is not None and d != t:
                return False
    except cursor.Contradiction:
        return False
    return True


def holds(s, A, B, c):
    if A[0] != B[0]:
        return None
    sets = [s.charset(A[0], i) for i in range(A[1], B[1])]
    if any(x == {c} for x in sets):
        return True
    return False if all(x is not None and c not in x for x in sets) else None


def resolve(s):
    """where the loops over the line's characters end"""
    sub = {}
    for (sig, init), H in s.memo.items():
        A, off = init
        if A in sub:
            A, off = sub[A][0], off + sub[A][1]
        for j in range(16):
            can = {"back": False, "exit": False}
            for tg, ents in sig:
                ds = [(s.decide((e[0], A, off + j + e[1], *e[2:-1])), e[-1]) for e in ents]
                can[tg] |= all(d is None or d == t for d, t in ds)
            if can["back"] and not can["exit"]:
                continue
            if can["exit"] and not can["back"]:
                sub[H] = (A, off + j)
            break
    return sub


def at_start(st, A):
    return A == ("Z", 0) or A[1] == 0 and st.unk.get(("zero", A[0])) is True


def fits(st, A, w):
    return all((st.charset(A[0], A[1] + i) or {"", "?"}) == {c} for i, c in enumerate(w))


def length(st, A, B):
    if A[0] == B[0]:
        return B[1] - A[1]
    for (sa, sb, sign) in ((A[0], B[0], 1), (B[0], A[0], -1)):
        terms = tuple(sorted([(sb, 1)] * (sb != "Z") + [(sa, -1)] * (sa != "Z")))
        d = st.unk.get(("val", terms))
        if d is not None:
            return sign * d + B[1] - A[1]
    return None


def between(st, B, last):
    """one of several single characters"""
    c = st.charset(B[0], B[1] - 1)
    return c is not None and c <= {w[-1] for w in last}
