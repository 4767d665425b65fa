"""What the scanner guarantees about the text of a token, by its type."""
from cursor import LEN, TOP, is_int, lin_add
from panics import join_text

STRING = "std::string::String"


def shapes(prog, eng):
    """per token field and token type: minimal length in bytes and (possible first characters, possible last
    characters, characters contained); from every token the scanner makes"""
    tok = eng.nxt.lty(0).arg(0).arg(0).defpath
    fl = prog.adt_fields(tok)
    names = [n for n, _t in fl]
    # the field that tells what kind of token it is; the fields that hold text
    tt = max((i for i, (_n, t) in enumerate(fl) if t.k == "adt" and prog.adts.get(t.defpath, {}).get("local")),
             key=lambda i: len(prog.adts[fl[i][1].defpath]["variants"]))
    ttdef = fl[tt][1].defpath
    texts = [i for i, (_n, t) in enumerate(fl) if t.k == "adt" and (
        t.defpath == STRING or t.defpath == "std::option::Option" and t.arg(0).k == "adt" and t.arg(0).defpath == STRING)]
    out = {"token": tok, "tt": tt, "ttdef": ttdef, "fields": {}, "ints": {}, "odd": 0,
           "kinds": frozenset(range(len(prog.variants(ttdef))))}
    tabs = {i: {} for i in texts}
    ints = {}
    for st in eng.finals:
        for ev in st.tokens:
            f = ev["fields"]
            t = f.get(names[tt], TOP)
            kinds = [t[2]] if t[0] == "adt" else list(out["kinds"])
            if t[0] != "adt":
                out["odd"] += 1
            for i, tab in tabs.items():
                v = eng.strip(st, f.get(names[i], TOP))
                if v[0] == "adt" and v[1] == "std::option::Option":
                    if v[2] == 0:
                        continue
                    v = eng.strip(st, v[3].get(0, TOP))
                s = shape(st, v)
                for k in kinds:
                    o = tab.get(k)
                    tab[k] = s if o is None else (min(o[0], s[0]), join_text(o[1], s[1]))
            for i, (n, ty) in enumerate(fl):
                if ty is not None and ty.k == "uint":
                    v = f.get(n, TOP)
                    lo = st.lower(v) if is_int(v) else None
                    ints[i] = min(ints.get(i, 10 ** 9), lo or 0)
    out["fields"] = tabs
    out["option"] = {i: fl[i][1].defpath == "std::option::Option" for i in tabs}
    out["ints"] = {i: lo for i, lo in ints.items() if lo > 0}
    return out


def shape(st, v):
    if v[0] == "str":
        cs = v[1]
        pre = tuple(frozenset(c) for c in cs) if all(ord(c) < 128 for c in cs) else ()
        return (len(cs.encode()), (pre, pre[::-1], frozenset(cs)))
    if v[0] != "slice" or v[2] == LEN:
        return (0, None)
    (A, a), (B, b) = v[1], v[2]
    d = b - a if A == B else st.dist(A, B)
    n = 0 if d is None else (d if A == B else max(0, d + b - a))
    pre, suf = [], []
    for i in range(12):
        c = st.charset(A, a + i)
        if c is None or not st.ascii(A, a + i) or i >= n:
            break
        pre.append(frozenset(c))
    for i in range(12):
        c = st.charset(B, b - 1 - i)
        if c is None or not st.ascii(B, b - 1 - i) or i >= n:
            break
        suf.append(frozenset(c))
    has = set()
    for k, truth in st.unk.items():
        if truth and isinstance(k, tuple) and k[0] == "has" and k[2] != LEN:
            (X, x), (Y, y) = k[1], k[2]
            inside = (X, x) == (A, a) or X == A and x >= a
            inside = inside and (Y == B and y <= b or Y != B and st.dist(Y, B) is not None and
                                 y <= b + st.dist(Y, B))
            if inside:
                has |= set(k[3])
    for c in pre + suf:
        if len(c) == 1:
            has |= c
    t = (tuple(pre), tuple(suf), frozenset(has))
    return (n, t if any(t) else None)
