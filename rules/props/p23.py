"""Text of different blocks never runs together in the collected text (and so in the word count)."""
from mir import callee, short
from flow import op_place
from visit import Visitor

APPEND = {"push_str", "push", "extend", "add_assign", "add", "write_str", "insert_str"}
TRIM = {"trim", "trim_end", "trim_right", "trim_matches", "trim_end_matches", "trim_ascii", "trim_ascii_end"}
CUT = {"pop", "truncate", "remove", "drain", "retain", "replace", "replacen", "clear", "split_off", "replace_range"}
# how words may be told apart: what cuts a text into words only at some white space, or leaves words out
NOTWORDS = {"lines", "split_once", "rsplit_once", "splitn", "rsplitn", "take", "skip", "take_while", "skip_while", "step_by", "chars", "bytes",
            "char_indices", "len", "split_terminator", "split_at", "nth", "dedup", "get", "replace", "replacen", "remove_matches",
            "unique", "from_iter", "HashSet"}
JOIN0 = {"collect", "concat", "from_iter", "sum", "product", "flatten"}
CLEAN = ("clean",)


class Sep:
    def __init__(self, prog, rep):
        self.prog, self.rep = prog, rep
        self.v = Visitor(prog, lambda a, n, t: True, None)
        self.memo = {}

    def level(self, t):
        """block / inline / None for the content a type holds"""
        if t is None:
            return None
        if self.v._mentions(t, {self.v.block}) or self._struct(t):
            return "block"
        if self.v._mentions(t, {self.v.inline}):
            return "inline"
        return None

    def _struct(self, t):
        t = self.v.strip(t)
        if t is None or t.k != "adt" or t.defpath not in self.v.content or t.defpath == self.v.inline:
            return False
        if not self.v.is_enum(t.defpath):
            return any(self.v._mentions(x, {self.v.block}) for _n, x in self.v.fields(t.defpath) if x is not None) \
                or not any(t.defpath == self._pay(vi) for vi in range(len(self.v.local[self.v.inline]["variants"])))
        return False

    def _pay(self, vi):
        for _n, t in self.v.fields(self.v.inline, vi):
            s = self.v.strip(t)
            return s.defpath if s is not None else None

    def is_string(self, t):
        t = self.v.strip(t)
        return t is not None and (t.k == "str" or t.defpath == "std::string::String" or t.s.startswith("std::borrow::Cow<"))

    def producer(self, f, g):
        """g turns document content into text: 'block' or 'inline'"""
        if not self.is_string(g.lty(0)):
            return None
        best = None
        for p in range(1, g.argc + 1):
            l = self.level(g.lty(p))
            if l == "block":
                return "block"
            best = best or l
        return best

    def summary(self, g):
        """how the text of a block-level function can end: subset of {'clean', 'dirty'}"""
        if g.path not in self.memo:
            self.memo[g.path] = {"clean"}
            for _ in range(4):
                r = self.analyse(g)
                if r == self.memo[g.path]:
                    break
                self.memo[g.path] = r
        return self.memo[g.path]

    def texts(self, f, info):
        """local -> set of ('inline', group) / ('block', g) texts it may hold"""
        txt = {}

        def add(l, s):
            if s - txt.setdefault(l, set()):
                txt[l] |= s
                return True
            return False
        ch = True
        while ch:
            ch = False
            for bi, b in enumerate(f.blocks):
                if b["cleanup"]:
                    continue
                for s in b["s"]:
                    if s["s"] != "assign" or s["place"]["p"]:
                        continue
                    rv = s["rv"]
                    p = op_place(rv["op"]) if rv["r"] == "use" else rv.get("place") if rv["r"] == "ref" else None
                    if p and txt.get(p["l"]) and self.is_string(f.lty(s["place"]["l"])):
                        ch |= add(s["place"]["l"], txt[p["l"]])
                t = b["t"]
                if t["t"] != "call":
                    continue
                c = callee(t)
                g = self.prog.fns.get(c["path"]) if c else None
                if g is not None and not g.derived:
                    k = self.producer(f, g)
                    if k == "block":
                        ch |= add(t["dest"]["l"], {("block", g.path)})
                    elif k == "inline":
                        grp = frozenset((r, tuple(x for x in st if x[0] != "e")) for a in t["args"] for r, st, _ in info.op_origins(a))
                        ch |= add(t["dest"]["l"], {("inline", grp)})
                elif self.is_string(f.lty(t["dest"]["l"])):
                    nm = short(c["path"]).rsplit("::", 1)[-1] if c else ""
                    if nm in ("clone", "to_string", "as_str", "deref", "into", "to_owned", "borrow", "as_ref", "from", "as_mut_str",
                              "trim_start") or nm in TRIM:
                        for a in t["args"]:
                            p = op_place(a)
                            if p and txt.get(p["l"]):
                                ch |= add(t["dest"]["l"], {("trimmed",) + k[1:] if nm in TRIM and k[0] == "block" else k for k in txt[p["l"]]})
        return txt

    def sep_const(self, f, info, a):
        c = a.get("const")
        if c is None:
            return None
        if "str" in c:
            s = c["str"]
        elif "char" in c:
            s = c["char"] if isinstance(c["char"], str) else chr(int(c["char"]))
        else:
            return None
        return any(ch.isspace() for ch in s[:1] + s[-1:]) if s else None

    def analyse(self, f):
        info = self.v.info(f)
        txt = self.texts(f, info)
        state = {0: {CLEAN}}
        work = [0]
        out = set()
        where = f"{f.file}:{f.line}"
        self.rep.count("functions_analysed") if f.path not in getattr(self, "_seen", set()) else None
        self.__dict__.setdefault("_seen", set()).add(f.path)

        def append(st, kinds):
            new = set()
            for s in st:
                for k in kinds:
                    if k[0] == "sep":
                        new.add(CLEAN)
                    elif k[0] == "inline":
                        if s != CLEAN and s != ("dirty", k[1]):
                            self.bad(f, k, s)
                        new.add(("dirty", k[1]))
                    else:
                        if s != CLEAN:
                            self.bad(f, k, s)
                        e = self.summary(self.prog.fns[k[1]])
                        if k[0] == "trimmed":
                            e = {"dirty"}
                        if "clean" in e:
                            new.add(CLEAN)
                        if "dirty" in e:
                            new.add(("dirty", k[1]))
            return new
        while work:
            b = work.pop()
            st = set(state[b])
            t = f.blocks[b]["t"]
            if t["t"] == "call":
                c = callee(t)
                nm = short(c["path"]).rsplit("::", 1)[-1] if c else ""
                g = self.prog.fns.get(c["path"]) if c else None
                if g is None and nm in APPEND and t["args"] and self.is_string(f.ty(t["atys"][0])) and len(t["args"]) >= 2:
                    a = t["args"][-1]
                    p = op_place(a)
                    kinds = set(txt.get(p["l"], ())) if p else set()
                    sc = self.const_sep(f, a)
                    if kinds:
                        self.rep.count("appends_of_document_text") if (f.path, b) not in self._seen else None
                        self._seen.add((f.path, b))
                        st = append(st, kinds)
                    elif sc:
                        st = {CLEAN}
                elif g is None and nm in TRIM | CUT and t["args"] and self.is_string(f.ty(t["atys"][0])) and self.builds(f, t["args"][0]):
                    # the end of the text put together so far is cut off
                    st = {s if s != CLEAN else ("dirty", frozenset()) for s in st}
                elif g is None and nm in JOIN0 and self.is_string(f.lty(t["dest"]["l"])):
                    for k, pi in info.closures_in_chain(t) if hasattr(info, "closures_in_chain") else []:
                        pass
                elif g is None and nm in ("map", "flat_map", "for_each"):
                    pass
            if t["t"] == "return":
                for s in st:
                    out.add("clean" if s == CLEAN else "dirty")
                # text returned directly
                if not st - {CLEAN}:
                    for k in txt.get(0, ()):
                        if k[0] in ("inline", "trimmed"):
                            out.add("dirty")
                        else:
                            out |= self.summary(self.prog.fns[k[1]])
                continue
            for n in f.succ(b):
                if f.blocks[n]["cleanup"]:
                    continue
                o = state.get(n)
                if o is None:
                    state[n] = set(st)
                    work.append(n)
                elif st - o:
                    o |= st
                    work.append(n)
        # adaptor chains: text producers mapped over blocks and joined without a separator
        for bi, t in info.calls:
            c = callee(t)
            nm = short(c["path"]).rsplit("::", 1)[-1] if c else ""
            if nm in ("map", "flat_map", "filter_map"):
                for k, pi in info.closures_in(t):
                    if self.is_string(k.lty(0)) and self.level(k.lty(pi)) == "block" and "dirty" in self.summary(k):
                        if any(short(callee(t2)["path"]).rsplit("::", 1)[-1] in JOIN0 and self.is_string(f.lty(t2["dest"]["l"]))
                               for _b, t2 in info.calls if callee(t2)):
                            self.bad(f, ("block", k.path), ("dirty", k.path))
        return out

    def builds(self, f, a):
        """the operand is (a view of) a String this function appends to"""
        roots = {op_place(a)["l"]} if op_place(a) else set()
        grow = True
        while grow:
            grow = False
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and s["place"]["l"] in roots and not s["place"]["p"]:
                        rv = s["rv"]
                        p = op_place(rv["op"]) if rv["r"] == "use" else rv.get("place") if rv["r"] == "ref" else None
                        if p and p["l"] not in roots:
                            roots.add(p["l"])
                            grow = True
                t = b["t"]
                if t["t"] == "call" and t["dest"]["l"] in roots and callee(t) and \
                        short(callee(t)["path"]).rsplit("::", 1)[-1] in ("deref", "as_str", "as_ref", "borrow", "deref_mut"):
                    p = op_place(t["args"][0])
                    if p and p["l"] not in roots:
                        roots.add(p["l"])
                        grow = True
        for b in f.blocks:
            t = b["t"]
            if t["t"] == "call" and callee(t) and short(callee(t)["path"]).rsplit("::", 1)[-1] in APPEND and t["args"]:
                p = op_place(t["args"][0])
                if p:
                    for b2 in f.blocks:
                        for s in b2["s"]:
                            if s["s"] == "assign" and s["place"]["l"] == p["l"] and s["rv"]["r"] == "ref" and s["rv"]["place"]["l"] in roots:
                                return True
        return False

    def const_sep(self, f, a, depth=0):
        r = self.sep_const(f, None, a)
        if r is not None:
            return r
        p = op_place(a)
        if p is None or depth > 4:
            return None
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "use":
                        return self.const_sep(f, rv["op"], depth + 1)
                    if rv["r"] == "ref":
                        return self.const_sep(f, {"copy": rv["place"]}, depth + 1)
        return None

    def name(self, k):
        if k[0] == "inline" or isinstance(k[1], frozenset):
            g = k[1]
            n = sorted({".".join(x[2].rsplit("::", 1)[-1] for x in st if x[0] != "e") for _r, st in g})
            return "/".join(n) or "inline text"
        return "block text"

    def bad(self, f, k, s):
        a, b = self.name(s), self.name(k)
        self.rep.violate(f"runs-together:{a}+{b}", "separator", f"{f.file}:{f.line}",
                         f"{f.short.split('::', 1)[-1]} can append {b} directly after {a}: the last word of one and "
                         f"the first word of the other become a single word")


def words(prog, rep):
    """the count is over the whole collected text, cut at every kind of white space"""
    fs = prog.find("Asg::word_count")
    if not fs:
        rep.violate("missing:word_count", "anchor", "-", "the word count of a document is gone")
        return
    seen, work = set(), [fs[0]]
    split = False
    while work:
        f = work.pop()
        if f.path in seen:
            continue
        seen.add(f.path)
        for _b, t in f.calls():
            c = callee(t)
            if not c:
                continue
            nm = short(c["path"]).rsplit("::", 1)[-1]
            g = prog.fns.get(c["path"])
            if g is not None:
                if not g.short.endswith("Asg::all_text") and not g.derived:
                    work.append(g)
                continue
            rep.count("word_count_steps")
            on_text = "str" in f.ty(t["atys"][0]).s or "String" in f.ty(t["atys"][0]).s if t["args"] else False
            if nm == "split_whitespace":
                split = True
            elif nm in ("split", "rsplit", "split_inclusive"):
                ws = "is_whitespace" in str(t["args"][1]) or "is_whitespace" in f.ty(t["atys"][1]).s
                split = True
                if not ws and "closure" not in f.ty(t["atys"][1]).s:
                    rep.violate("words:split", "words", f"{f.file}:{f.line}",
                                f"{f.short.split('::', 1)[-1]} tells words apart by {nm} on one separator instead of at any white space: "
                                "words on both sides of a line break count as one")
            elif nm in NOTWORDS and on_text:
                rep.violate(f"words:{nm}", "words", f"{f.file}:{f.line}",
                            f"{f.short.split('::', 1)[-1]} counts words through {nm}, which changes or leaves out part of the text")
    if not split:
        rep.note("the way words are told apart was not recognised")


def run(prog, rep):
    rep.rule("In every function that turns blocks into text, a dataflow over the order of appends shows that "
             "something containing white space is appended between the text of two different fields or blocks.")
    fs = prog.find("Asg::all_text")
    if not fs:
        rep.violate("missing:all_text", "anchor", "-", "the operation that collects the text of a document is gone")
        return
    s = Sep(prog, rep)
    s._seen = set()
    r = s.summary(fs[0])
    rep.count("entry", 1)
    words(prog, rep)
    # a function that is reached only through text() calls is analysed via summaries
    rep.floor("functions_analysed", 2)
    rep.floor("appends_of_document_text", 3)
    rep.assume("the text of one inline directly follows the text of the previous inline of the same field, as in the source")
