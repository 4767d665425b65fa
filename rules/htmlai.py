"""Abstract interpretation of the HTML templates: every path of every macro, for every kind of node the program can build."""
import re
from content import adt, local_adts, mentions
from flow import op_place
from linear import nm_of
from mir import callee, rv_operands
from shape import Shape, const_str
from tera import Template, TemplateError

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}
ELEMENTS = VOID | set("""a abbr address article aside audio b bdi bdo blockquote body button canvas caption cite code colgroup data datalist dd del details dfn dialog div dl dt em
fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup html i iframe ins kbd label legend li main map mark math menu meter nav noscript object ol optgroup option
output p picture pre progress q rp rt ruby s samp script section select slot small span strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr u ul var video""".split())
INSIDE = {"li": {"ul", "ol", "menu"}, "dt": {"dl", "div"}, "dd": {"dl", "div"}, "tr": {"table", "thead", "tbody", "tfoot"},
          "td": {"tr"}, "th": {"tr", "thead"}, "thead": {"table"}, "tbody": {"table"}, "tfoot": {"table"}, "caption": {"table"}, "figcaption": {"figure"},
          "summary": {"details"}}
ORDER = ["title", "terms", "principal", "inlines", "items", "blocks"]
# what a container of one kind holds; nothing else holds these
HOLDS = {"table": {"tableCell"}, "list": {"listItem"}, "dlist": {"dlistItem"}}
UNDEF = ("undef",)


class Kind:
    """a kind of node: its structure, its name and (if it has one) its variant"""

    def __init__(self, path, name, variant):
        self.path, self.name, self.variant = path, name, variant

    def __repr__(self):
        return self.name + (":" + self.variant if self.variant else "")


class Html:
    """an HTML tokenizer over text with holes; the state is immutable"""
    START = ("text", "", ())

    def __init__(self, report):
        self.report = report

    def feed(self, st, s, line):
        mode, buf, stack = st
        for c in s:
            if mode == "text":
                if c == "<":
                    mode, buf = "tag", ""
            elif mode == "tag":
                if c == ">":
                    mode, buf, stack = self.close(buf, stack, line)
                elif c in "\"'":
                    mode, buf = "quote" + c, buf + c
                elif c == "<":
                    self.report("tag", line, "a tag is not ended before the next one starts")
                    buf = ""
                else:
                    buf += c
            elif mode.startswith("quote"):
                if c == mode[5]:
                    mode = "tag"
                    buf += c
                elif c not in "<>" or True:
                    buf += "" if c in " \n\t/" else c
        return mode, buf, stack

    def hole(self, st, desc, line):
        mode, buf, stack = st
        if mode == "tag":
            if buf.strip("/") and not any(x in buf for x in " \n\t"):
                return mode, buf + "{" + desc + "}", stack
            self.report("unquoted", line, f"{desc} is put into a tag without quotes")
        return st

    def close(self, buf, stack, line):
        if buf.startswith("!"):
            return "text", "", stack
        end = buf.startswith("/")
        name = (buf[1:] if end else buf).split()
        name = name[0] if name else ""
        name = name.rstrip("/")
        if not end and "{" not in name and name.lower() not in ELEMENTS:
            self.report("element:" + name, line, f"<{name}> is not an HTML element")
        if end:
            if not stack or stack[-1] != name:
                self.report("unbalanced", line, f"</{name}> ends " + (f"<{stack[-1]}>" if stack else "an element that is not open here"))
                if name in stack:
                    stack = stack[:len(stack) - 1 - stack[::-1].index(name)]
            else:
                stack = stack[:-1]
        else:
            self.inside(name, stack, line)
            if name not in VOID:
                stack = stack + (name,)
        return "text", "", stack

    def inside(self, name, stack, line):
        pass


class State:
    __slots__ = ("env", "known", "html", "events", "live")

    def __init__(self, env, known, html, events, live=True):
        self.env, self.known, self.html, self.events, self.live = env, known, html, events, live

    def copy(self, **kw):
        return State(dict(kw.get("env", self.env)), dict(kw.get("known", self.known)), kw.get("html", self.html), kw.get("events", self.events), kw.get("live", self.live))

    def key(self):
        return (repr(sorted(self.env.items(), key=lambda x: x[0])), repr(sorted(self.known.items(), key=repr)), self.html, self.events, self.live)


class NeedKinds(Exception):
    def __init__(self, path):
        self.path = path


class Analysis:
    def __init__(self, prog, rep=None):
        self.prog, self.rep = prog, self
        self.counts, self.notes, self.unreadable = {}, [], False
        self.shape = Shape(prog)
        self.block, self.inline, self.doc = adt(prog, "Block"), adt(prog, "Inline"), adt(prog, "Asg")
        self.issues = {}
        self.here = ""
        self.html = Html(self.tag_issue)
        self.html.inside = self.inside
        self.jobs, self.done = [], set()
        self.contexts = {}       # job -> elements it is called in, or ("via", job)
        self.needs = []          # (job, element, template, line)
        self.templates, self.main = {}, None
        self.load()

    def count(self, n, k=1):
        self.counts[n] = self.counts.get(n, 0) + k

    def note(self, m):
        if m not in self.notes:
            self.notes.append(m)

    # ---- templates and kinds
    def text_of(self, f, op, depth=0):
        c = const_str(op)
        if c is not None:
            return c
        if depth > 8:
            return None
        k = op.get("const") if isinstance(op, dict) else None
        if isinstance(k, dict):
            s = k.get("static") or (k.get("promoted") is not None and k.get("of") + "{promoted#%d}" % k["promoted"]) or k.get("def") or k.get("path")
            g = self.prog.fns.get(s) if s else None
            return self.text_of(g, {"copy": {"l": 0, "p": []}}, depth + 1) if g else None
        p = op_place(op)
        if p is None or f is None:
            return None
        for b in f.blocks:
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]:
                    rv = s["rv"]
                    if rv["r"] == "ref":
                        return self.text_of(f, {"copy": rv["place"]}, depth + 1)
                    ops = rv_operands(rv)
                    if len(ops) == 1:
                        return self.text_of(f, ops[0], depth + 1)
                    if rv.get("static"):
                        g = self.prog.fns.get(rv["static"])
                        return self.text_of(g, {"copy": {"l": 0, "p": []}}, depth + 1) if g else None
            t = b["t"]
            if t["t"] == "call" and t["dest"]["l"] == p["l"] and t["args"] and nm_of(t) in ("to_string", "from", "into", "deref", "as_str", "to_owned"):
                return self.text_of(f, t["args"][0], depth + 1)
        return None

    def load(self):
        for f in self.prog.bodies():
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("agg") == "tuple" and len(s["rv"]["ops"]) == 2:
                        n = self.text_of(f, s["rv"]["ops"][0])
                        if n and n.endswith((".tera", ".html")):
                            self.add(n, self.text_of(f, s["rv"]["ops"][1]))
                t = b["t"]
                if t["t"] == "call" and nm_of(t) == "add_raw_template" and len(t["args"]) > 2:
                    n = self.text_of(f, t["args"][1])
                    if n:
                        self.add(n, self.text_of(f, t["args"][2]))
        for f in self.prog.bodies():
            for _b, t in f.calls():
                if callee(t) and callee(t)["path"].endswith("Tera::render") and len(t["args"]) > 2:
                    self.main = self.text_of(f, t["args"][1])
                    self.rendered_in = f

    def add(self, n, s):
        if s is None:
            self.issue("templates", "template:" + n, 0, f"the text of the template {n} is not known")
            return
        try:
            self.templates[n] = Template(n, s)
            self.count("templates")
        except TemplateError as e:
            self.rep.note(f"{n}: {e}; not decided")
            self.unreadable = True

    def made(self):
        """unit variants that are built somewhere"""
        out = {}
        for p, f in self.prog.fns.items():
            if f.derived or "{promoted" in p:
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") in self.shape.units:
                        out.setdefault(s["rv"]["def"], set()).add(s["rv"]["variant"])
        return out

    def built_variants(self):
        out = set()
        for f in self.prog.bodies():
            if f.derived:
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and s["rv"]["r"] == "agg" and s["rv"].get("def") in (self.block, self.inline):
                        out.add((s["rv"]["def"], s["rv"]["variant"]))
                # a constructor used as a function
                for o in (b["t"].get("args") or []):
                    c = o.get("const") if isinstance(o, dict) else None
                    if isinstance(c, dict) and c.get("fn"):
                        for e in (self.block, self.inline):
                            for i, v in enumerate(self.prog.adts[e]["variants"]):
                                if str(c["fn"]).endswith("::" + v["name"]) and e.rsplit("::", 1)[0] in str(c["fn"]):
                                    out.add((e, i))
        return out

    def kinds(self, enum):
        if not hasattr(self, "_kinds"):
            self._kinds = {}
            made = self.made()
            live = self.built_variants()
            for e in (self.block, self.inline):
                ks = []
                for i, t in sorted(self.shape.wraps.get(e, {}).items()):
                    if t is None or t.k != "adt" or t.defpath not in self.shape.structs or (e, i) not in live:
                        continue
                    ks += self.kinds_of(t.defpath, made)
                self._kinds[e] = ks
        return self._kinds[enum]

    def values(self, path, key, made):
        """(possible names, may be absent) of a name-like key"""
        sh = self.shape.structs[path]
        if key not in sh or sh[key][0] is None:
            return None
        ty = list(self.prog.adt_fields(path))[sh[key][0]][1]
        opt = False
        if ty.k == "adt" and ty.defpath.endswith("option::Option"):
            ty, opt = ty.arg(0), True
        if ty.k == "adt" and ty.defpath in self.shape.units:
            return [self.shape.units[ty.defpath][i] for i in sorted(made.get(ty.defpath, ())) if i in self.shape.units[ty.defpath]], opt
        if ty.s.endswith("String"):
            n = self.shape.names(path, sh[key][0])
            return (sorted(n), opt) if n else None
        return None

    def kinds_of(self, path, made):
        ns = self.values(path, "name", made)
        vs = self.values(path, "variant", made)
        if ns is None:
            return []
        out = []
        pairs = self.pairs(path) if vs and vs[1] else None
        for n in ns[0]:
            if vs is None:
                out.append(Kind(path, n, None))
            else:
                for v in vs[0] + ([None] if vs[1] else []):
                    if pairs is None or (n, v) in pairs:
                        out.append(Kind(path, n, v))
        return out

    def pairs(self, path):
        """(name, variant) combinations that are built, if all can be told"""
        sh = self.shape.structs[path]
        ni, vi = sh["name"][0], sh["variant"][0]
        out = set()
        for f, _b, rv in self.shape.built(path):
            ops = rv_operands(rv)
            ps = [self.param(f, ops[ni]), self.param(f, ops[vi])]
            if None not in ps:
                for g in self.prog.bodies():
                    for bi, t in g.calls():
                        if callee(t) and callee(t)["path"] == f.path:
                            a, b = self.unit(g, t["args"][ps[0] - 1], bi), self.unit(g, t["args"][ps[1] - 1], bi)
                            if a is None or b is None:
                                return None
                            out |= {(x, y) for x in a for y in b}
            else:
                a, b = self.unit(f, ops[ni], _b), self.unit(f, ops[vi], _b)
                if a is None or b is None:
                    return None
                out |= {(x, y) for x in a for y in b}
        # a name that is set later may come with any variant
        for f in self.prog.bodies():
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] == "assign" and not f.derived:
                        e = s["place"]["p"][-1] if s["place"]["p"] else None
                        if e and e[0] == "field" and len(e) > 4 and e[4] == path and e[1] in (ni, vi):
                            return None
        return out

    def param(self, f, op):
        p = op_place(op)
        for _ in range(6):
            if p is None or p["p"]:
                return None
            if 1 <= p["l"] <= f.argc:
                return p["l"]
            d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]]
            if len(d) != 1 or d[0]["r"] != "use":
                return None
            p = op_place(d[0]["op"])
        return None

    def unit(self, f, op, _bi, depth=0):
        """unit variant names an operand may be; {None} for no value"""
        p = op_place(op)
        if p is None or p["p"] or depth > 6:
            return None
        out = set()
        n = 0
        for b in f.blocks:
            if b["cleanup"]:
                continue
            for s in b["s"]:
                if s["s"] == "assign" and s["place"]["l"] == p["l"] and not s["place"]["p"]:
                    n += 1
                    rv = s["rv"]
                    if rv["r"] == "agg" and rv.get("def") in self.shape.units:
                        out.add(self.shape.units[rv["def"]].get(rv["variant"]))
                    elif rv["r"] == "agg" and rv.get("vname") == "None":
                        out.add(None)
                    elif rv["r"] == "agg" and rv.get("vname") == "Some" or rv["r"] == "use":
                        x = self.unit(f, rv_operands(rv)[0], _bi, depth + 1)
                        if x is None:
                            return None
                        out |= x
                    else:
                        return None
            if b["t"]["t"] == "call" and b["t"]["dest"]["l"] == p["l"]:
                return None
        return out if n else None

    def content_keys(self, kind):
        """(key or None, field name) of everything a node holds that a reader sees"""
        enums = {self.block, self.inline}
        sh = self.shape.structs[kind.path]
        by_idx = {i: k for k, (i, _w) in sh.items() if i is not None}
        fields = list(self.prog.adt_fields(kind.path))
        nested = [(i, n) for i, (n, t) in enumerate(fields) if t is not None and mentions(t, enums) and self.filled(kind.path, i, t)]
        # a node that holds no other nodes holds its text itself
        own = [] if nested or kind.path not in self.inline_structs() else \
            [(i, n) for i, (n, t) in enumerate(fields) if t is not None and t.s.endswith("String") and by_idx.get(i) != "name"]
        targets = [(i, n) for i, (n, t) in enumerate(fields) if t is not None and t.s.endswith("String") and (by_idx.get(i) or n) == "target"]
        return [(by_idx.get(i), n) for i, n in nested + own + targets]

    def filled(self, path, i, ty):
        """something is ever put into a field, when it is built or later"""
        for f, _b, rv in self.shape.built(path):
            p = op_place(rv_operands(rv)[i])
            d = [s["rv"] for b in f.blocks for s in b["s"] if s["s"] == "assign" and p and s["place"]["l"] == p["l"] and not s["place"]["p"]]
            new = [b["t"] for b in f.blocks if b["t"]["t"] == "call" and p and b["t"]["dest"]["l"] == p["l"]]
            if len(d) + len(new) != 1 or d and (d[0]["r"] != "agg" or d[0].get("vname") != "None") or new and (nm_of(new[0]) != "new" or new[0]["args"]):
                return True
        for f in self.prog.bodies():
            if f.derived:
                continue
            for b in f.blocks:
                for s in b["s"]:
                    if s["s"] != "assign":
                        continue
                    for pl, w in [(s["place"], True)] + ([(s["rv"]["place"], s["rv"].get("mut"))] if s["rv"]["r"] == "ref" else []):
                        e = pl["p"][-1] if pl["p"] else [None]
                        if w and e[0] == "field" and len(e) > 4 and e[4] == path and e[1] == i:
                            return True
        return False

    def inline_structs(self):
        return {t.defpath for t in self.shape.wraps.get(self.inline, {}).values() if t is not None}

    # ---- reports
    def issue(self, rule, key, line, msg):
        self.issues.setdefault((rule, key), (self.here, line, msg))

    def tag_issue(self, what, line, msg):
        self.issue("html", f"{what}@{self.where()}", line, msg + f" (for {self.job_name()})")

    def where(self):
        return self.here

    def job_name(self):
        return repr(self.kind) if self.kind else "the document"

    def inside(self, name, stack, line):
        self.count("elements")
        if name in INSIDE:
            if stack:
                if stack[-1] not in INSIDE[name]:
                    self.issue("html", f"misplaced:{name}:{stack[-1]}", line, f"<{name}> is put into <{stack[-1]}> (for {self.job_name()})")
            else:
                self.needs.append((self.job, name, self.here, line, self.job_name()))

    # ---- values
    def type_shape(self, ty):
        while ty is not None and ty.k == "adt" and ty.defpath.split("::")[-1] in ("Option", "Box"):
            ty = ty.arg(0)
        return ty

    def get(self, v, key, st):
        if v[0] == "node":
            k, root = v[1], v[2]
            sh = self.shape.structs[k.path]
            if key not in sh:
                return UNDEF
            if key == "name":
                return ("const", k.name)
            if key == "variant" and self.values(k.path, "variant", self.made_cache()) is not None:
                return ("const", k.variant) if k.variant else UNDEF
            i, skip = sh[key]
            ty = list(self.prog.adt_fields(k.path))[i][1] if i is not None else None
            return ("data", root + (key,), self.tkey(ty), skip is None)
        if v[0] == "data":
            ty = self.types.get(v[2])
            ty = self.type_shape(ty)
            path = v[1] + (key,)
            if ty is not None and ty.k == "adt" and ty.defpath in self.shape.structs:
                sh = self.shape.structs[ty.defpath]
                if key not in sh:
                    return UNDEF
                i, skip = sh[key]
                t2 = list(self.prog.adt_fields(ty.defpath))[i][1] if i is not None else None
                return ("data", path, self.tkey(t2), skip is None and self.present(v, st))
            return ("data", path, "", False)
        if v[0] == "elem":
            raise NeedKinds(v[1])
        if v[0] in ("const", "undef"):
            return UNDEF
        return ("opaque", f"{desc(v)}.{key}")

    def made_cache(self):
        if not hasattr(self, "_made"):
            self._made = self.made()
        return self._made

    def tkey(self, ty):
        if ty is None:
            return ""
        self.types.setdefault(ty.s, ty)
        return ty.s

    types = {}

    def present(self, v, st):
        if v[0] != "data":
            return v[0] != "undef"
        if v[3]:
            return True
        return any(t is True and p[:len(v[1])] == v[1] for p, t in st.known.items() if isinstance(p, tuple))

    def use(self, v, st, line, what):
        """a value that has to exist"""
        if v[0] == "undef" or v[0] == "data" and not self.present(v, st):
            d = desc(v) if v[0] == "data" else what
            self.issue("undefined", f"undefined:{d}", line, f"{what} uses {d}, which need not exist: rendering fails then (for {self.job_name()})")
            return False
        return True

    # ---- expressions; a condition gives [(truth, state)]
    def value(self, e, st, line):
        k = e[0]
        if k == "const":
            return e
        if k == "var":
            return st.env.get(e[1], UNDEF)
        if k == "get":
            return self.get(self.value(e[1], st, line), e[2], st)
        if k == "cat":
            out = []
            for x in e[1:]:
                v = self.value(x, st, line)
                self.use(v, st, line, "a concatenation")
                out += list(v[1]) if v[0] == "cat" else [v]
            if all(x[0] == "const" for x in out):
                return ("const", "".join(str(x[1]) for x in out))
            return ("cat", tuple(out))
        if k == "filter":
            v = self.value(e[2], st, line)
            args = {n: self.value(x, st, line) for n, x in e[3]}
            if e[1] == "default":
                if v[0] == "undef":
                    return args.get("value", ("opaque", "default"))
                if v[0] == "const" or v[0] == "data" and self.present(v, st):
                    return v
                d = args.get("value", UNDEF)
                if v[0] == "data" and (d == ("list", ()) or d == ("const", "") or d == ("const", False)):
                    return ("data", v[1], v[2], True)
                return ("opaque", desc(v) + "|default:" + desc(args.get("value", UNDEF)))
            self.use(v, st, line, f"the filter {e[1]}")
            if e[1] in ("as_str", "safe", "trim", "escape", "lower", "upper") and v[0] in ("data", "elem"):
                return v
            if e[1] == "length":
                return ("len", v[1]) if v[0] == "data" else ("opaque", desc(v) + "|length")
            if e[1] in ("nth", "first", "last"):
                if v[0] == "data":
                    n = args.get("n")
                    if e[1] == "nth" and n and n[0] == "idx":
                        return ("elem", v[1], v[2], (n[2], n[3]))
                    return ("elem", v[1], v[2], "some")
                return ("opaque", desc(v) + "|" + e[1])
            if e[1] == "slice" and v[0] == "data":
                return ("slice", v, args.get("start", ("const", 0)), args.get("end", ("len", v[1])))
            if e[1] in ("reverse", "filter", "sort", "unique", "group_by") and v[0] == "data":
                return ("part", v, e[1])
            return ("opaque", f"{desc(v)}|{e[1]}")
        if k == "func":
            args = {n: self.value(x, st, line) for n, x in e[2]}
            if e[1] == "range":
                return ("range", args.get("start", ("const", 0)), args.get("end", UNDEF))
            return ("opaque", e[1])
        if k == "arith":
            a, b = self.value(e[2], st, line), self.value(e[3], st, line)
            self.use(a, st, line, "arithmetic")
            self.use(b, st, line, "arithmetic")
            if e[1] in ("/", "%"):
                if not (b[0] == "const" and b[1]) and st.known.get(("nonzero", desc(b))) is not True:
                    self.issue("undefined", f"zero:{desc(b)}", line, f"{desc(b)}, which may be 0, is divided by: rendering fails then (for {self.job_name()})")
            if a[0] == b[0] == "const" and not isinstance(a[1], str) and not isinstance(b[1], str) and e[1] in "+-*":
                return ("const", {"+": a[1] + b[1], "-": a[1] - b[1], "*": a[1] * b[1]}[e[1]])
            return ("opaque", f"({desc(a)}{e[1]}{desc(b)})")
        if k == "list":
            return ("list", tuple(self.value(x, st, line) for x in e[1]))
        if k == "index":
            v, i = self.value(e[1], st, line), self.value(e[2], st, line)
            if v[0] == "data" and i[0] == "idx":
                return ("elem", v[1], v[2], (i[2], i[3]))
            return ("opaque", f"{desc(v)}[{desc(i)}]")
        if k in ("cmp", "in", "and", "or", "not", "is"):
            return ("bool", e)
        return ("opaque", k)

    def truth(self, v, st, line):
        """[(bool, state)] for the truthiness of a value"""
        if v[0] == "const":
            return [(bool(v[1]), st)]
        if v[0] == "undef":
            return [(False, st)]
        if v[0] == "bool":
            return self.cond(v[1], st, line)
        if v[0] in ("node", "elem") or v[0] == "cat" and any(x[0] == "const" and x[1] for x in v[1]):
            return [(True, st)]
        if v[0] == "data":
            key = v[1]
            for p, t in st.known.items():
                if isinstance(p, tuple) and p and p[0] != "?" and t is True and p[:len(key)] == key and len(p) > len(key):
                    return [(True, st)]
                if isinstance(p, tuple) and t is False and key[:len(p)] == p:
                    return [(False, st)]
            if key in st.known:
                return [(st.known[key], st)]
        else:
            key = ("?", desc(v))
            if key in st.known:
                return [(st.known[key], st)]
        out = []
        for t in (True, False):
            k2 = dict(st.known)
            k2[key] = t
            if t and v[0] in ("opaque",):
                k2[("nonzero", desc(v))] = True
            out.append((t, st.copy(known=k2)))
        return out

    def cond(self, e, st, line):
        k = e[0]
        if k == "and":
            out = []
            for t, s in self.cond(e[1], st, line):
                out += self.cond(e[2], s, line) if t else [(False, s)]
            return out
        if k == "or":
            out = []
            for t, s in self.cond(e[1], st, line):
                out += [(True, s)] if t else self.cond(e[2], s, line)
            return out
        if k == "not":
            return [(not t, s) for t, s in self.cond(e[1], st, line)]
        if k == "is":
            v = self.value(e[2], st, line)
            if e[1] in ("defined", "undefined"):
                if v[0] == "undef":
                    r = [(False, st)]
                elif v[0] == "data" and not self.present(v, st):
                    r = self.truth(v, st, line)
                else:
                    r = [(True, st)]
                return [(t == (e[1] == "defined"), s) for t, s in r]
            return self.fork(("is", e[1], desc(v)), st)
        if k in ("cmp", "in"):
            a, b = (self.value(e[2], st, line), self.value(e[3], st, line)) if k == "cmp" else (self.value(e[1], st, line), self.value(e[2], st, line))
            self.use(a, st, line, "a comparison")
            self.use(b, st, line, "a comparison")
            if k == "cmp" and a[0] == "const" and b[0] == "const":
                x, y = a[1], b[1]
                try:
                    r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[e[1]] if type(x) is type(y) or e[1] in ("==", "!=") else False
                    return [(r, st)]
                except TypeError:
                    return self.fork((e[1], desc(a), desc(b)), st)
            if k == "in" and b[0] == "list" and a[0] == "const" and all(x[0] == "const" for x in b[1]):
                return [(a[1] in [x[1] for x in b[1]], st)]
            out = self.fork((k, e[1] if k == "cmp" else "", desc(a), desc(b)), st)
            if k == "cmp" and b == ("const", 0):
                good = {">": True, "!=": True, "==": False, "<=": False}.get(e[1])
                for t, s in out:
                    if good is not None and t == good:
                        s.known[("nonzero", desc(a))] = True
            if k == "cmp" and b[0] == "const" and isinstance(b[1], int) and b[1] >= 1:
                for t, s in out:
                    if t and e[1] in (">=", ">", "==") or not t and e[1] in ("<", "<="):
                        s.known[("nonzero", desc(a))] = True
            return out
        v = self.value(e, st, line)
        return self.truth(v, st, line)

    def fork(self, key, st):
        key = ("?",) + tuple(key)
        if key in st.known:
            return [(st.known[key], st)]
        out = []
        for t in (True, False):
            k2 = dict(st.known)
            k2[key] = t
            out.append((t, st.copy(known=k2)))
        return out

    # ---- statements
    def run(self, nodes, states, tpl, depth=0):
        for n in nodes:
            nxt, seen = [], set()
            for st in states:
                if not st.live:
                    out = [st]
                else:
                    self.here = tpl.name
                    out = self.step(n, st, tpl, depth)
                for s in out:
                    k = s.key()
                    if k not in seen:
                        seen.add(k)
                        nxt.append(s)
            states = nxt
            if len(states) > 20000:
                self.rep.note(f"{tpl.name}: too many paths for {self.job_name()}")
                return states[:1]
        return states

    def step(self, n, st, tpl, depth):
        k, line = n[0], n[-1]
        if k == "text":
            return [st.copy(html=self.html.feed(st.html, n[1], line))]
        if k == "set":
            e = n[2]
            v = self.value(e, st, line) if e[0] != "macro" else ("opaque", "macro")
            if v[0] == "bool":
                out = []
                for t, s in self.cond(e, st, line):
                    s = s.copy()
                    s.env[n[1]] = ("const", t)
                    out.append(s)
                return out
            if e[0] != "const":
                self.use(v, st, line, "an assignment")
            s = st.copy()
            s.env[n[1]] = v
            return [s]
        if k == "if":
            out, rest = [], [st]
            for c, body in n[1]:
                nxt = []
                for s in rest:
                    for t, s2 in self.cond(c, s, line):
                        if t:
                            out += self.run(body, [s2], tpl, depth)
                        else:
                            nxt.append(s2)
                rest = nxt
            for s in rest:
                out += self.run(n[2], [s], tpl, depth) if n[2] else [s]
            return out
        if k == "for":
            return self.loop(n, st, tpl, depth)
        if k == "out":
            return self.output(n[1], st, tpl, line, depth)
        if k in ("break", "continue"):
            return [st.copy(live=False, events=st.events + ((("break",),) if k == "break" else ()))]
        return [st]

    def loop(self, n, st, tpl, depth):
        _f, names, e, body, empty, line = n
        v = self.value(e, st, line)
        src, part = v, None
        if v[0] == "slice":
            src, part = v[1], (v[2], v[3])
        elif v[0] == "part":
            src, part = v[1], v[2]
        self.use(src, st, line, "a loop")
        var = names[-1]
        if v[0] == "range":
            self.use(v[1], st, line, "a loop")
            self.use(v[2], st, line, "a loop")
            bind = [("idx", var, desc(v[1]), desc(v[2]))]
        elif src[0] == "data":
            bind = [("elem", src[1], src[2], part)]
        else:
            bind = [("opaque", "item of " + desc(v))]
        base = st.copy(events=())
        base.env[var] = bind[0]
        base.env["loop"] = ("opaque", "loop")
        try:
            ends = self.run(body, [base], tpl, depth)
        except NeedKinds as x:
            ends = self.per_kind(n, st, tpl, depth, x.path, var, bind[0])
        # what the body renders of the elements
        evs = set()
        for s in ends:
            if s.html != st.html:
                self.issue("html", f"loop@{tpl.name}:{var}", line, f"the body of the loop over {desc(v)} does not leave the elements open as it found them (for {self.job_name()})")
            evs.add(tuple(x for x in s.events if x != ("break",)))
        broke = any(("break",) in s.events for s in ends)
        common = set.intersection(*[set(x) for x in evs]) if evs else set()
        union = set().union(*[set(x) for x in evs]) if evs else set()
        out = []
        seq = [x for x in next(iter(evs))] if len(evs) == 1 else [x for x in max(evs, key=len)]
        events = st.events
        for ev in seq:
            if ev[0] == "elem":
                whole = ev in common and not broke
                events += (("list", ev[1], ev[2] if whole else "some", line),)
            elif ev[0] == "list":
                events += (ev if ev in common else ("list", ev[1], "some", line),)
            else:
                events += (ev,)
        for ev in union - set(seq):
            events += (("list", ev[1], "some", line),) if ev[0] in ("elem", "list") else (ev,)
        s = st.copy(events=events)
        out = [s]
        if empty:
            out += self.run(empty, [st.copy()], tpl, depth)
        return out

    def per_kind(self, n, st, tpl, depth, path, var, bound):
        """the elements are looked into: analyse the body once for each kind they may have"""
        ends = []
        ty = None
        kinds = self.elem_kinds(bound if bound[0] == "elem" else None, path)
        for kd in kinds:
            self.as_kind = getattr(self, "as_kind", {})
            root = path + ("[]",)
            base = st.copy(events=())
            base.env[var] = ("node", kd, root) if bound[0] == "elem" else bound
            base.env["loop"] = ("opaque", "loop")
            self.node_of[path] = kd
            try:
                es = self.run(n[3], [base], tpl, depth)
            finally:
                self.node_of.pop(path, None)
            for s in es:
                lost = self.lost(kd, root, s)
                ev = ("elem", path, bound[3] if bound[0] == "elem" else (bound[2], bound[3]))
                rest = tuple(x for x in s.events if not (len(x) > 1 and isinstance(x[1], tuple) and x[1][:len(root)] == root))
                ends.append(s.copy(events=rest + (() if lost else (ev,))))
        return ends or [st]

    node_of = {}
    calling = []

    def elem_kinds(self, _b, path):
        """kinds of the elements of the list at a path"""
        owner = self.kind_at(path[:-1])
        name = owner.name if owner else None
        inl = path[-1] not in ("blocks", "items")
        enum = self.elem_enum(path, owner)
        ks = self.kinds(enum) if enum else []
        if name in HOLDS:
            return [k for k in ks if k.name in HOLDS[name]] or ks
        held = set().union(*HOLDS.values())
        return [k for k in ks if k.name not in held]

    def kind_at(self, path):
        return self.roots.get(path)

    def elem_enum(self, path, owner):
        st = self.doc if owner is None and path[0] == "doc" and len(path) == 2 else (owner.path if owner else None)
        if st is None and path[:1] == ("doc",):
            st = next((p for p in self.shape.structs if p.endswith("::Header")), None)
        if st is None:
            return None
        sh = self.shape.structs[st].get(path[-1])
        if not sh or sh[0] is None:
            return None
        ty = list(self.prog.adt_fields(st))[sh[0]][1]
        return self.block if mentions(ty, {self.block}) else self.inline if mentions(ty, {self.inline}) else None

    def output(self, e, st, tpl, line, depth):
        if e[0] == "filter" and e[2][0] == "macro":
            e = e[2]
        if e[0] == "macro":
            return self.call(e, st, tpl, line, depth)
        v = self.value(e, st, line)
        if v[0] == "elem":
            raise NeedKinds(v[1])
        self.use(v, st, line, "the output")
        return [self.put(v, st, line)]

    def put(self, v, st, line):
        if v[0] == "const":
            x = v[1]
            return st.copy(html=self.html.feed(st.html, str(x).lower() if isinstance(x, bool) else str(x), line))
        if v[0] == "cat":
            for x in v[1]:
                st = self.put(x, st, line)
            return st
        html = self.html.hole(st.html, desc(v), line)
        ev = st.events
        if v[0] == "data":
            ev += (("out", v[1], st.html[0], line),)
        elif v[0] == "opaque":
            ev += (("out", ("?", desc(v)), st.html[0], line),)
        return st.copy(html=html, events=ev)

    def call(self, e, st, tpl, line, depth):
        _m, ns, name, args = e
        t = tpl if ns == "self" else self.templates.get(tpl.imports.get(ns))
        if t is None or name not in t.macros:
            self.issue("undefined", f"macro:{ns}::{name}", line, f"there is no macro {ns}::{name}: rendering fails")
            return [st]
        params, body, _l = t.macros[name]
        vals = {n: self.value(x, st, line) for n, x in args}
        for n, d in params:
            if n not in vals:
                if d is None:
                    self.issue("undefined", f"argument:{name}.{n}", line, f"the macro {name} is called without {n}: rendering fails")
                    vals[n] = ("opaque", n)
                else:
                    vals[n] = d
        for n, v in vals.items():
            self.use(v, st, line, f"the call of {name}")
        if any(v[0] == "bool" for v in vals.values()):
            n, b = next((n, v) for n, v in vals.items() if v[0] == "bool")
            out = []
            for tv, s in self.cond(b[1], st, line):
                out += self.call(("macro", ns, name, tuple((a, ("const", tv)) if a == n else (a, x) for a, x in args)), s, tpl, line, depth)
            return out
        elems = [(n, v) for n, v in vals.items() if v[0] == "elem"]
        if st.html[0] != "text":
            self.issue("html", f"call-in-tag@{tpl.name}", line, f"the macro {name} is called inside of a tag (for {self.job_name()})")
        if elems:
            ev = st.events
            for n, v in elems:
                ev += (("elem", v[1], v[3]),)
                others = tuple(sorted((a, x) for a, x in vals.items() if a != n))
                for kd in self.elem_kinds(v, v[1]):
                    self.schedule(t, name, n, kd, others, st, tpl, line)
            return [st.copy(events=ev)]
        # a macro for (parts of) the same node
        me = (t.name, name, repr(sorted(vals.items())))
        unknown = any(v[0] == "opaque" for v in vals.values())
        if me in self.calling or len(self.calling) > 8 or unknown and any(x[:2] == me[:2] for x in self.calling):
            if not unknown:
                self.issue("undefined", f"recursion:{name}", line, f"the macro {name} calls itself for the same node without end")
            ev = st.events
            for n, v in vals.items():
                if v[0] == "opaque":
                    self.rep.note(f"{tpl.name}: what {name} is called with ({desc(v)}) is not known; not decided")
                    ev += (("out", ("?", desc(v)), "text", line),)
            return [st.copy(events=ev)]
        nodes = [(n, v) for n, v in vals.items() if v[0] == "node"]
        if nodes and nodes[0][1][2] != self.root and nodes[0][1][2][-1:] == ("[]",):
            n, v = nodes[0]
            others = tuple(sorted((a, x) for a, x in vals.items() if a != n))
            self.schedule(t, name, n, v[1], others, st, tpl, line)
            return [st.copy(events=st.events + (("elem", v[2][:-1], None), ("node", v[2])))]
        inner = State(vals, st.known, st.html, st.events)
        self.calling.append(me)
        try:
            outs = self.run(body, [inner], t, depth + 1)
        finally:
            self.calling.pop()
        self.here = tpl.name
        return [State(st.env, s.known, s.html, s.events) for s in outs]

    def schedule(self, t, name, param, kd, others, st, tpl, line):
        job = (t.name, name, param, repr(kd), others)
        ctx = st.html[2][-1] if st.html[2] else ("via", self.job)
        self.contexts.setdefault(job, set()).add(ctx)
        if job not in self.done:
            self.done.add(job)
            self.jobs.append((job, t, name, param, kd, dict(others)))

    # ---- results
    def rendered(self, path, s):
        """how often, and how much of, something is rendered on a path"""
        evs = [x for x in s.events if x[0] in ("list", "out", "elem") and x[1] == path]
        return evs

    def lost(self, kd, root, s):
        if any(x[0] == "node" and x[1] == root for x in s.events):
            return []
        bad = []
        order = []
        for key, field in self.content_keys(kd):
            if key is None:
                bad.append((field, "is not handed to the template at all"))
                continue
            path = root + (key,)
            if s.known.get(path) is False:
                continue
            if kd.variant == "image" and key not in ("target",):
                continue
            evs = self.rendered(path, s)
            if any(x[0] == "out" and x[1][0] == "?" and re.search(r"\b%s\b" % re.escape(".".join(path[1:])), x[1][1]) for x in s.events):
                self.note(f"{key} of {kd!r} is rendered in a way that is not modelled; not decided")
                continue
            if not evs:
                bad.append((key, "is not rendered"))
                continue
            if evs[0][0] == "out":
                n = [x for x in evs if x[2] == "text"]
                if key == "target" and not n and "image" not in (kd.name, kd.variant) and not any(x[0] == "list" and x[1][:len(root)] == root for x in s.events):
                    bad.append((key, "is not rendered as text although there is no other"))
                if key != "target" and not n:
                    bad.append((key, "is only put into a tag"))
                elif len(n) > 1:
                    bad.append((key, "is rendered twice"))
            else:
                spans = [x[2] for x in evs]
                msg = self.cover(path, spans)
                if msg:
                    bad.append((key, msg))
            order.append((key, min(i for i, x in enumerate(s.events) if x in evs)))
        ks = [k for k, _i in sorted(order, key=lambda x: x[1]) if k in ORDER]
        for a, b in zip(ks, ks[1:]):
            if ORDER.index(a) > ORDER.index(b):
                bad.append((b, f"is rendered after {a}"))
        return bad

    def cover(self, path, spans):
        if all(x is None for x in spans):
            return "is rendered twice" if len(spans) > 1 else None
        if any(x == "some" for x in spans):
            return "is only rendered in part"
        if any(isinstance(x, str) for x in spans):
            return "is not rendered whole and in order"
        at = "0"
        end = desc(("len", path))
        for a, b in [x for x in spans if x is not None]:
            a, b = a if isinstance(a, str) else desc(a), b if isinstance(b, str) else desc(b)
            if a != at:
                return "is only rendered in part, or twice"
            at = b
        return None if at == end else "is only rendered in part"

    def go(self):
        if self.main not in self.templates:
            self.issue("templates", "main", 0, f"the template that is rendered ({self.main}) is not known")
            return
        t = self.templates[self.main]
        sh = self.shape.structs[self.doc]
        env = {}
        self.kind, self.job, self.root = None, ("doc",), ("doc",)
        self.roots = {}
        fs = list(self.prog.adt_fields(self.doc))
        for k, (i, skip) in sh.items():
            env[k] = ("data", ("doc", k), self.tkey(fs[i][1]) if i is not None else "", skip is None)
        self.contexts[self.job] = {"html"}
        ends = self.run(t.body, [State(env, {}, Html.START, ())], t)
        self.finish(ends, t)
        dk = Kind(self.doc, "document", None)
        want = [(k, ("doc", k)) for k, (i, _s) in sh.items() if i is not None and mentions(fs[i][1], {self.block, self.inline})]
        hd = next((p for p in self.shape.structs if p.endswith("::Header")), None)
        if hd:
            hf = list(self.prog.adt_fields(hd))
            for k, (i, _s) in self.shape.structs[hd].items():
                if i is not None and mentions(hf[i][1], {self.inline, self.block}):
                    want.append((k, ("doc", "header", k)))
        for s in ends:
            for k, path in want:
                if any(s.known.get(path[:j]) is False for j in range(2, len(path) + 1)):
                    continue
                evs = self.rendered(path, s)
                msg = "is not rendered" if not evs else self.cover(path, [x[2] for x in evs])
                if msg:
                    self.issue("content", f"document:{k}", 0, f"{k} of the document {msg}")
        n = 0
        while self.jobs:
            job, t, name, param, kd, others = self.jobs.pop()
            n += 1
            self.kind, self.job, self.root = kd, job, ("n",)
            self.roots = {("n",): kd}
            env = dict(others)
            env[param] = ("node", kd, ("n",))
            self.here = t.name
            ends = self.run(t.macros[name][1], [State(env, {}, Html.START, ())], t)
            self.finish(ends, t)
            self.rep.count("paths", len(ends))
            for s in ends:
                for key, msg in self.lost(kd, ("n",), s):
                    given = [".".join(p[1:]) for p, v in s.known.items() if isinstance(p, tuple) and p[0] == "n" and v is True]
                    self.issue("content", f"{kd.name}{':' + kd.variant if kd.variant and kd.name == 'ref' else ''}:{key}", t.macros[name][2],
                               f"{key} of a node of kind {kd!r} {msg}" + (f" (when it has {', '.join(given[:4])})" if given else ""))
        self.rep.count("macro_and_kind_pairs", n)
        # elements that need a certain parent
        for job, name, here, line, who in self.needs:
            for c in self.ctx(job, set()):
                if c not in INSIDE[name]:
                    self.here = here
                    self.issue("html", f"misplaced:{name}:{c}", line, f"<{name}> is put into <{c}> (for {who})")

    def ctx(self, job, seen):
        if job in seen:
            return set()
        seen.add(job)
        out = set()
        for c in self.contexts.get(job, ()):
            out |= self.ctx(c[1], seen) if isinstance(c, tuple) else {c}
        return out

    def finish(self, ends, t):
        for s in ends:
            if s.html[0] != "text":
                self.issue("html", f"open-tag@{t.name}", 0, f"a tag is not ended (for {self.job_name()})")
            elif s.html[2]:
                self.issue("html", f"not-closed:{s.html[2][-1]}@{t.name}", 0, f"<{s.html[2][-1]}> is not closed (for {self.job_name()})")


def desc(v):
    if v[0] == "const":
        return str(v[1])
    if v[0] == "data":
        return ".".join(v[1][1:]) or v[1][0]
    if v[0] == "len":
        return "#" + ".".join(v[1])
    if v[0] == "idx":
        return f"{v[1]} in {v[2]}..{v[3]}"
    if v[0] == "undef":
        return "nothing"
    if v[0] == "opaque":
        return v[1]
    if v[0] == "cat":
        return "~".join(desc(x) for x in v[1])
    if v[0] == "elem":
        return "an item of " + ".".join(v[1][1:])
    if v[0] == "list":
        return "[" + ",".join(desc(x) for x in v[1]) + "]"
    if v[0] == "range":
        return f"{desc(v[1])}..{desc(v[2])}"
    if v[0] in ("slice", "part"):
        return desc(v[1]) + "|" + v[0]
    return v[0]
