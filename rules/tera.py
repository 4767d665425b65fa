"""A parser for the part of the Tera template language that the templates use, and an abstract interpreter:
every path of a macro is followed for a node whose kind is known, with everything else about it open."""
import re

TAG = re.compile(r"\{%(-?)(.*?)(-?)%\}|\{\{(-?)(.*?)(-?)\}\}|\{#(-?)(.*?)(-?)#\}", re.S)
TOK = re.compile(r"""\s*(?:(?P<num>\d+(?:\.\d+)?)|(?P<str>"[^"]*"|'[^']*'|`[^`]*`)|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<op>::|==|!=|<=|>=|[-+*/%~<>|().,\[\]=:]))""")


class TemplateError(Exception):
    pass


def lex(s):
    out, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise TemplateError("cannot read: " + s[i:i + 30])
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v[1:-1] if k == "str" else v))
        i = m.end()
    return out


class Expr:
    """pratt parser; expressions are tuples"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def expect(self, v):
        k, x = self.next()
        if x != v:
            raise TemplateError(f"expected {v}, found {x}")

    def at(self, *vs):
        return self.peek()[0] in ("id", "op") and self.peek()[1] in vs

    def expr(self):
        l = self.conj()
        while self.at("or"):
            self.next()
            l = ("or", l, self.conj())
        return l

    def conj(self):
        l = self.neg()
        while self.at("and"):
            self.next()
            l = ("and", l, self.neg())
        return l

    def neg(self):
        if self.at("not"):
            self.next()
            return ("not", self.neg())
        return self.cmp()

    def cmp(self):
        l = self.concat()
        if self.at("==", "!=", "<", ">", "<=", ">="):
            o = self.next()[1]
            return ("cmp", o, l, self.concat())
        if self.at("in"):
            self.next()
            return ("in", l, self.concat())
        if self.at("not"):
            self.next()
            self.expect("in")
            return ("not", ("in", l, self.concat()))
        if self.at("is"):
            self.next()
            n = False
            if self.at("not"):
                self.next()
                n = True
            t = self.next()[1]
            args = []
            if self.at("("):
                self.next()
                while not self.at(")"):
                    args.append(self.expr())
                    if self.at(","):
                        self.next()
                self.next()
            e = ("is", t, l, tuple(args))
            return ("not", e) if n else e
        return l

    def concat(self):
        l = self.sum()
        while self.at("~"):
            self.next()
            l = ("cat", l, self.sum())
        return l

    def sum(self):
        l = self.prod()
        while self.at("+", "-"):
            o = self.next()[1]
            l = ("arith", o, l, self.prod())
        return l

    def prod(self):
        l = self.post()
        while self.at("*", "/", "%"):
            o = self.next()[1]
            l = ("arith", o, l, self.post())
        return l

    def post(self):
        l = self.atom()
        while True:
            if self.at("."):
                self.next()
                l = ("get", l, self.next()[1])
            elif self.at("["):
                self.next()
                e = self.expr()
                self.expect("]")
                l = ("get", l, e[1]) if e[0] == "const" else ("index", l, e)
            elif self.at("|"):
                self.next()
                n = self.next()[1]
                l = ("filter", n, l, self.args() if self.at("(") else ())
            else:
                return l

    def args(self):
        self.expect("(")
        out = []
        while not self.at(")"):
            n = self.next()[1]
            self.expect("=")
            out.append((n, self.expr()))
            if self.at(","):
                self.next()
        self.next()
        return tuple(out)

    def atom(self):
        k, v = self.next()
        if k == "num":
            return ("const", float(v) if "." in v else int(v))
        if k == "str":
            return ("const", v)
        if k == "op" and v == "(":
            e = self.expr()
            self.expect(")")
            return e
        if k == "op" and v == "-":
            return ("arith", "-", ("const", 0), self.post())
        if k == "op" and v == "[":
            out = []
            while not self.at("]"):
                out.append(self.expr())
                if self.at(","):
                    self.next()
            self.next()
            return ("list", tuple(out))
        if k == "id":
            if v in ("true", "True"):
                return ("const", True)
            if v in ("false", "False"):
                return ("const", False)
            if self.at("::"):
                self.next()
                n = self.next()[1]
                return ("macro", v, n, self.args())
            if self.at("("):
                return ("func", v, self.args())
            return ("var", v)
        raise TemplateError(f"unexpected {v}")


def parse_expr(s):
    e = Expr(lex(s))
    r = e.expr()
    if e.i != len(e.t):
        raise TemplateError("left over: " + s)
    return r


class Template:
    """nodes: (text, s) (out, expr) (set, name, expr, global) (if, [(cond, body)], else) (for, [names], expr, body, empty) """

    def __init__(self, name, src):
        self.name, self.imports, self.macros = name, {}, {}
        self.items = []
        i, trim = 0, False
        for m in TAG.finditer(src):
            txt = src[i:m.start()]
            line = src.count("\n", 0, m.start()) + 1
            l, body, r = (m.group(1), m.group(2), m.group(3)) if m.group(2) is not None else \
                (m.group(4), m.group(5), m.group(6)) if m.group(5) is not None else (m.group(7), None, m.group(9))
            if trim:
                txt = txt.lstrip()
            if l == "-":
                txt = txt.rstrip()
            if txt:
                self.items.append(("text", txt, line))
            trim = r == "-"
            if body is not None:
                self.items.append(("tag" if m.group(2) is not None else "out", body.strip(), line))
            i = m.end()
        txt = src[i:].lstrip() if trim else src[i:]
        if txt:
            self.items.append(("text", txt, src.count("\n") + 1))
        self.pos = 0
        self.body = self.block(())
        if self.pos < len(self.items):
            raise TemplateError(f"{name}: unexpected {self.items[self.pos][1]}")

    def block(self, ends):
        out = []
        while self.pos < len(self.items):
            k, v, line = self.items[self.pos]
            if k == "text":
                out.append(("text", v, line))
                self.pos += 1
                continue
            if k == "out":
                out.append(("out", parse_expr(v), line))
                self.pos += 1
                continue
            w = v.split(None, 1)[0]
            if w in ends:
                return out
            self.pos += 1
            rest = v[len(w):].strip()
            if w == "import":
                m = re.match(r"""["']([^"']*)["']\s+as\s+(\w+)""", rest)
                self.imports[m.group(2)] = m.group(1)
            elif w == "macro":
                m = re.match(r"(\w+)\s*\((.*)\)\s*$", rest, re.S)
                ps = []
                for p in m.group(2).split(","):
                    if p.strip():
                        a, _, d = p.partition("=")
                        ps.append((a.strip(), parse_expr(d) if d.strip() else None))
                self.macros[m.group(1)] = (ps, self.block(("endmacro",)), line)
                self.pos += 1
            elif w in ("set", "set_global"):
                n, _, e = rest.partition("=")
                out.append(("set", n.strip(), parse_expr(e), line))
            elif w == "if":
                arms, els = [], []
                cond = parse_expr(rest)
                while True:
                    body = self.block(("elif", "else", "endif"))
                    if cond is None:
                        els = body
                    else:
                        arms.append((cond, body))
                    if self.pos >= len(self.items):
                        raise TemplateError(f"{self.name}: an if without an end")
                    t = self.items[self.pos][1]
                    self.pos += 1
                    tw = t.split(None, 1)[0]
                    if tw == "endif":
                        break
                    cond = parse_expr(t[4:]) if tw == "elif" else None
                out.append(("if", arms, els, line))
            elif w == "for":
                m = re.match(r"(\w+)(?:\s*,\s*(\w+))?\s+in\s+(.*)$", rest, re.S)
                body = self.block(("else", "endfor"))
                els = []
                if self.items[self.pos][1].split(None, 1)[0] == "else":
                    self.pos += 1
                    els = self.block(("endfor",))
                self.pos += 1
                out.append(("for", [x for x in m.groups()[:2] if x], parse_expr(m.group(3)), body, els, line))
            elif w in ("break", "continue"):
                out.append((w, line))
            elif w in ("filter", "raw", "block", "extends", "include"):
                raise TemplateError(f"{self.name}: {w} is not modelled")
            else:
                raise TemplateError(f"{self.name}: unexpected {w}")
        if ends:
            raise TemplateError(f"{self.name}: missing {'/'.join(ends)}")
        return out
