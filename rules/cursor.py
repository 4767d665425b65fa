"""Abstract interpretation of the scanner's cursor over the MIR of its `Iterator::next`.

The domain tracks, per token, positions in the source as linear terms over a few anchors, and for
every anchor: how far it is known to be inside the input, whether it is a character boundary, what
is known about the bytes around it, and how many line breaks lie before it.  Crate functions of
the scanner are inlined; loops are replaced by inferred invariants (Houdini over the candidates
'at most the end of input', 'character boundary', 'no line break consumed', 'never moves back').
Nothing is executed and no solver is used: every step is a table lookup in the domain."""
import string, itertools
from mir import callee, short, loc, rv_operands

TOP = ("top",)
LEN = "LEN"
MAXUNROLL = 12

PREDS = {
    "is_alphanumeric": lambda c: c.isalnum(),
    "is_alphabetic": lambda c: c.isalpha(),
    "is_numeric": lambda c: c.isnumeric(),
    "is_whitespace": lambda c: c.isspace(),
    "is_uppercase": lambda c: c.isupper(),
    "is_lowercase": lambda c: c.islower(),
    "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160,
}
ASCII_SETS = {
    "is_ascii_digit": frozenset(string.digits),
    "is_ascii_punctuation": frozenset(string.punctuation),
    "is_ascii_alphabetic": frozenset(string.ascii_letters),
    "is_ascii_alphanumeric": frozenset(string.ascii_letters + string.digits),
    "is_ascii_whitespace": frozenset(" \t\n\r\x0c"),
    "is_ascii_uppercase": frozenset(string.ascii_uppercase),
    "is_ascii_lowercase": frozenset(string.ascii_lowercase),
    "is_ascii_hexdigit": frozenset(string.hexdigits),
    "is_ascii": frozenset(map(chr, range(128))),
    "is_ascii_control": frozenset(map(chr, list(range(32)) + [127])),
    "is_ascii_graphic": frozenset(map(chr, range(33, 127))),
}


# ---- linear integer terms -------------------------------------------------------------------
# text functions whose result is not their input for some inputs
ALTERING = {"trim", "trim_start", "trim_end", "trim_matches", "trim_start_matches", "trim_end_matches", "trim_ascii",
            "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "replace", "replacen", "repeat"}


def lin(const=0, **syms):
    return ("int", tuple(sorted(syms.items())), const)


def lin_add(a, b, sign=1):
    d = dict(a[1])
    for s, c in b[1]:
        d[s] = d.get(s, 0) + sign * c
        if d[s] == 0:
            del d[s]
    return ("int", tuple(sorted(d.items())), a[2] + sign * b[2])


def is_int(v):
    return v[0] == "int"


class Contradiction(Exception):
    pass


class Stop(Exception):
    """path abandoned because something was not modelled; reason in args"""


class St:
    __slots__ = ("store", "frames", "ch", "bnd", "inb", "le", "end", "lb", "lbz", "unk", "nl", "derived",
                 "memo", "tokens", "log", "trace")

    def __init__(self):
        self.store = {}
        self.frames = ()
        self.ch, self.bnd, self.inb, self.le, self.end = {}, {}, {}, {}, {}
        self.lb, self.lbz, self.unk, self.nl, self.derived, self.memo = {}, {}, {}, {}, {}, {}
        self.tokens = ()
        self.log = ()
        self.trace = ()

    def copy(self):
        n = St.__new__(St)
        for k in ("store", "ch", "bnd", "inb", "le", "end", "lb", "lbz", "unk", "nl", "derived", "memo"):
            setattr(n, k, dict(getattr(self, k)))
        n.frames, n.tokens, n.log, n.trace = self.frames, self.tokens, self.log, self.trace
        return n

    # ---- queries ----
    def q_inb(self, A, off):
        if off <= self.inb.get(A, -10**9) or off + 1 <= self.le.get(A, -10**9):
            return True
        for B in set(self.inb) | set(self.le):
            k = self.dist(A, B)
            if k is not None and off - k <= max(self.inb.get(B, -10**9), self.le.get(B, -10**9) - 1):
                return True
        return False

    def dist(self, A, B):
        """k with B >= A + k, or None"""
        k = 0
        x = B
        for _ in range(40):
            if x == A:
                return k
            if x not in self.lb:
                return None
            p, d = self.lb[x]
            k += d
            x = p
        return None

    def q_le(self, A, off):
        if off <= self.le.get(A, -10**9) or self.q_inb(A, off - 1):
            return True
        if self.bnd.get((A, off)) is True:
            return True
        for B in self.le:
            k = self.dist(A, B)
            if k is not None and off - k <= self.le[B]:
                return True
        return A == "Z" and off == 0

    def q_end(self, A, off):
        if off >= self.end.get(A, 10**9):
            return True
        for X in self.end:
            k = self.dist(X, A)
            if k is not None and off + k >= self.end[X]:
                return True
        return False

    def chf(self, A, off):
        return self.ch.get((A, off), (None, frozenset(), frozenset()))

    def charset(self, A, off):
        """finite set of possible ASCII-or-other chars if known"""
        own = self.charset1(A, off)
        same = self.unk.get(("same", A, off))
        other = self.charset1(*same) if same else None
        return own if other is None else other if own is None else own & other

    def charset1(self, A, off):
        ins, notin, tags = self.chf(A, off)
        if ins is None:
            return None
        return frozenset(c for c in ins if c not in notin and all(PREDS[p](c) == b for p, b in tags))

    def ascii(self, A, off):
        s = self.charset(A, off)
        return s is not None and all(ord(c) < 128 for c in s)

    def q_bnd(self, A, off):
        b = self.bnd.get((A, off))
        if b is not None:
            return b
        if A == "Z" and off == 0:
            return True
        if self.ascii(A, off) or self.ascii(A, off - 1):
            return True
        if self.q_end(A, off) and self.q_le(A, off):
            return True
        return None

    def newline(self, A, off):
        """1 if the byte is a line break, 0 if it cannot be, None if unknown"""
        s = self.charset(A, off)
        if s is not None:
            if s == frozenset("\n"):
                return 1
            if "\n" not in s:
                return 0
            return None
        ins, notin, tags = self.chf(A, off)
        if "\n" in notin or any(PREDS[p]("\n") != b for p, b in tags):
            return 0
        if self.bnd.get((A, off)) is False:
            return 0
        return None

    def nlcount(self, A, off):
        base = self.nl.get(A)
        if base is None:
            return None
        r = range(0, off) if off >= 0 else range(off, 0)
        for i in r:
            n = self.newline(A, i)
            if n is None:
                return None
            base += n if off >= 0 else -n
        return base

    def span_key(self, A, B):
        """canonical name of the stretch A..B as far as line breaks are concerned"""
        (a, i), (b, j) = A, B
        while j > 0 and (a, i) != (b, j) and self.newline(b, j - 1) == 0:
            j -= 1
        while (a, i) != (b, j) and self.newline(a, i) == 0 and i < 8:
            i += 1
        return f"{a}+{i}..{b}+{j}", j

    def nlbetween(self, A, B):
        """number of line breaks in the stretch A..B as an integer, or None"""
        if B != LEN:
            x, y = self.nlcount(*A), self.nlcount(*B)
            if x is not None and y is not None:
                return y - x
            if ("nl0", self.span_key(A, B)[0]) in self.unk:
                return 0
        return None

    def lower(self, t):
        """lower bound of an integer term, or None"""
        inv = {d: k for k, d in self.derived.items()}
        if any(s in inv for s, _c in t[1]):
            acc = ("int", (), t[2])
            for s, c in t[1]:
                for s2, c2 in inv.get(s, ((s, 1),)):
                    acc = lin_add(acc, ("int", ((s2, c * c2),), 0))
            t = acc
        pos = [[s, c] for s, c in t[1] if c > 0]
        neg = [[s, -c] for s, c in t[1] if c < 0]
        tot = t[2]
        for n in neg:
            for p in pos:
                while n[1] > 0 and p[1] > 0:
                    if p[0] == LEN:
                        best = max([k for k in [self.le.get(n[0])] if k is not None] or [None]) if n[0] in self.le else None
                        if best is None:
                            for o in range(6, -1, -1):
                                if self.q_le(n[0], o):
                                    best = o
                                    break
                        d = best
                    else:
                        d = self.dist(n[0], p[0])
                    if d is None:
                        break
                    tot += d
                    n[1] -= 1
                    p[1] -= 1
            if n[1] > 0:
                return None
        for s, c in pos:
            tot += c * max(self.lbz.get(s, 0), self.zlb(s))
        return tot

    def zlb(self, s):
        k, x = 0, s
        for _ in range(40):
            if x == "Z":
                return k
            if x not in self.lb:
                return k + self.lbz.get(x, 0)
            p, d = self.lb[x]
            k += d
            x = p
        return 0

    # ---- updates ----
    def add_char(self, A, off, ins=None, notin=(), tag=None):
        i, n, t = self.chf(A, off)
        if ins is not None:
            i = ins if i is None else i & ins
        n = n | frozenset(notin)
        if tag is not None:
            if (tag[0], not tag[1]) in t:
                raise Contradiction()
            t = t | {tag}
        self.ch[(A, off)] = (i, n, t)
        s = self.charset(A, off)
        if s is not None and not s:
            raise Contradiction()
        if self.ascii(A, off) and self.bnd.get((A, off)) is False:
            raise Contradiction()
        self.set_inb(A, off)
        if ins is not None or tag:
            self.tighten()

    def set_inb(self, A, off):
        if self.q_end(A, off):
            raise Contradiction()
        if self.inb.get(A, -10**9) < off:
            self.inb[A] = off

    def set_end(self, A, off):
        if self.q_inb(A, off):
            raise Contradiction()
        if self.end.get(A, 10**9) > off:
            self.end[A] = off

    def set_le(self, A, off):
        if self.q_end(A, off - 1):
            raise Contradiction()
        if self.le.get(A, -10**9) < off:
            self.le[A] = off

    def strict_gt(self, A, off):
        return ("gt", A, off) in self.unk

    def tighten(self):
        """anchors B >= A+k whose byte facts clash at equality are at least A+k+1"""
        for B, (A, k) in list(self.lb.items()):
            for _ in range(3):
                clash = False
                for (X, o), f in list(self.ch.items()):
                    if X != B:
                        continue
                    s1 = self.charset(B, o)
                    s2 = self.charset(A, k + o)
                    if s1 is not None and s2 is not None and not (s1 & s2):
                        clash = True
                        break
                if not clash:
                    break
                k += 1
                self.lb[B] = (A, k)

    def decide(self, c):
        """truth of an atomic condition, or None"""
        k = c[0]
        if k == "gelen":
            if self.q_end(c[1], c[2]):
                return True
            if self.q_inb(c[1], c[2]):
                return False
        elif k == "gtlen":
            if self.strict_gt(c[1], c[2]):
                return True
            if self.q_le(c[1], c[2]):
                return False
        elif k == "bnd":
            return self.q_bnd(c[1], c[2])
        elif k == "cin":
            s = self.charset(c[1], c[2])
            if s is not None:
                if s <= c[3]:
                    return True
                if not (s & c[3]):
                    return False
            else:
                i, n, t = self.chf(c[1], c[2])
                live = [x for x in c[3] if x not in n and all(PREDS[p](x) == b for p, b in t)]
                if not live:
                    return False
                if self.bnd.get((c[1], c[2])) is False and all(ord(x) < 128 for x in c[3]):
                    return False
        elif k == "pred":
            i, n, t = self.chf(c[1], c[2])
            for p, b in t:
                if p == c[3]:
                    return b
            s = self.charset(c[1], c[2])
            if s is not None:
                vals = {PREDS[c[3]](x) for x in s}
                if len(vals) == 1:
                    return vals.pop()
        elif k == "poszero":
            if self.zlb(c[1]) + c[2] > 0 or self.lbz.get(c[1], 0) + c[2] > 0:
                return False
            if c[2] == 0 and ("zero", c[1]) in self.unk:
                return True
        elif k == "seqany":
            A, off, n, alts = c[1:]
            live = [a for a in alts if len(a) == n and all(self.decide(("cin", A, off + i, a[i])) is not False for i in range(n))]
            if not live:
                return False
            for a in live:
                if all(self.decide(("cin", A, off + i, a[i])) is True for i in range(n)):
                    return True
        elif k == "ends":
            (A, a), (B, b), pat = c[1:]
            if any(self.decide(("cin", B, b - len(pat) + i, p)) is False for i, p in enumerate(pat)):
                return False
            return self.unk.get(c)
        elif k == "lpred":
            # of a whole character, of which a byte is at that place
            s = self.charset(c[1], c[2])
            vals = {PREDS[c[3]](x) for x in s} if s and all(ord(x) < 128 for x in s) else ()
            return vals.pop() if len(vals) == 1 else self.unk.get(c)
        elif k == "unk":
            return self.unk.get(c[1])
        elif k == "ceq2":
            s1, s2 = self.charset(c[1], c[2]), self.charset(c[3], c[4])
            if s1 is not None and s2 is not None:
                if not (s1 & s2):
                    return False
                if len(s1) == 1 and s1 == s2:
                    return True
        return None

    def assume(self, c, truth):
        d = self.decide(c)
        if d is not None:
            if d != truth:
                raise Contradiction()
            if c[0] not in ("seqany",):
                return
        self.log = self.log + ((c, truth),)
        k = c[0]
        if k == "gelen":
            (self.set_end if truth else self.set_inb)(c[1], c[2])
        elif k == "gtlen":
            if truth:
                self.unk[("gt", c[1], c[2])] = True
                if self.end.get(c[1], 10**9) > c[2] - 1:
                    self.end[c[1]] = c[2] - 1 if not self.q_inb(c[1], c[2] - 1) else c[2]
            else:
                self.set_le(c[1], c[2])
        elif k == "bnd":
            self.bnd[(c[1], c[2])] = truth
            if truth is False and (self.ascii(c[1], c[2]) or self.ascii(c[1], c[2] - 1)):
                raise Contradiction()
        elif k == "cin":
            if truth:
                self.add_char(c[1], c[2], ins=frozenset(c[3]))
            else:
                self.add_char(c[1], c[2], notin=c[3])
        elif k == "pred":
            self.add_char(c[1], c[2], tag=(c[3], truth))
        elif k == "poszero":
            if truth and c[2] == 0 and c[1].startswith("N:"):
                self.unk[("nl0", c[1][2:])] = True
            if truth and c[2] == 0:
                self.unk[("zero", c[1])] = True
            if not truth:
                if self.lbz.get(c[1], 0) + c[2] == 0:
                    self.lbz[c[1]] = self.lbz.get(c[1], 0) + 1
        elif k == "seqany":
            A, off, n, alts = c[1:]
            if truth:
                live = [a for a in alts if len(a) == n and all(self.decide(("cin", A, off + i, a[i])) is not False for i in range(n))]
                if not live:
                    raise Contradiction()
                for i in range(n):
                    self.add_char(A, off + i, ins=frozenset().union(*[a[i] for a in live]))
            elif n == 1:
                for a in alts:
                    if len(a) == 1:
                        self.add_char(A, off, notin=a[0])
        elif k == "ends":
            (A, a), (B, b), pat = c[1:]
            self.unk[c] = truth
            if truth:
                for i, p in enumerate(pat):
                    self.add_char(B, b - len(pat) + i, ins=p)
                if B != A and self.lb.get(B, (None, 0))[0] == A:
                    self.lb[B] = (A, max(self.lb[B][1], a + len(pat) - b))
                    self.tighten()
        elif k == "lpred":
            self.unk[c] = truth
        elif k == "unk":
            self.unk[c[1]] = truth
        elif k == "ceq2":
            if truth:
                s1, s2 = self.charset(c[1], c[2]), self.charset(c[3], c[4])
                if s2 is not None:
                    self.add_char(c[1], c[2], ins=s2)
                if s1 is not None:
                    self.add_char(c[3], c[4], ins=s1)
                self.unk[("same", c[1], c[2])] = (c[3], c[4])
                self.unk[("same", c[3], c[4])] = (c[1], c[2])
            else:
                s1, s2 = self.charset(c[1], c[2]), self.charset(c[3], c[4])
                if s2 is not None and len(s2) == 1:
                    self.add_char(c[1], c[2], notin=s2)
                elif s1 is not None and len(s1) == 1:
                    self.add_char(c[3], c[4], notin=s1)


def cond(c):
    return ("cond", c, True)


def neg(v):
    if v[0] == "bool":
        return ("bool", not v[1])
    if v[0] == "cond":
        return ("cond", v[1], not v[2])
    return TOP


def some(v):
    return ("adt", "std::option::Option", 1, {0: v})


NONE = ("adt", "std::option::Option", 0, {})


class Frame:
    __slots__ = ("fn", "id", "block", "dest", "to", "inloop", "callspan")

    def __init__(self, fn, id, block, dest, to, callspan=None):
        self.fn, self.id, self.block, self.dest, self.to, self.callspan = fn, id, block, dest, to, callspan

    def at(self, block):
        f = Frame(self.fn, self.id, block, self.dest, self.to, self.callspan)
        return f


class Engine:
    def __init__(self, prog, rep, module="asciidocr::scanner"):
        self.prog, self.rep = prog, rep
        self.module = module
        self.ids = itertools.count(1)
        self.report = True
        self.findings = {}
        self.obl = {}
        self.notes = {}
        self.fns_seen = set()
        self.paths = 0
        self.loops_seen = {}
        self.steps = 0
        self.roles = {}
        self.finals = []
        self.promo = {}
        self.loopdepth = 0

    # ---- reporting ----
    def fnchain(self, st):
        return [f.fn.short.split("::")[-1] for f in st.frames]

    def violate(self, st, kind, msg, span=None):
        if not self.report:
            return
        f = st.frames[-1].fn
        # name the function whose code is wrong: helpers that only look ahead are blamed on the caller
        key = f"{kind}:{f.short}"
        where = loc(span) if span else f"{f.file}:{f.line}"
        if key not in self.findings:
            self.findings[key] = (kind, where, f"{msg} in {f.short}", [" -> ".join(self.fnchain(st))] +
                                  [f"assuming {self.show(c, t)}" for c, t in st.log[-8:]])

    def show(self, c, t):
        n = "" if t else "not "
        k = c[0]
        if k == "gelen":
            return f"{n}at end of input at {c[1]}+{c[2]}"
        if k == "cin":
            return f"{n}byte at {c[1]}+{c[2]} in {''.join(sorted(c[3]))!r}"
        if k == "bnd":
            return f"{n}character boundary at {c[1]}+{c[2]}"
        return f"{n}{c}"

    def obligation(self, kind, ok):
        if self.report:
            a = self.obl.setdefault(kind, [0, 0])
            a[0] += 1
            a[1] += 1 if ok else 0

    def note(self, s):
        if self.report:
            self.notes[s] = self.notes.get(s, 0) + 1

    # ---- places ----
    def resolve(self, st, pl):
        fr = st.frames[-1]
        root, path = (fr.id, pl["l"]), ()
        for e in pl["p"]:
            if e[0] == "deref":
                v = self.read(st, root, path)
                if v[0] == "ref":
                    root, path = v[1], v[2]
                elif v[0] in ("str", "src", "slice", "bytes", "bslice", "string", "arr", "chars", "altered"):
                    path = path + (("*",),)
                else:
                    return None
            elif e[0] == "field":
                path = path + (("f", e[1]),)
            elif e[0] == "downcast":
                path = path + (("d", e[1]),)
            elif e[0] == "index":
                path = path + (("i", self.read(st, (fr.id, e[1]), ())),)
            elif e[0] == "cindex":
                path = path + (("i", lin(e[1])),) if not e[3] else path + (("?",),)
            else:
                path = path + (("?",),)
        return root, path

    def read(self, st, root, path):
        v = st.store.get(root, TOP)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def proj(self, st, v, e):
        if e[0] == "*":
            return v
        if e[0] == "f":
            if v[0] == "adt":
                return v[3].get(e[1], TOP)
            if v[0] == "tuple":
                return v[1][e[1]] if e[1] < len(v[1]) else TOP
            return TOP
        if e[0] == "d":
            return v
        if e[0] == "i":
            i = e[1]
            if v[0] == "bytes" and is_int(i):
                p = self.pos(st, i)
                if p:
                    return ("charat", p[0], p[1])
            if v[0] == "arr" and is_int(i) and not i[1] and 0 <= i[2] < len(v[1]):
                return v[1][i[2]]
            return TOP
        return TOP

    def write(self, st, root, path, val):
        if not path:
            st.store[root] = val
            return
        st.store[root] = self.upd(st.store.get(root, TOP), path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if v[0] == "adt":
                d = dict(v[3])
                d[e[1]] = self.upd(d.get(e[1], TOP), path[1:], val)
                return ("adt", v[1], v[2], d)
            if v[0] == "tuple":
                l = list(v[1])
                if e[1] < len(l):
                    l[e[1]] = self.upd(l[e[1]], path[1:], val)
                return ("tuple", tuple(l))
            d = {e[1]: self.upd(TOP, path[1:], val)}
            return ("adt", "?", 0, d)
        if e[0] in ("d", "*"):
            return self.upd(v, path[1:], val)
        return TOP

    # ---- positions ----
    def pos(self, st, v):
        """(anchor, offset) of an integer term used as a position"""
        if not is_int(v):
            return None
        if not v[1]:
            return ("Z", v[2])
        if len(v[1]) == 1 and v[1][0][1] == 1 and v[1][0][0] != LEN:
            return (v[1][0][0], v[2])
        if all(c > 0 for s, c in v[1]) and LEN not in dict(v[1]):
            k = v[1]
            if k not in st.derived:
                d = f"D{next(self.ids)}"
                st.derived[k] = d
                big = [s for s, c in k if s in st.nl] or [k[0][0]]
                rest = sum(c * st.lbz.get(s, 0) for s, c in k if s != big[0])
                st.lb[d] = (big[0], rest)
                st.nl[d] = None
            return (st.derived[k], v[2])
        return None

    # ---- operands / rvalues ----
    def operand(self, st, op):
        if "const" in op:
            return self.const(st, op["const"])
        pl = op.get("copy") or op.get("move")
        r = self.resolve(st, pl)
        if r is None:
            return TOP
        return self.read(st, *r)

    def const(self, st, c):
        if "int" in c:
            return lin(int(c["int"]))
        if "bool" in c:
            return ("bool", c["bool"])
        if "char" in c:
            return ("char", c["char"])
        if "str" in c:
            return ("str", c["str"])
        if "variant" in c:
            ty = st.frames[-1].fn.ty(c["ty"]) if "ty" in c else None
            return ("adt", ty.defpath if ty is not None and ty.k == "adt" else "?", c["variant"], {})
        if "fn" in c:
            return ("fn", c["fn"])
        if "promoted" in c:
            return self.promoted(st, c["of"], c["promoted"])
        return TOP

    def promoted(self, st, of, n):
        key = (of, n)
        if key in self.promo:
            root = ("promo",) + key
            st.store[root] = self.promo[key]
            v = self.promo[key]
            return v if v[0] != "__" else TOP
        f = self.prog.fns.get(of + "{promoted#%d}" % n)
        val = TOP
        if f is not None:
            tmp = St()
            fid = ("p", of, n)
            tmp.frames = (Frame(f, fid, 0, None, None),)
            try:
                b = 0
                for _ in range(50):
                    for s in f.blocks[b]["s"]:
                        if s["s"] == "assign":
                            self.assign(tmp, s)
                    t = f.blocks[b]["t"]
                    if t["t"] == "return":
                        break
                    if t["t"] != "goto":
                        raise Stop()
                    b = t["to"]
                val = self.flatten(tmp, tmp.store.get((fid, 0), TOP))
            except Stop:
                val = TOP
        self.promo[key] = val
        return val

    def flatten(self, st, v):
        """dereference references inside a constant, so that it can live outside its frame"""
        if v[0] == "ref":
            inner = self.flatten(st, self.read(st, v[1], v[2]))
            return ("cref", inner)
        if v[0] == "arr":
            return ("arr", tuple(self.flatten(st, x) for x in v[1]))
        if v[0] == "tuple":
            return ("tuple", tuple(self.flatten(st, x) for x in v[1]))
        if v[0] == "adt":
            return ("adt", v[1], v[2], {k: self.flatten(st, x) for k, x in v[3].items()})
        return v

    def strip(self, st, v, n=6):
        """follow references to the value"""
        for _ in range(n):
            if v[0] == "ref":
                v = self.read(st, v[1], v[2])
            elif v[0] == "cref":
                v = v[1]
            else:
                break
        return v

    def assign(self, st, s):
        v = self.rvalue(st, s["rv"], s)
        r = self.resolve(st, s["place"])
        if r is None:
            return
        self.store_checked(st, r[0], r[1], v, s["span"])

    def store_checked(self, st, root, path, v, span):
        if root == "SELF" and len(path) == 1 and path[0][0] == "f" and path[0][1] == self.roles.get("current"):
            self.move_cursor(st, v, span)
        self.write(st, root, path, v)

    def move_cursor(self, st, v, span):
        p = self.pos(st, v)
        if p is None:
            self.note("cursor set to an unmodelled value")
            return
        ok = st.q_le(*p)
        self.obligation("cursor moves stay within the input", ok)
        if not ok:
            self.violate(st, "cursor-past-end", "the cursor can be moved past the end of the input", span)
            try:
                st.set_le(*p)
            except Contradiction:
                raise Stop("past end")
            if st.q_end(p[0], p[1] - 1):
                raise Stop("past end")

    def rvalue(self, st, rv, s):
        k = rv["r"]
        if k == "use":
            return self.operand(st, rv["op"])
        if k == "ref" or k == "rawptr":
            r = self.resolve(st, rv["place"])
            if r is None:
                # reborrow of an opaque pointer
                pl = rv["place"]
                if pl["p"] and pl["p"][-1][0] == "deref":
                    v = self.read(st, (st.frames[-1].id, pl["l"]), ()) if len(pl["p"]) == 1 else TOP
                    return v if v[0] == "cref" else TOP
                return TOP
            root, path = r
            if path and path[-1][0] == "*":
                return self.read(st, root, path)      # &*str  ==  the same string
            return ("ref", root, path)
        if k == "cast":
            v = self.operand(st, rv["op"])
            return v
        if k == "bin":
            return self.binop(st, rv["bop"], self.operand(st, rv["a"]), self.operand(st, rv["b"]))
        if k == "un":
            v = self.operand(st, rv["op"])
            if rv["uop"] == "Not":
                return neg(v)
            if rv["uop"] == "PtrMetadata":
                return self.length(st, self.strip(st, v))
            return TOP
        if k == "len":
            r = self.resolve(st, rv["place"])
            return self.length(st, self.read(st, *r)) if r else TOP
        if k == "discr":
            r = self.resolve(st, rv["place"])
            v = self.read(st, *r) if r else TOP
            if v[0] == "adt":
                return lin(v[2])
            return TOP
        if k == "agg":
            ops = [self.operand(st, o) for o in rv["ops"]]
            a = rv.get("agg")
            if a == "tuple":
                return ("tuple", tuple(ops))
            if a == "array":
                return ("arr", tuple(ops))
            if a == "closure":
                return ("closure", rv["def"], tuple(ops))
            val = ("adt", rv.get("def"), rv.get("variant", 0), dict(enumerate(ops)))
            if rv.get("def", "").endswith("scanner::tokens::Token"):
                self.on_token(st, rv, ops, s["span"])
            return val
        return TOP

    def on_token(self, st, rv, ops, span):
        names = [n for n, _t in self.prog.adt_fields(rv["def"])]
        d = dict(zip(names, ops))
        sf = st.store["SELF"][3]
        ev = {"fields": d, "cur": sf[self.roles["current"]], "fn": st.frames[-1].fn.short, "span": span,
              "chain": self.fnchain(st)}
        st.tokens = st.tokens + (ev,)

    def length(self, st, v):
        if v[0] in ("src", "bytes"):
            return ("int", ((LEN, 1),), 0)
        if v[0] == "str":
            return lin(len(v[1].encode()))
        if v[0] == "arr":
            return lin(len(v[1]))
        if v[0] in ("slice", "bslice"):
            a = ("int", ((v[1][0], 1),) if v[1][0] != "Z" else (), v[1][1])
            if v[2] == LEN:
                b = ("int", ((LEN, 1),), 0)
            else:
                b = ("int", ((v[2][0], 1),) if v[2][0] != "Z" else (), v[2][1])
            return lin_add(b, a, -1)
        return TOP

    def binop(self, st, op, a, b):
        a, b = self.strip(st, a), self.strip(st, b)
        if op in ("Add", "AddWithOverflow", "AddUnchecked", "Sub", "SubWithOverflow", "SubUnchecked"):
            if is_int(a) and is_int(b):
                v = lin_add(a, b, 1 if op.startswith("Add") else -1)
                if op.endswith("WithOverflow"):
                    if op.startswith("Sub"):
                        lo = st.lower(v)
                        if lo is not None and lo >= 0:
                            return ("tuple", (v, ("bool", False)))
                        return ("tuple", (v, ("cond", ("underflow", v), True)))
                    return ("tuple", (v, ("bool", False)))
                return v
            if op.endswith("WithOverflow"):
                return ("tuple", (TOP, ("bool", False)))
            return TOP
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        if op in ("BitAnd", "BitOr", "BitXor") and a[0] in ("bool", "cond") and b[0] in ("bool", "cond"):
            da = st.decide(a[1]) if a[0] == "cond" else a[1]
            db = st.decide(b[1]) if b[0] == "cond" else b[1]
            if a[0] == "cond" and da is not None:
                da = da == a[2]
            if b[0] == "cond" and db is not None:
                db = db == b[2]
            if op == "BitAnd":
                if da is False or db is False:
                    return ("bool", False)
                if da is True:
                    return b
                if db is True:
                    return a
            if op == "BitOr":
                if da is True or db is True:
                    return ("bool", True)
                if da is False:
                    return b
                if db is False:
                    return a
            return TOP
        return TOP

    def compare(self, st, op, a, b):
        ch = ("char", "charat", "lastchar", "charfull")
        if a[0] in ch or b[0] in ch:
            if op not in ("Eq", "Ne"):
                if a[0] == "char" and b[0] == "char":
                    x, y = a[1], b[1]
                    return ("bool", {"Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op])
                # ranges such as 'a'..='z' over ASCII
                if a[0] in ("charat", "charfull") and b[0] == "char" and ord(b[1]) < 127:
                    n = ord(b[1])
                    s = {"Lt": range(0, n), "Le": range(0, n + 1)}.get(op)
                    if s is not None:
                        return cond(("cin", a[1], a[2], frozenset(map(chr, s))))
                    s = {"Ge": range(0, n), "Gt": range(0, n + 1)}[op]
                    return neg(cond(("cin", a[1], a[2], frozenset(map(chr, s)))))
                if b[0] in ("charat", "charfull") and a[0] == "char":
                    return self.compare(st, {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}[op], b, a)
                return TOP
            r = self.chareq(st, a, b)
            return r if op == "Eq" else neg(r)
        if is_int(a) and is_int(b):
            # byte constants compared with bytes come as ints
            d = lin_add(a, b, -1)
            if not d[1]:
                n = d[2]
                return ("bool", {"Eq": n == 0, "Ne": n != 0, "Lt": n < 0, "Le": n <= 0, "Gt": n > 0, "Ge": n >= 0}[op])
            syms = dict(d[1])
            if LEN in syms:
                # normalise to pos ? LEN
                if syms[LEN] == 1:
                    d = ("int", tuple(sorted((s, -c) for s, c in d[1])), -d[2])
                    op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
                    syms = dict(d[1])
                if syms.get(LEN) == -1:
                    rest = ("int", tuple((s, c) for s, c in d[1] if s != LEN), d[2])
                    p = self.pos(st, rest)
                    if p:
                        if op == "Ge":
                            return cond(("gelen", *p))
                        if op == "Lt":
                            return neg(cond(("gelen", *p)))
                        if op == "Gt":
                            return cond(("gtlen", *p))
                        if op == "Le":
                            return neg(cond(("gtlen", *p)))
                        if op in ("Eq", "Ne"):
                            if st.q_le(*p):
                                r = cond(("gelen", *p))
                                return r if op == "Eq" else neg(r)
                return self.fresh()
            lo = st.lower(d)
            hi = st.lower(("int", tuple(sorted((s, -c) for s, c in d[1])), -d[2]))
            hi = -hi if hi is not None else None
            if op == "Ge" and lo is not None and lo >= 0 or op == "Gt" and lo is not None and lo > 0:
                return ("bool", True)
            if op == "Lt" and lo is not None and lo >= 0 or op == "Le" and lo is not None and lo > 0:
                return ("bool", False)
            if op == "Le" and hi is not None and hi <= 0 or op == "Lt" and hi is not None and hi < 0:
                return ("bool", True)
            if op == "Gt" and hi is not None and hi <= 0 or op == "Ge" and hi is not None and hi < 0:
                return ("bool", False)
            if op in ("Eq", "Ne") and lo is not None and lo > 0 or op in ("Eq", "Ne") and hi is not None and hi < 0:
                return ("bool", op == "Ne")
            if len(d[1]) == 1 and d[1][0][1] == 1:
                if op in ("Eq", "Ne"):
                    r = cond(("poszero", d[1][0][0], d[2]))
                    return r if op == "Eq" else neg(r)
                if op == "Gt":
                    return neg(cond(("poszero", d[1][0][0], d[2]))) if lo == 0 else self.fresh()
                if op == "Ge" and lo == -1:
                    return neg(cond(("poszero", d[1][0][0], d[2] + 1)))
                if op == "Lt" and lo == -1:
                    return cond(("poszero", d[1][0][0], d[2] + 1))
                if op == "Le" and lo == 0:
                    return cond(("poszero", d[1][0][0], d[2]))
            return self.fresh()
        return self.fresh()

    def fresh(self):
        return cond(("unk", next(self.ids)))

    def chareq(self, st, a, b):
        if a[0] == "char" and b[0] == "char":
            return ("bool", a[1] == b[1])
        if a[0] == "char" or is_int(a):
            a, b = b, a
        if is_int(b):
            if b[1]:
                return self.fresh()
            b = ("char", chr(b[2]))
        if b[0] == "char":
            c = b[1]
            if a[0] == "charat":
                if ord(c) > 255:
                    return ("bool", False)
                if ord(c) > 127:
                    return self.fresh()
                return cond(("cin", a[1], a[2], frozenset(c)))
            if a[0] in ("lastchar", "charfull"):
                if ord(c) > 127:
                    return self.fresh()
                return cond(("cin", a[1], a[2], frozenset(c)))
            return self.fresh()
        if a[0] in ("charat",) and b[0] in ("charat",):
            return cond(("ceq2", a[1], a[2], b[1], b[2]))
        return self.fresh()

    # ---- strings ----
    def elems(self, st, v):
        """string value as a list of char sets, or None"""
        if v[0] == "str":
            return [frozenset(c) for c in v[1]]
        if v[0] == "string":
            return list(v[1])
        return None

    def streq(self, st, a, b):
        a, b = self.strip(st, a), self.strip(st, b)
        if a[0] == "str" and b[0] == "str":
            return ("bool", a[1] == b[1])
        if b[0] == "slice":
            a, b = b, a
        if a[0] == "slice":
            e = self.elems(st, b)
            if e is not None:
                return self.slice_is(st, a, [e])
            return self.fresh()
        ea, eb = self.elems(st, a), self.elems(st, b)
        if ea is not None and eb is not None:
            if len(ea) != len(eb) or any(not (x & y) for x, y in zip(ea, eb)):
                return ("bool", False)
            if all(len(x) == 1 and x == y for x, y in zip(ea, eb)):
                return ("bool", True)
        return self.fresh()

    def slice_is(self, st, sl, alts):
        n = self.slice_len(sl)
        good = [tuple(a) for a in alts if all(ord(c) < 128 for s in a for c in s)]
        if len(good) != len(alts) or n is None:
            return self.fresh()
        live = tuple(a for a in good if len(a) == n)
        if not live:
            return ("bool", False)
        if n == 0:
            return ("bool", True)
        return cond(("seqany", sl[1][0], sl[1][1], n, live))

    def slice_len(self, sl):
        if sl[2] != LEN and sl[1][0] == sl[2][0]:
            return sl[2][1] - sl[1][1]
        return None

    def make_slice(self, st, base, a, b, span, kind):
        """base[a..b]; a, b integer terms or None/LEN. Checks the obligations."""
        off0 = None
        if base[0] in ("slice", "bslice"):
            # relative to another slice: only the simple [k..] / [..k] forms with known lengths
            off0 = base
            start = ("int", ((base[1][0], 1),) if base[1][0] != "Z" else (), base[1][1])
            if a is None:
                a = lin(0)
            if not is_int(a) or (b not in (None, LEN) and not is_int(b)):
                return TOP
            na = lin_add(start, a)
            nb = lin_add(start, b) if b not in (None, LEN) else None
            pa = self.pos(st, na)
            if nb is None:
                pb = base[2]
            else:
                pb = self.pos(st, nb)
            self.note("slice of a slice: bounds relative to the inner slice not checked")
            if pa is None or pb is None:
                return TOP
            return (base[0], pa, pb)
        if base[0] not in ("src", "bytes"):
            return TOP
        text = base[0] == "src"
        A = self.pos(st, a) if a is not None else ("Z", 0)
        B = self.pos(st, b) if b not in (None, LEN) else LEN
        if A is None or B is None:
            self.note("slice with unmodelled bounds")
            return TOP
        ia = ("int", ((A[0], 1),) if A[0] != "Z" else (), A[1])
        if B != LEN:
            ib = ("int", ((B[0], 1),) if B[0] != "Z" else (), B[1])
            lo = st.lower(lin_add(ib, ia, -1))
            ok = lo is not None and lo >= 0
            self.obligation("slice start before end", ok)
            if not ok:
                self.violate(st, "slice-order", "a slice of the source may start after its end", span)
            ok = st.q_le(*B)
            self.obligation("slice end within the input", ok)
            if not ok:
                self.violate(st, "slice-past-end", "a slice of the source may end past the input", span)
                try:
                    st.set_le(*B)
                except Contradiction:
                    raise Stop()
        else:
            ok = st.q_le(*A)
            self.obligation("slice end within the input", ok)
            if not ok:
                self.violate(st, "slice-past-end", "a slice of the source may start past the input", span)
        if text:
            for P in ([A, B] if B != LEN else [A]):
                q = st.q_bnd(*P)
                self.obligation("slice ends on character boundaries", q is True)
                if q is not True:
                    self.violate(st, "slice-boundary", "a slice of the source may split a multi-byte character", span)
                    if q is False:
                        raise Stop()
                    try:
                        st.assume(("bnd", *P), True)
                    except Contradiction:
                        raise Stop()
        return ("slice" if text else "bslice", A, B)

    def range_of(self, st, v):
        """(a, b) of a Range/RangeFrom/RangeTo/RangeFull/RangeInclusive value"""
        v = self.strip(st, v)
        if v[0] != "adt" or not v[1]:
            return None
        n = v[1].split("::")[-1]
        f = v[3]
        if n == "Range":
            return f.get(0, TOP), f.get(1, TOP)
        if n == "RangeFrom":
            return f.get(0, TOP), LEN
        if n == "RangeTo":
            return None, f.get(0, TOP)
        if n == "RangeFull":
            return None, LEN
        if n == "RangeToInclusive":
            x = f.get(0, TOP)
            return None, lin_add(x, lin(1)) if is_int(x) else TOP
        return None

    # ---- calls ----
    def call(self, st, t):
        """returns list of states positioned after the call (or inside the callee)"""
        fr = st.frames[-1]
        c = callee(t)
        args = [self.operand(st, a) for a in t["args"]]
        if c is not None:
            path = c["path"]
            g = self.prog.fns.get(path)
            if g is not None and g.kind in ("fn", "closure") and self.inlinable(g):
                self.fns_seen.add(g.path)
                if any(x.fn is g for x in st.frames):
                    self.violate(st, "recursion", f"{g.short.split('::')[-1]} calls itself: the stack depth grows with the input",
                                 t["span"])
                    raise Stop("recursion")
                st2 = st
                fid = next(self.ids)
                nf = Frame(g, fid, 0, t["dest"], t["to"], t["span"])
                for i, a in enumerate(args):
                    st2.store[(fid, i + 1)] = a
                st2.frames = st2.frames + (nf,)
                return [st2]
        if t["to"] is None:
            self.obligation("no abort is reachable", False)
            self.violate(st, "abort", f"{short(c['path']) if c else 'a diverging call'} is reachable", t["span"])
            return []
        outs = self.model(st, t, c, args)
        res = []
        for s2, v in outs:
            r = self.resolve(s2, t["dest"])
            if r is not None:
                self.store_checked(s2, r[0], r[1], v, t["span"])
            s2.frames = s2.frames[:-1] + (s2.frames[-1].at(t["to"]),)
            res.append(s2)
        return res

    def inlinable(self, g):
        own = (g.impl_of or "").split("<")[0]
        p = g.path.lstrip("<&")
        return own == self.module + "::Scanner" or own.endswith("::Scanner") or \
            (p.startswith(self.module + "::") and not p.startswith(self.module + "::tokens")) and not g.derived or \
            self.makes_token(g) or p.startswith(self.module + "::tokens") and not g.derived and self.scalar_args(g)

    def scalar_args(self, g):
        return g.argc and all(g.lty(i + 1).k in ("char", "int", "uint", "bool") for i in range(g.argc))

    def makes_token(self, g):
        """a function that only puts together a token of the type it is given"""
        for b in g.blocks:
            for s in b["s"]:
                rv = s["rv"] if s["s"] == "assign" and not b["cleanup"] else {"r": None}
                if rv["r"] == "agg" and rv.get("agg") == "adt" and rv["def"].endswith("::tokens::Token"):
                    names = [n for n, _t in self.prog.adt_fields(rv["def"])]
                    return "const" not in rv["ops"][names.index("token_type")]
        return False

    def fork_bool(self, st, v):
        return [(st, v)]

    def model(self, st, t, c, args):
        if c is None:
            self.note("call through a function value")
            return [(st, TOP)]
        name = c["name"]
        sp = short(c["path"])
        a0 = self.strip(st, args[0]) if args else TOP
        span = t["span"]
        isstr = a0[0] in ("src", "str", "slice", "string")
        # string access
        if name == "len" and a0[0] in ("src", "str", "slice", "bytes", "bslice", "arr"):
            return [(st, self.length(st, a0))]
        if name == "is_empty" and a0[0] in ("src", "str", "slice", "bytes", "bslice"):
            l = self.length(st, a0)
            return [(st, self.compare(st, "Eq", l, lin(0)))]
        if name == "as_bytes" and a0[0] == "src":
            return [(st, ("bytes",))]
        if name == "as_bytes" and a0[0] == "slice":
            return [(st, ("bslice", a0[1], a0[2]))]
        if name in ("as_str", "deref", "as_ref", "borrow", "into_boxed_str", "as_slice") and a0[0] in (
                "src", "str", "slice", "string", "bytes", "bslice", "arr"):
            return [(st, a0)]
        if name in ("to_string", "to_owned", "clone", "into", "from", "to_str") and isstr:
            return [(st, a0)]
        if name in ALTERING and a0[0] == "slice":
            return [(st, ("altered", name))]
        if name in ("as_str", "deref", "as_ref", "borrow", "to_string", "to_owned", "clone", "into", "from", "to_str",
                    "into_owned") and a0[0] == "altered":
            return [(st, a0)]
        if name == "clone" and a0[0] in ("int", "bool", "char", "charat", "adt"):
            return [(st, a0)]
        if name == "is_char_boundary" and a0[0] == "src":
            p = self.pos(st, args[1])
            return [(st, cond(("bnd", *p)) if p else self.fresh())]
        if name == "index" and a0[0] in ("src", "bytes", "slice", "bslice"):
            r = self.range_of(st, args[1])
            if r is None:
                i = self.strip(st, args[1])
                if is_int(i) and a0[0] == "bytes":
                    p = self.pos(st, i)
                    if p:
                        self.check_index(st, p, span)
                        return [(st, ("charat", *p))]
                self.note("unmodelled index")
                return [(st, TOP)]
            a, b = r
            if a is not None and not is_int(a) or (b not in (None, LEN) and not is_int(b)):
                self.note("slice with unmodelled bounds")
                return [(st, TOP)]
            return [(st, self.make_slice(st, a0, a, b, span, name))]
        if name in ("checked_sub", "saturating_sub", "checked_add", "saturating_add") and len(args) == 2 and is_int(a0):
            b0 = self.strip(st, args[1])
            if is_int(b0):
                plain = lin_add(a0, b0, 1 if name.endswith("add") else -1)
                checked = name.startswith("checked")
                if name.endswith("add"):
                    # positions are bounded by the length of the input
                    return [(st, some(plain) if checked else plain)]
                g = self.compare(st, "Ge", a0, b0)
                low = NONE if checked else lin(0)
                if g[0] == "bool":
                    return [(st, (some(plain) if checked else plain) if g[1] else low)]
                if g[0] == "cond":
                    res = []
                    for truth, val in ((True, some(plain) if checked else plain), (False, low)):
                        s2 = st.copy()
                        try:
                            s2.assume(g[1], g[2] == truth)
                        except Contradiction:
                            continue
                        res.append((s2, val))
                    return res
        if name == "get" and a0[0] in ("src", "bytes"):
            r = self.range_of(st, args[1])
            if r is None:
                i = self.strip(st, args[1])
                p = self.pos(st, i) if is_int(i) else None
                if p and a0[0] == "bytes":
                    res = []
                    for truth, val in ((False, some(("cref", ("charat", *p)))), (True, NONE)):
                        s2 = st.copy()
                        try:
                            s2.assume(("gelen", *p), truth)
                            res.append((s2, val))
                        except Contradiction:
                            pass
                    return res
                return [(st, TOP)]
            a, b = r
            if (a is not None and not is_int(a)) or (b not in (None, LEN) and not is_int(b)):
                return [(st, TOP)]
            A = self.pos(st, a) if a is not None else ("Z", 0)
            B = self.pos(st, b) if b != LEN else LEN
            if A is None or B is None:
                return [(st, TOP)]
            res = []
            s2 = st.copy()
            try:
                if B != LEN:
                    s2.assume(("gtlen", *B), False)
                    if a0[0] == "src":
                        s2.assume(("bnd", *B), True)
                else:
                    s2.assume(("gtlen", *A), False)
                if a0[0] == "src":
                    s2.assume(("bnd", *A), True)
                res.append((s2, some(("slice" if a0[0] == "src" else "bslice", A, B))))
            except Contradiction:
                pass
            # failure is possible unless everything is already known
            okk = (B == LEN and st.q_le(*A)) or (B != LEN and st.q_le(*B))
            if a0[0] == "src":
                okk = okk and st.q_bnd(*A) is True and (B == LEN or st.q_bnd(*B) is True)
            if not okk:
                res.append((st.copy(), NONE))
            return res
        if name == "chars" and isstr:
            return [(st, ("chars", a0, False))]
        if name == "rev" and a0[0] == "chars":
            return [(st, ("chars", a0[1], not a0[2]))]
        if name in ("last", "next", "next_back") and a0[0] == "chars":
            lastone = (name in ("last", "next_back")) != a0[2]
            return self.char_end(st, a0[1], lastone)
        if name in ("next", "peek") and a0[0] == "chars":
            return self.char_end(st, a0[1], False)
        if name in ("unwrap", "expect") and a0[0] == "adt":
            some_v = {"std::option::Option": 1, "std::result::Result": 0}.get(a0[1])
            if some_v is not None:
                ok = a0[2] == some_v
                self.obligation("unwraps succeed", ok)
                if not ok:
                    self.violate(st, "unwrap-none", "an absent value may be unwrapped", span)
                    raise Stop()
                return [(st, a0[3].get(0, TOP))]
        if name in ("unwrap", "expect"):
            self.note(f"unwrap of an unmodelled value in {st.frames[-1].fn.short}")
            return [(st, TOP)]
        if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else") and a0[0] == "adt" and a0[1] == "std::option::Option":
            if a0[2] == 1:
                return [(st, a0[3].get(0, TOP))]
            return [(st, args[1] if name == "unwrap_or" else TOP)]
        if name in ("is_some", "is_none") and a0[0] == "adt" and a0[1] == "std::option::Option":
            return [(st, ("bool", (a0[2] == 1) == (name == "is_some")))]
        if name in ("copied", "cloned") and a0[0] == "adt" and a0[1] == "std::option::Option":
            return [(st, some(self.strip(st, a0[3].get(0, TOP))) if a0[2] == 1 else NONE)]
        if name == "contains" and len(args) == 2:
            if a0[0] == "arr":
                return [(st, self.arr_contains(st, a0, self.strip(st, args[1])))]
            pat = self.strip(st, args[1])
            if a0[0] == "slice" and pat[0] in ("char", "str") and pat[1] and all(ord(c) < 128 for c in pat[1]):
                return [(st, cond(("unk", ("has", a0[1], a0[2], pat[1]))))]
            return [(st, self.fresh())]
        if name in ("starts_with", "ends_with") and len(args) == 2 and a0[0] == "slice":
            return [(st, self.starts(st, a0, self.strip(st, args[1]), name))]
        if name in ("eq", "ne") and len(args) == 2:
            a, b = a0, self.strip(st, args[1])
            if a[0] in ("src", "str", "slice", "string") or b[0] in ("src", "str", "slice", "string"):
                r = self.streq(st, a, b)
            elif a[0] in ("char", "charat", "lastchar", "charfull") or is_int(a):
                r = self.compare(st, "Eq", a, b)
            elif a[0] == "adt" and b[0] == "adt" and a[1] == b[1] == "std::option::Option":
                if a[2] != b[2]:
                    r = ("bool", False)
                elif a[2] == 0:
                    r = ("bool", True)
                else:
                    r = self.compare(st, "Eq", self.strip(st, a[3].get(0, TOP)), self.strip(st, b[3].get(0, TOP)))
            else:
                r = self.fresh()
            return [(st, r if name == "eq" else neg(r))]
        if name in PREDS and a0[0] in ("char", "charat", "charfull", "lastchar"):
            if a0[0] == "char":
                return [(st, ("bool", PREDS[name](a0[1])))]
            if a0[0] == "charat":
                return [(st, cond(("pred", a0[1], a0[2], name)))]
            return [(st, cond(("lpred", a0[1], a0[2], name)))]
        if name in ASCII_SETS and a0[0] in ("char", "charat", "charfull", "lastchar"):
            if a0[0] == "char":
                return [(st, ("bool", a0[1] in ASCII_SETS[name]))]
            return [(st, cond(("cin", a0[1], a0[2], ASCII_SETS[name])))]
        # owned strings built from known pieces
        if name in ("from", "to_string") and a0[0] in ("char", "charat"):
            s = frozenset(a0[1]) if a0[0] == "char" else st.charset(a0[1], a0[2])
            if a0[0] == "charat" and s is not None and 1 < len(s) <= 8:
                # one case per character, so that copies of it stay related
                res = []
                for c in sorted(s):
                    s2 = st.copy()
                    try:
                        s2.assume(("cin", a0[1], a0[2], frozenset(c)), True)
                    except Contradiction:
                        continue
                    res.append((s2, ("string", (frozenset(c),))))
                return res
            return [(st, ("string", (s,)) if s is not None else TOP)]
        if name == "repeat" and isstr:
            e = self.elems(st, a0)
            n = args[1]
            if e is not None and is_int(n) and not n[1] and n[2] < 64:
                return [(st, ("string", tuple(e) * n[2]))]
            return [(st, TOP)]
        if name in ("push", "push_str") and args[0][0] == "ref":
            b = self.strip(st, args[1])
            add = None
            if b[0] == "char":
                add = (frozenset(b[1]),)
            elif b[0] == "charat":
                s = st.charset(b[1], b[2])
                add = (s,) if s is not None else None
            else:
                e = self.elems(st, b)
                add = tuple(e) if e is not None else None
            cur = self.read(st, args[0][1], args[0][2])
            e = self.elems(st, cur)
            self.write(st, args[0][1], args[0][2], ("string", tuple(e) + add) if e is not None and add is not None else TOP)
            return [(st, TOP)]
        if name == "new" and sp.endswith("String::new"):
            return [(st, ("string", ()))]
        # control helpers
        if name == "branch" and "Try" in (c.get("trait") or c["path"]):
            if a0[0] == "adt":
                okv = {"std::option::Option": 1, "std::result::Result": 0}.get(a0[1])
                if okv is not None:
                    if a0[2] == okv:
                        return [(st, ("adt", "std::ops::ControlFlow", 0, {0: a0[3].get(0, TOP)}))]
                    return [(st, ("adt", "std::ops::ControlFlow", 1, {0: a0}))]
            s2 = st.copy()
            return [(st, ("adt", "std::ops::ControlFlow", 0, {0: TOP})), (s2, ("adt", "std::ops::ControlFlow", 1, {0: TOP}))]
        if name == "from_residual":
            return [(st, ("adt", "std::result::Result", 1, {0: TOP}))]
        if name in ("min", "max") and len(args) == 2 and is_int(a0) and is_int(self.strip(st, args[1])):
            b = self.strip(st, args[1])
            d = lin_add(a0, b, -1)
            lo = st.lower(d)
            if lo is not None and lo >= 0:
                return [(st, a0 if name == "max" else b)]
            up = st.lower(lin_add(b, a0, -1))
            if up is not None and up >= 0:
                return [(st, b if name == "max" else a0)]
            # min(pos, LEN): a position within the input that is at most pos
            return [(st, TOP)]
        if name == "next" and a0[0] == "adt" and a0[1] == "std::ops::Range" and args[0][0] == "ref" and is_int(a0[3].get(0, TOP)) and is_int(a0[3].get(1, TOP)):
            lo, hi = a0[3][0], a0[3][1]
            n = lin_add(hi, lo, -1)
            if not n[1] and n[2] <= 0:
                return [(st, NONE)]
            s2 = st.copy()
            self.write(s2, args[0][1], args[0][2], ("adt", a0[1], a0[2], {**a0[3], 0: lin_add(lo, lin(1))}))
            return [(s2, some(lo))] if not n[1] else [(s2, some(TOP)), (st, NONE)]
        if name == "into_iter" and a0[0] == "adt" and a0[1] == "std::ops::Range":
            return [(st, a0)]
        if name == "into_iter" or name == "iter":
            return [(st, a0 if a0[0] in ("chars",) else TOP)]
        if name == "matches" and a0[0] == "slice" and self.strip(st, args[1]) == ("char", "\n"):
            return [(st, ("breaks", a0[1], a0[2]))]
        if name == "count" and a0[0] == "breaks" and a0[2] != LEN:
            n = st.nlbetween(a0[1], a0[2])
            if n is not None:
                return [(st, lin(n))]
            return [(st, ("int", (("N:" + st.span_key(a0[1], a0[2])[0], 1),), 0))]
        if name == "count" and a0[0] == "chars" and a0[1][0] == "slice" and a0[1][2] != LEN:
            return [(st, ("int", ((f"chars:{a0[1][1]}..{a0[1][2]}", 1),), 0))]
        if name == "rfind" and a0[0] == "slice" and a0[2] != LEN and self.strip(st, args[1]) == ("char", "\n"):
            n = st.nlbetween(a0[1], a0[2])
            key, off = st.span_key(a0[1], a0[2])
            N, K = "N:" + key, "K:" + key
            res = []
            if n is None or n > 0:
                s2 = st.copy()
                s2.lbz[N] = max(1, s2.lbz.get(N, 0))
                s2.lbz[K] = 1
                after = lin(1) if st.newline(a0[2][0], a0[2][1] - 1) == 1 else ("int", ((K, 1),), a0[2][1] - off)
                res.append((s2, some(lin_add(self.length(st, a0), after, -1))))
            if n is None and st.lbz.get(N, 0) < 1 or n == 0:
                s2 = st.copy()
                s2.unk[("nl0", key)] = True
                res.append((s2, NONE))
            return res
        if name == "find" and a0[0] in ("slice", "src"):
            return [(st, TOP)]
        # unknown external or non-inlined crate function: result unknown; anything mutably borrowed is lost
        lost = False
        for a, aty in zip(args, t["atys"]):
            ty = st.frames[-1].fn.ty(aty)
            if a[0] == "ref" and ty is not None and ty.k == "ref" and ty.s.startswith("&mut"):
                if a[1] == "SELF":
                    lost = True
                else:
                    self.write(st, a[1], a[2], TOP)
        if lost:
            self.note(f"scanner state handed to unmodelled {sp}")
            raise Stop("lost")
        dty = st.frames[-1].fn.ty(t["dty"])
        if dty is not None and dty.k == "bool":
            return [(st, self.fresh())]
        return [(st, TOP)]

    def check_index(self, st, p, span):
        ok = st.q_inb(*p)
        self.obligation("byte index within the input", ok)
        if not ok:
            self.violate(st, "index-past-end", "a byte of the source may be read past the end of the input", span)
            try:
                st.set_inb(*p)
            except Contradiction:
                raise Stop()

    def char_end(self, st, v, last):
        if v[0] == "str":
            if not v[1]:
                return [(st, NONE)]
            return [(st, some(("char", v[1][-1 if last else 0])))]
        if v[0] == "slice":
            n = self.slice_len(v)
            if n == 0:
                return [(st, NONE)]
            if n is not None and n > 0:
                if last:
                    return [(st, some(("lastchar", v[1][0], v[1][1] + n - 1)))]
                return [(st, some(("charfull", v[1][0], v[1][1])))]
            if n is None:
                # open or symbolic end
                l = self.length(st, v)
                lo = st.lower(l) if is_int(l) else None
                val = ("charfull", *v[1]) if not last else (("lastchar", v[2][0], v[2][1] - 1) if v[2] != LEN else None)
                res = []
                if v[2] == LEN:
                    for truth in (True, False):
                        s2 = st.copy()
                        try:
                            s2.assume(("gelen", *v[1]), truth)
                            res.append((s2, NONE if truth else some(val or TOP)))
                        except Contradiction:
                            pass
                    return res
                if lo is not None and lo > 0:
                    return [(st, some(val))]
                return [(st.copy(), NONE), (st, some(val))]
        if v[0] == "src":
            return [(st.copy(), NONE), (st, some(TOP))]
        return [(st.copy(), NONE), (st, some(TOP))]

    def arr_contains(self, st, arr, x):
        if x[0] == "char":
            els = [self.strip(st, e) for e in arr[1]]
            if all(e[0] == "char" for e in els):
                return ("bool", any(e[1] == x[1] for e in els))
            return self.fresh()
        if x[0] in ("charat", "lastchar", "charfull"):
            els = [self.strip(st, e) for e in arr[1]]
            if all(e[0] == "char" for e in els):
                cs = frozenset(e[1] for e in els if ord(e[1]) < 128)
                other = [e for e in els if 128 <= ord(e[1]) and (x[0] != "charat" or ord(e[1]) < 256)]
                if other:
                    return self.fresh()
                return cond(("cin", x[1], x[2], cs))
            return self.fresh()
        els = [self.strip(st, e) for e in arr[1]]
        if x[0] == "str" and all(e[0] == "str" for e in els):
            return ("bool", any(e[1] == x[1] for e in els))
        if x[0] == "slice":
            alts = [self.elems(st, e) for e in els]
            if all(a is not None for a in alts):
                return self.slice_is(st, x, alts)
        return self.fresh()

    def starts(self, st, sl, pat, name):
        e = None
        if pat[0] == "char":
            e = [frozenset(pat[1])]
        else:
            e = self.elems(st, pat)
        if e is None or not all(ord(c) < 128 for s in e for c in s) or not e:
            return self.fresh()
        if name == "ends_with":
            if sl[2] == LEN:
                return self.fresh()
            return cond(("ends", sl[1], sl[2], tuple(e)))
        A, off = sl[1]
        n = self.slice_len(sl)
        if n is not None and n < len(e):
            return ("bool", False)
        # positive answer gives byte facts; needs an atom that carries them
        return cond(("seqany", A, off, len(e), (tuple(e),)))

    # ---- exploration ----
    def explore(self, init, stop):
        """run until stop(state) returns a tag; returns list of (tag, state)"""
        out = []
        work = [init]
        while work:
            st = work.pop()
            try:
                while True:
                    tag = stop(st)
                    if tag is not None:
                        out.append((tag, st))
                        break
                    nxt = self.step(st, stop)
                    if not nxt:
                        break
                    st = nxt[0]
                    work.extend(nxt[1:])
            except (Contradiction, Stop):
                pass
        return out

    def step(self, st, stop):
        """execute one basic block; returns successor states"""
        self.steps += 1
        if self.steps > 40000000:
            raise RuntimeError("cursor analysis did not converge")
        fr = st.frames[-1]
        f = fr.fn
        b = fr.block
        loops = self.fn_loops(f)
        if b in loops and not self.is_active(st, fr, b):
            return self.loop(st, fr, b, loops[b])
        blk = f.blocks[b]
        for s in blk["s"]:
            if s["s"] == "assign":
                self.assign(st, s)
        t = blk["t"]
        k = t["t"]
        if k == "goto":
            return [self.goto(st, t["to"])]
        if k == "drop":
            return [self.goto(st, t["to"])]
        if k == "return":
            v = st.store.get((fr.id, 0), TOP)
            for key in [k2 for k2 in st.store if isinstance(k2, tuple) and k2[0] == fr.id]:
                # values referring to this frame may still be referenced by the returned value
                if not self.refers(v, fr.id):
                    del st.store[key]
            st.frames = st.frames[:-1]
            if not st.frames:
                st.store["RET"] = v
                return [st]
            if fr.to is None:
                return []
            r = self.resolve(st, fr.dest)
            if r is not None:
                self.store_checked(st, r[0], r[1], v, fr.callspan)
            return [self.goto(st, fr.to)]
        if k == "unreachable" or k == "resume":
            return []
        if k == "assert":
            return self.do_assert(st, t)
        if k == "switch":
            return self.switch(st, t)
        if k == "call":
            return self.call(st, t)
        self.note(f"terminator {k}")
        return []

    def refers(self, v, fid):
        if v[0] == "ref":
            return isinstance(v[1], tuple) and v[1][0] == fid
        if v[0] == "adt":
            return any(self.refers(x, fid) for x in v[3].values())
        if v[0] in ("tuple", "arr"):
            return any(self.refers(x, fid) for x in v[1])
        return False

    def goto(self, st, b):
        st.frames = st.frames[:-1] + (st.frames[-1].at(b),)
        return st

    def do_assert(self, st, t):
        v = self.operand(st, t["cond"])
        want = t["expected"]
        if v[0] == "bool":
            ok = v[1] == want
        elif v[0] == "cond" and v[1][0] == "underflow":
            ok = False
        elif v[0] == "cond":
            d = st.decide(v[1])
            ok = None if d is None else ((d == v[2]) == want)
        else:
            ok = None
        kind = t["kind"]
        if kind == "bounds":
            self.obligation("byte index within the input", ok is True)
        elif kind.startswith("overflow:Sub"):
            self.obligation("subtractions do not underflow", ok is True)
        if ok is True:
            return [self.goto(st, t["to"])]
        if kind == "bounds" and v[0] == "cond":
            self.violate(st, "index-past-end", "a byte of the source may be read past the end of the input", t["span"])
            if ok is False:
                return []
            st.assume(v[1], v[2] == want)
        elif kind.startswith("overflow:Sub") and v[0] == "cond" and v[1][0] == "underflow":
            self.violate(st, "underflow", "a position may be computed below zero", t["span"])
        elif kind == "bounds":
            self.note(f"bounds check on an unmodelled value in {st.frames[-1].fn.short}")
        return [self.goto(st, t["to"])]

    def switch(self, st, t):
        v = self.strip(st, self.operand(st, t["op"]))
        vals, els = t["vals"], t["else"]
        if v[0] == "bool":
            n = 1 if v[1] else 0
            for x, b in vals:
                if x == n:
                    return [self.goto(st, b)]
            return [self.goto(st, els)]
        if v[0] == "cond":
            res = []
            for truth in (True, False):
                n = 1 if truth else 0
                b = els
                for x, bb in vals:
                    if x == n:
                        b = bb
                s2 = st.copy()
                try:
                    s2.assume(v[1], v[2] == truth)
                except Contradiction:
                    continue
                res.append(self.goto(s2, b))
            return res
        if v[0] in ("charat", "charfull"):
            res = []
            seen = set()
            by = {}
            for x, b in vals:
                by.setdefault(b, set()).add(chr(x))
                seen.add(chr(x))
            for b, cs in by.items():
                s2 = st.copy()
                try:
                    asc = frozenset(c for c in cs if ord(c) < 128)
                    if asc != frozenset(cs):
                        pass
                    else:
                        s2.assume(("cin", v[1], v[2], asc), True)
                except Contradiction:
                    continue
                res.append(self.goto(s2, b))
            s2 = st.copy()
            try:
                asc = frozenset(c for c in seen if ord(c) < 128)
                if asc:
                    s2.assume(("cin", v[1], v[2], asc), False)
                res.append(self.goto(s2, els))
            except Contradiction:
                pass
            return res
        if v[0] == "char":
            for x, b in vals:
                if chr(x) == v[1]:
                    return [self.goto(st, b)]
            return [self.goto(st, els)]
        if is_int(v) and not v[1]:
            for x, b in vals:
                if x == v[2]:
                    return [self.goto(st, b)]
            return [self.goto(st, els)]
        if is_int(v):
            res = []
            lo = st.lower(v)
            one = len(v[1]) == 1 and v[1][0][1] == 1
            for x, b in vals:
                if lo is not None and x < lo:
                    continue
                s2 = st.copy()
                s2.unk[("val", v[1])] = x - v[2]
                if x == v[2] and one:
                    try:
                        s2.assume(("poszero", v[1][0][0], 0), True)
                    except Contradiction:
                        continue
                res.append(self.goto(s2, b))
            s2 = st.copy()
            if one and any(x == v[2] for x, _b in vals):
                try:
                    s2.assume(("poszero", v[1][0][0], 0), False)
                except Contradiction:
                    return res
            res.append(self.goto(s2, els))
            return res
        res = []
        for b in sorted({b for _x, b in vals} | {els}):
            if self.prog and st.frames[-1].fn.blocks[b]["t"]["t"] == "unreachable" and not st.frames[-1].fn.blocks[b]["s"]:
                continue
            res.append(self.goto(st.copy(), b))
        return res

    # ---- loops ----
    def fn_loops(self, f):
        if not hasattr(f, "_loops"):
            f._loops = f.loops()
        return f._loops

    def is_active(self, st, fr, b):
        return st.store.get("LOOPS", ()) and (fr.id, b) in st.store["LOOPS"]

    def loop(self, st, fr, head, body):
        """replace the loop by invariants; returns the states that leave it"""
        depth = len(st.frames)
        fid = fr.id
        key = (fid, head)

        def body_run(s):
            s.store["LOOPS"] = tuple(s.store.get("LOOPS", ())) + (key,)
            first = [True]

            def stop(x):
                d = len(x.frames)
                if d < depth:
                    return "exit"
                if d == depth and x.frames[-1].id == fid:
                    b = x.frames[-1].block
                    if b == head:
                        if first[0]:
                            first[0] = False
                            return None
                        return "back"
                    if b not in body:
                        return "exit"
                return None
            res = self.explore(s, stop)
            for _t, x in res:
                x.store["LOOPS"] = tuple(y for y in x.store.get("LOOPS", ()) if y != key)
            return res

        # deterministic iterations are simply followed
        cur = st
        saved = self.report
        for _ in range(MAXUNROLL):
            self.report = False
            res = body_run(cur.copy())
            self.report = saved
            backs = [x for tg, x in res if tg == "back"]
            exits = [x for tg, x in res if tg == "exit"]
            if not backs:
                res = body_run(cur.copy())          # again, with reporting
                return [x for tg, x in res if tg == "exit"]
            if len(backs) == 1 and not exits and self.advances(cur, backs[0]):
                res = body_run(cur.copy())
                cur = [x for tg, x in res if tg == "back"][0]
                continue
            break
        outs = self.unrolled(cur, body_run)
        if outs is not None:
            return outs
        # widen
        self.report = False
        widened = {}      # leaf (root, path) -> dict(sym, cands, init)
        try:
            for rnd in range(40):
                h = cur.copy()
                h.log = cur.log
                for leaf, w in widened.items():
                    self.havoc(h, leaf, w)
                res = body_run(h.copy())
                changed = False
                old = list(widened.items())
                for tg, x in res:
                    if tg != "back":
                        continue
                    for leaf in self.diff(h, x):
                        if leaf not in widened:
                            widened[leaf] = self.new_widen(cur, leaf)
                            changed = True
                    for leaf, w in old:
                        if self.weaken(h, x, leaf, w):
                            changed = True
                if not changed:
                    break
            else:
                self.note("loop invariants did not stabilise")
        finally:
            self.report = saved
        h = cur.copy()
        for leaf, w in widened.items():
            self.havoc(h, leaf, w)
        mark = len(h.log)
        res = body_run(h.copy())
        # termination: every way back to the head makes progress
        if self.report:
            k2 = f"{fr.fn.short}"
            self.loops_seen[k2] = self.loops_seen.get(k2, 0) + 1
        sig = []
        pure = True
        for tg, x in res:
            if tg == "back":
                why = self.progress(h, x, fr.fn, body, mark)
                self.obligation("loops make progress on every iteration", why is None)
                if why:
                    self.violate(h, "loop-no-progress", f"a loop may go round without consuming input ({why})",
                                 fr.fn.blocks[head]["t"]["span"])
        curleaf = ("SELF", (("f", self.roles["current"]),))
        if set(w for w in widened if not (isinstance(w[0], tuple) and w[0][0] == fid)) <= {curleaf} and curleaf in widened:
            H = widened[curleaf]["sym"]
            for tg, x in res:
                ents = []
                for c, tr in x.log[mark:]:
                    if len(c) > 2 and c[1] == H:
                        ents.append((c[0],) + tuple(c[2:]) + (tr,))
                    else:
                        pure = False
                sig.append((tg, frozenset(ents)))
            if pure:
                init = self.pos(cur, self.read(cur, *curleaf))
                mk = (frozenset(sig), init)
                outs = []
                for tg, x in res:
                    if tg != "exit":
                        continue
                    if mk in x.memo:
                        B = x.memo[mk]
                        try:
                            self.unify(x, H, B)
                            outs.append(x)
                        except Contradiction:
                            pass
                    else:
                        x.memo[mk] = H
                        outs.append(x)
                return outs
        return [x for tg, x in res if tg == "exit"]

    def unrolled(self, cur, body_run):
        """the states behind a loop that looks at a fixed number of places and leaves the cursor alone, or None"""
        saved = self.report
        outs, todo, rounds = [], [cur], []
        for rnd in range(10):
            rounds.append(todo)
            nxt = []
            self.report = False
            try:
                for s in todo:
                    for tg, x in body_run(s.copy()):
                        if tg == "exit":
                            outs.append(x)
                        elif x.store["SELF"] != cur.store["SELF"]:
                            return None
                        else:
                            nxt.append(x)
            finally:
                self.report = saved
            if len(nxt) > 2 or rnd == 0 and not any(self.counts(cur, x) for x in nxt):
                return None
            if not nxt:
                break
            todo = nxt
        else:
            return None
        if saved:
            outs = [x for todo in rounds for s in todo for tg, x in body_run(s.copy()) if tg == "exit"]
        return outs

    def counts(self, a, b):
        """a range with a fixed distance between its ends has become shorter"""
        def widths(st):
            return {root: self.width(st, v) for root, v in st.store.items() if isinstance(v, tuple) and v and v[0] == "adt" and self.width(st, v) is not None}
        wa, wb = widths(a), widths(b)
        return any(r in wb and wb[r] < n for r, n in wa.items())

    def width(self, st, v):
        d = v[3]
        if len(d) == 2 and all(is_int(x) for x in d.values()):
            a, b = (d[k] for k in sorted(d, key=str))
            n = lin_add(b, a, -1)
            if not n[1]:
                return n[2]
        return None

    def advances(self, a, b):
        va = a.store["SELF"][3][self.roles["current"]]
        vb = b.store["SELF"][3][self.roles["current"]]
        if va == vb:
            return False
        lo = b.lower(lin_add(vb, va, -1)) if is_int(va) and is_int(vb) else None
        return lo is not None and lo > 0

    def leaves(self, v, path=()):
        if v[0] == "adt":
            for k, x in v[3].items():
                yield from self.leaves(x, path + (("f", k),))
            if not v[3]:
                yield path, v
        elif v[0] == "tuple":
            for k, x in enumerate(v[1]):
                yield from self.leaves(x, path + (("f", k),))
        else:
            yield path, v

    def diff(self, a, b):
        """leaves of state a that differ in state b (only roots alive in a)"""
        out = []
        for root, va in a.store.items():
            if root in ("LOOPS", "RET") or (isinstance(root, tuple) and root and root[0] == "promo"):
                continue
            vb = b.store.get(root, TOP)
            if va == vb:
                continue
            if va[0] in ("adt", "tuple") and vb[0] == va[0] and va[0] == "tuple" or (va[0] == "adt" == vb[0] and va[1:3] == vb[1:3]):
                la = dict(self.leaves(va))
                lb_ = dict(self.leaves(vb))
                if set(la) == set(lb_):
                    for p in la:
                        if la[p] != lb_[p]:
                            out.append((root, p))
                    continue
            out.append((root, ()))
        for root in b.store:
            if root not in a.store and root not in ("LOOPS", "RET"):
                pass
        return out

    def new_widen(self, cur, leaf):
        v = self.read(cur, *leaf)
        w = {"sym": None, "init": v}
        if is_int(v):
            w["sym"] = f"P{next(self.ids)}"
            p = self.pos(cur, v)
            w["lb"] = p if p and p[0] != "Z" else (("Z", p[1]) if p else None)
            w["le"] = bool(p) and cur.q_le(*p)
            w["bnd"] = bool(p) and cur.q_bnd(*p) is True
            w["nl"] = cur.nlcount(*p) if p else None
            w["line"] = None
        return w

    def havoc(self, st, leaf, w):
        if w["sym"] is None:
            self.write(st, leaf[0], leaf[1], TOP)
            return
        s = w["sym"]
        st.lbz[s] = 0
        if w["lb"]:
            A, k = w["lb"]
            if A == "Z":
                st.lbz[s] = max(k, 0)
            else:
                st.lb[s] = (A, k)
        if w["le"]:
            st.le[s] = 0
        if w["bnd"]:
            st.bnd[(s, 0)] = True
        st.nl[s] = w["nl"]
        self.write(st, leaf[0], leaf[1], ("int", ((s, 1),), 0))

    def weaken(self, h, x, leaf, w):
        """drop candidate facts that do not hold again at the back edge"""
        if w["sym"] is None:
            return False
        v = self.read(x, *leaf)
        ch = False
        if not is_int(v):
            w["sym"] = None
            return True
        p = self.pos(x, v)
        s = w["sym"]
        if w["lb"]:
            lo = x.lower(lin_add(v, ("int", ((s, 1),), 0), -1)) if v != ("int", ((s, 1),), 0) else 0
            if lo is None or lo < 0:
                w["lb"] = None
                ch = True
        if w["le"] and not (p and x.q_le(*p)):
            w["le"] = False
            ch = True
        if w["bnd"] and not (p and x.q_bnd(*p) is True):
            w["bnd"] = False
            ch = True
        if w["nl"] is not None and not (p and x.nlcount(*p) == w["nl"]):
            w["nl"] = None
            ch = True
        return ch

    def progress(self, h, x, f, body, mark):
        ca = h.store["SELF"][3][self.roles["current"]]
        cb = x.store["SELF"][3][self.roles["current"]]
        if is_int(ca) and is_int(cb):
            lo = x.lower(lin_add(cb, ca, -1)) if ca != cb else 0
            p = self.pos(x, ca)
            if lo is not None and lo > 0:
                if p and x.q_inb(*p):
                    return None
                return "the cursor moves although it may already be at the end of the input"
        # a look-ahead counter that is bounded by the input
        for root, va in h.store.items():
            if isinstance(root, tuple) and is_int(va) and len(va[1]) == 1:
                vb = x.store.get(root, TOP)
                if is_int(vb) and vb != va:
                    lo = x.lower(lin_add(vb, va, -1))
                    s = va[1][0][0]
                    if lo is not None and lo > 0:
                        for kk, d in x.derived.items():
                            if s in dict(kk) and (x.q_inb(d, 0) or x.q_le(d, 0) or any(
                                    a == d for a, _o in list(x.ch)) or d in x.le or d in x.inb):
                                return None
                        # counts up to a constant
                        for c, tr in x.log[mark:]:
                            if c[0] == "unk":
                                pass
        # iterator loops over a finite collection
        for b in body:
            t = f.blocks[b]["t"]
            if t["t"] == "call":
                c = callee(t)
                if c and c["name"] in ("next", "next_back", "pop", "pop_front") and not (self.prog.fns.get(c["path"])):
                    return None
        return "the cursor does not move"

    def unify(self, st, H, B):
        """H and B denote the same position"""
        for (A, o), f in list(st.ch.items()):
            if A == H:
                i, n, t = f
                if i is not None:
                    st.add_char(B, o, ins=i)
                if n:
                    st.add_char(B, o, notin=n)
                for tg in t:
                    st.add_char(B, o, tag=tg)
        for (A, o), b in list(st.bnd.items()):
            if A == H:
                q = st.q_bnd(B, o)
                if q is not None and q != b:
                    raise Contradiction()
                st.bnd[(B, o)] = b
        if H in st.inb:
            st.set_inb(B, st.inb[H])
        if H in st.le:
            st.set_le(B, st.le[H])
        if H in st.end:
            st.set_end(B, st.end[H])

        def ren(v):
            if is_int(v):
                return ("int", tuple(sorted((B if s == H else s, c) for s, c in v[1])), v[2])
            if v[0] in ("charat", "charfull", "lastchar"):
                return (v[0], B if v[1] == H else v[1], v[2])
            if v[0] == "adt":
                return ("adt", v[1], v[2], {k: ren(y) for k, y in v[3].items()})
            if v[0] == "tuple":
                return ("tuple", tuple(ren(y) for y in v[1]))
            if v[0] in ("slice", "bslice"):
                f = lambda p: (B, p[1]) if isinstance(p, tuple) and p[0] == H else p
                return (v[0], f(v[1]), f(v[2]))
            return v
        for r in list(st.store):
            if r != "LOOPS":
                st.store[r] = ren(st.store[r])


# ---- driver: one token ----------------------------------------------------------------------
def scanner_next(prog):
    """the Iterator::next whose item is a Result<Token, _>"""
    for f in prog.bodies():
        if f.name == "next" and f.trait == "std::iter::Iterator" and f.krate == "lib":
            r = f.lty(0)
            if r.k == "adt" and r.arg(0) is not None and "scanner::tokens::Token" in r.arg(0).s:
                return f
    return None


def roles_of(prog, nxt):
    sty = nxt.lty(1).arg(0)
    fields = [n for n, _t in prog.adt_fields(sty.defpath)]
    r = {n: i for i, n in enumerate(fields)}
    return sty.defpath, r


def analyse(prog, rep):
    if hasattr(prog, "_cursor"):
        return prog._cursor
    nxt = scanner_next(prog)
    if nxt is None:
        return None
    eng = Engine(prog, rep)
    sdef, r = roles_of(prog, nxt)
    eng.roles = r
    eng.nxt = nxt
    eng.sdef = sdef
    need = ("source", "start", "startcol", "current", "line")
    if any(n not in r for n in need):
        eng.missing = [n for n in need if n not in r]
        prog._cursor = eng
        return eng
    eng.missing = []
    st = St()
    f = {}
    for n, i in r.items():
        f[i] = TOP
    ftys = prog.adt_fields(sdef)
    for i, (n, t) in enumerate(ftys):
        if t is not None and t.k == "bool":
            f[i] = cond(("unk", "flag:" + n))
    f[r["source"]] = ("src",)
    f[r["current"]] = ("int", (("T", 1),), 0)
    f[r["start"]] = ("int", (("S0", 1),), 0)
    f[r["line"]] = ("int", (("L", 1),), 0)
    f[r["startcol"]] = ("int", (("C", 1),), 0)
    st.store["SELF"] = ("adt", sdef, 0, f)
    st.le["T"] = 0
    st.bnd[("T", 0)] = True
    st.nl["T"] = 0
    st.lbz.update({"L": 1, "C": 1, "T": 0, "S0": 0})
    fid = next(eng.ids)
    st.store[(fid, 1)] = ("ref", "SELF", ())
    st.frames = (Frame(nxt, fid, 0, None, None),)
    eng.fns_seen.add(nxt.path)

    def stop(s):
        return "ret" if not s.frames else None
    eng.finals = [s for _t, s in eng.explore(st, stop)]
    eng.paths = len(eng.finals)
    prog._cursor = eng
    return eng
