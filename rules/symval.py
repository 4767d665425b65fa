"""Symbolic results of functions: what a function returns, as an expression over its parameters, for one
variant of an enum parameter at a time.  Constant propagation over the MIR; loops and unknown control flow
give several expressions."""
from mir import callee, short, rv_operands
from flow import op_place

SAME = {"into", "from", "to_string", "to_owned", "clone", "deref", "as_str", "borrow", "must_use", "as_ref", "format", "as_bytes", "unwrap_or_default",
        "cloned", "copied", "into_owned", "into_string", "into_boxed_str", "as_deref", "from_str", "identity"}
TOP = ("?",)


class SymVal:
    def __init__(self, prog, limit=4000):
        self.prog, self.limit = prog, limit

    def returns(self, f, args, depth=0):
        """set of result expressions; args: parameter -> expression.  An expression ('enum', adt, variant name,
        fields) fixes the variant of an enum"""
        out = set()
        seen, n = set(), 0
        stk = [(0, tuple(sorted((p, v) for p, v in args.items())), ())]
        while stk:
            b, env, trail = stk.pop()
            if (b, env) in seen:
                continue
            seen.add((b, env))
            n += 1
            if n > self.limit:
                return {TOP}
            if f.blocks[b]["cleanup"]:
                continue
            e = dict(env)
            for s in f.blocks[b]["s"]:
                if s["s"] == "assign":
                    self.assign(f, e, s["place"], self.rvalue(f, e, s["rv"]))
            t = f.blocks[b]["t"]
            k = t["t"]
            if k == "return":
                out.add(e.get(0, TOP))
                continue
            nxt = f.succ(b)
            if k == "call":
                vals = self.call(f, e, t, depth)
                if t["to"] is None:
                    continue
                for v in vals:
                    e2 = dict(e)
                    self.assign(f, e2, t["dest"], v)
                    stk.append((t["to"], tuple(sorted(e2.items())), ()))
                continue
            if k == "switch":
                p = op_place(t["op"])
                v = self.read(e, p) if p else TOP
                if v[0] == "int":
                    nxt = [next((tg for val, tg in t["vals"] if int(val) == v[1]), t["else"])]
            for x in nxt:
                stk.append((x, tuple(sorted(e.items())), ()))
        return out

    def assign(self, f, e, pl, v):
        if not pl["p"]:
            e[pl["l"]] = v
            return
        # a field of an aggregate that is known
        base = e.get(pl["l"])
        fl = [x for x in pl["p"] if x[0] != "deref"]
        if base and base[0] == "agg" and len(fl) == 1 and fl[0][0] == "field":
            fs = list(base[3])
            for i, (n, _x) in enumerate(fs):
                if n == fl[0][2]:
                    fs[i] = (n, v)
            e[pl["l"]] = base[:3] + (tuple(fs),)
        else:
            e[pl["l"]] = TOP

    def read(self, e, p):
        v = e.get(p["l"], TOP)
        i = 0
        pr = p["p"]
        while i < len(pr):
            x = pr[i]
            if x[0] == "deref":
                pass
            elif x[0] == "downcast":
                if v[0] in ("enum", "agg") and v[2] not in (None, x[2]):
                    return TOP
                if v[0] not in ("enum", "agg"):
                    v = ("as", v, x[2])
            elif x[0] == "field":
                if v[0] == "agg":
                    v = next((y for n, y in v[3] if n == x[2] or n == str(x[1])), TOP)
                elif v[0] == "enum":
                    v = ("field", ("enum",) + v[1:3], x[2] or str(x[1]))
                elif v == TOP:
                    return TOP
                else:
                    v = ("field", v, x[2] or str(x[1]))
            else:
                return TOP
            i += 1
        return v

    def operand(self, f, e, op):
        p = op_place(op)
        if p is not None:
            return self.read(e, p)
        c = op.get("const") or {}
        if "str" in c:
            return ("str", c["str"])
        if "bool" in c:
            return ("int", int(c["bool"]))
        for k in ("int", "uint", "bits"):
            if k in c:
                try:
                    return ("int", int(c[k]))
                except (TypeError, ValueError):
                    return TOP
        if "fn" in c:
            return ("fn", c["fn"]["path"])
        if "promoted" in c:
            g = self.prog.fns.get(c["of"] + "{promoted#%d}" % c["promoted"])
            got = self.returns(g, {}) if g is not None else ()
            if len(got) == 1:
                return next(iter(got))
        return TOP

    def rvalue(self, f, e, rv):
        r = rv["r"]
        if r == "use":
            return self.operand(f, e, rv["op"])
        if r == "ref":
            return self.read(e, rv["place"])
        if r == "cast":
            ops = rv_operands(rv)
            return self.operand(f, e, ops[0]) if ops else TOP
        if r == "discr":
            v = self.read(e, rv["place"])
            if v[0] in ("enum", "agg") and v[1] in self.prog.adts and v[2] is not None:
                for i, x in enumerate(self.prog.adts[v[1]]["variants"]):
                    if x["name"] == v[2]:
                        return ("int", int(x.get("discr", i)))
            return TOP
        if r == "agg":
            ops = [self.operand(f, e, o) for o in rv_operands(rv)]
            names = rv.get("fnames") or [str(i) for i in range(len(ops))]
            if rv.get("agg") in ("adt", "tuple", "array"):
                names = list(names) + [str(i) for i in range(len(names), len(ops))]
                return ("agg", rv.get("def") or rv.get("agg"), rv.get("vname"), tuple(zip(names, ops)))
        return TOP

    def call(self, f, e, t, depth):
        c = callee(t)
        args = [self.operand(f, e, a) for a in t["args"]]
        if not c:
            return [TOP]
        nm = short(c["path"]).rsplit("::", 1)[-1]
        g = self.prog.fns.get(c["path"])
        if g is None and nm in SAME and args:
            return [args[0]]
        if g is None:
            return [("call", short(c["path"]), tuple(args))]
        if depth < 5 and len(args) == g.argc:
            got = self.returns(g, {i + 1: a for i, a in enumerate(args) if a != TOP}, depth + 1)
            if got and len(got) <= 8:
                return sorted(got, key=str)
        return [("call", short(c["path"]), tuple(args))]
