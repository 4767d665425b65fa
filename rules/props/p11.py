"""P11: same input, same output - no dependence on hash order, clock, randomness, addresses or on
documents converted earlier in the same process."""
from mir import callee, short, loc
import effects
from flow import uses, op_place

HASH = ("std::collections::HashMap", "std::collections::HashSet")
ORDERED_SINKS = ("std::collections::BTreeMap", "std::collections::BTreeSet", "std::collections::HashMap",
                 "std::collections::HashSet", "std::collections::BinaryHeap")
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain",
         "retain", "extract_if", "difference", "union", "intersection", "symmetric_difference"}
ADAPT = {"map", "filter", "cloned", "copied", "filter_map", "inspect", "into_iter", "by_ref", "flat_map", "flatten"}
TERM_OK = {"count", "all", "any", "sum", "product", "max", "min", "len", "is_empty", "size_hint"}
LOOP_OK = {"next", "get", "get_mut", "insert", "contains_key", "entry", "or_insert", "or_insert_with", "or_default",
           "to_string", "to_owned", "clone", "deref", "deref_mut", "eq", "ne", "as_str", "into", "from", "is_empty",
           "len", "as_ref", "cmp", "partial_cmp", "into_iter", "remove", "contains", "starts_with", "ends_with"}
CELL_MUT = {"store", "swap", "fetch_add", "fetch_sub", "fetch_or", "fetch_and", "fetch_xor", "fetch_max", "fetch_min",
            "fetch_update", "compare_exchange", "compare_exchange_weak", "set", "replace", "take", "deref_mut", "borrow_mut",
            "get_mut", "write", "try_borrow_mut"}


def peel(t):
    while t is not None and t.k == "ref":
        t = t.arg(0)
    return t


def contains_hash(t, depth=0):
    if t is None or depth > 6:
        return False
    if t.k == "adt" and t.defpath in HASH:
        return True
    if t.k in ("ref", "slice", "array", "tuple") or (t.k == "adt" and t.defpath.startswith(("std::", "alloc::", "core::"))):
        return any(contains_hash(a, depth + 1) for a in t.argl())
    return False


def adt_contains_hash(prog, t, seen=None):
    """does a crate type hold a hash container anywhere (for derived Debug printing)?"""
    seen = seen or set()
    if t is None:
        return False
    if contains_hash(t):
        return True
    if t.k == "adt" and t.defpath in prog.adts and prog.adts[t.defpath]["local"]:
        if t.defpath in seen:
            return False
        seen.add(t.defpath)
        for vi in range(len(prog.adts[t.defpath]["variants"])):
            for _n, ft in prog.adt_fields(t.defpath, vi):
                if adt_contains_hash(prog, ft, seen):
                    return True
    return any(adt_contains_hash(prog, a, seen) for a in t.argl())


def sorted_first(f, l, u):
    """is the sequence in `l` sorted (through a mutable borrow of it) before any other use?"""
    sorts, others = [], []
    work, seen = [l], set()
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        for k, b, si, o in u.get(x, []):
            if si != "term":
                if k in ("mutref", "move", "copy"):
                    work.append(o["place"]["l"])
                elif k in ("ref", "read"):
                    others.append(b)
                continue
            c = callee(o) if o["t"] == "call" else None
            if k != "callarg" or not c:
                continue
            if c["name"].startswith("sort"):
                sorts.append(b)
            elif c["name"] in ("deref_mut", "as_mut_slice", "borrow_mut"):
                work.append(o["dest"]["l"])
            else:
                others.append(b)
    return any(all(f.dominates(s, b) for b in others) for s in sorts)


def check_iteration(f, bi, t, u):
    """is the order in which this iterator yields observable? returns None if not, else a reason"""
    c = callee(t)
    if c["name"] == "retain":
        return None
    l = t["dest"]["l"]
    for _ in range(12):
        ty = f.lty(l)
        nxt = None
        us = [x for x in u.get(l, []) if x[0] in ("callarg", "move", "mutref", "copy")]
        for k, b2, si, o in us:
            if si == "term" and k == "callarg":
                c2 = callee(o)
                n = c2["name"] if c2 else "?"
                if n in TERM_OK:
                    return None
                if n in ("collect", "from_iter"):
                    d = f.crate["types"][o["dty"]]
                    if d.k == "adt" and d.defpath in ORDERED_SINKS:
                        return None
                    # collected into a sequence that is then sorted
                    if sorted_first(f, o["dest"]["l"], u):
                        return None
                    return f"collected into {d.s}"
                if n == "extend":
                    d = peel(f.crate["types"][o["atys"][0]])
                    if d is not None and d.k == "adt" and d.defpath in ORDERED_SINKS:
                        return None
                    return "used to extend a sequence"
                if n in ADAPT:
                    nxt = o["dest"]["l"]
                    break
                return f"passed to {n}"
            if si != "term" and k in ("move", "copy") and not o["place"]["p"]:
                nxt = o["place"]["l"]
                break
            if k == "mutref":
                # a consumer that takes &mut self
                if any(k3 == "callarg" and s3 == "term" and callee(o3) and callee(o3)["name"] in TERM_OK
                       for k3, b3, s3, o3 in u.get(o["place"]["l"], [])):
                    return None
                # for loop: next() on a &mut of the iterator
                for lh, body in f.loops().items():
                    if b2 in body:
                        for b in body:
                            tt = f.blocks[b]["t"]
                            if tt["t"] == "call":
                                c2 = callee(tt)
                                n = c2["name"] if c2 else "?"
                                if n not in LOOP_OK:
                                    return f"loop body calls {short(c2['path']) if c2 else 'a function value'}"
                                if n == "insert" and not (c2["path"].startswith(ORDERED_SINKS)):
                                    return "loop body inserts into a sequence"
                            for s in f.succ(b):
                                if s not in body and f.blocks[b]["t"]["t"] != "switch":
                                    return "loop can be left early"
                        return None
                return "advanced by hand"
        if nxt is None:
            return None if not us else "used in an unknown way"
        l = nxt
    return "long chain"


def run(prog, rep):
    rep.rule("Every iteration over a hash map or hash set must feed an order-insensitive consumer; no hash "
             "container is serialised or debug-printed into output; no clock, randomness, thread, address "
             "or environment value is reachable from the library; no static is mutated after initialisation.")
    for f in prog.bodies():
        u = None
        for bi, t in f.calls():
            c = callee(t)
            if not c:
                continue
            atys = [f.crate["types"][a] for a in t["atys"]]
            sp = short(c["path"])
            if f.derived and not (f.trait or "").endswith("Serialize"):
                continue
            if atys and contains_hash(atys[0]) and peel(atys[0]) is not None and peel(atys[0]).k == "adt" \
                    and peel(atys[0]).defpath in HASH:
                rep.count("hash_container_calls")
                if c["name"] in ITERS:
                    rep.count("hash_iterations")
                    u = u or uses(f)
                    why = check_iteration(f, bi, t, u)
                    rep.sample(f"{f.short}: {c['name']} -> {why or 'order-insensitive'}")
                    if why:
                        rep.violate(f"hash-order:{f.short}:{c['name']}", "hash-order", loc(t["span"]),
                                    f"{f.short} iterates a hash container and the order is observable: {why}")
            # extend(seq, map)
            if c["name"] == "extend" and len(atys) > 1 and contains_hash(atys[1]):
                d = peel(atys[0])
                rep.count("hash_extends")
                if not (d is not None and d.k == "adt" and d.defpath in ORDERED_SINKS):
                    rep.violate(f"hash-order:{f.short}:extend", "hash-order", loc(t["span"]),
                                f"{f.short} extends a sequence from a hash container")
            # serialisation
            if c["name"] in ("serialize_field", "serialize_element", "serialize_value", "serialize_entry", "serialize",
                             "serialize_some", "serialize_newtype_struct", "serialize_newtype_variant", "collect_map",
                             "collect_seq", "from_serialize", "to_value", "to_string", "to_string_pretty") and \
                    ("serde" in c["path"] or "tera" in c["path"]):
                rep.count("serialisation_calls")
                for a in atys:
                    if contains_hash(a) and not a.s.startswith("&asciidocr"):
                        fld = ""
                        for o in t["args"]:
                            k = o.get("const")
                            if k and "str" in k:
                                fld = k["str"]
                        rep.violate(f"hash-serialised:{f.short}:{fld}", "hash-order", loc(t["span"]),
                                    f"{f.short} serialises a hash container ({a.s}) directly; its order differs from run to run")
            # debug printing of hash containers outside logging
            if c["name"] in ("new_debug", "new_pointer", "new_pointer_addr"):
                inlog = any("log" in m or m in ("warn", "error", "info", "debug", "trace", "panic", "todo",
                            "unreachable", "unimplemented", "assert", "assert_eq", "debug_assert") for m in t["span"][2])
                if not inlog and not f.derived:
                    for a in atys:
                        if adt_contains_hash(prog, a):
                            rep.violate(f"hash-debug:{f.short}", "hash-order", loc(t["span"]),
                                        f"{f.short} debug-prints a value containing a hash container")
                    if c["name"] != "new_debug":
                        rep.violate(f"address:{f.short}", "address-dependence", loc(t["span"]),
                                    f"{f.short} formats an address")
        for bi, si, s in f.stmts():
            if s["s"] == "assign" and s["rv"]["r"] == "cast" and "Expose" in str(s["rv"].get("kind", "")):
                rep.violate(f"address:{f.short}", "address-dependence", loc(s["span"]), f"{f.short} uses an address as a number")
    # clock, randomness, ...
    BAD = {"time", "random", "thread", "spawn", "net", "env-write"}
    for f in prog.bodies():
        bad = BAD | ({"env-read"} if f.krate == "lib" else set())
        for c, info, bi, o in prog.callgraph().get(f.path, []):
            e = effects.prim(c)
            if e in bad:
                rep.violate(f"source:{f.short}:{e}", "nondeterministic-source", loc(o["span"]),
                            f"{f.short} uses {short(c)} ({e})")
            if short(c).startswith(("std::hash::RandomState", "std::collections::hash_map::RandomState",
                                    "std::ptr::addr", "std::alloc::")) and not f.derived:
                rep.violate(f"source:{f.short}:hasher", "nondeterministic-source", loc(o["span"]), f"{f.short} uses {short(c)}")
    # statics
    for s in prog.statics:
        rep.count("statics")
    names = {s["path"] for s in prog.statics}
    for f in prog.bodies():
        if f.kind not in ("fn", "closure"):
            continue
        mention = set()
        for bi, b in enumerate(f.blocks):
            for st in b["s"]:
                if st["s"] == "assign":
                    from mir import rv_operands
                    for op in rv_operands(st["rv"]):
                        k = op.get("const")
                        if k and "static" in k:
                            mention.add(k["static"])
        # initialiser closures of lazies are named after the static and run once
        if not mention:
            continue
        rep.count("functions_using_statics")
        for bi, t in f.calls():
            c = callee(t)
            if c and c["name"] in CELL_MUT and t["atys"]:
                s = peel(f.crate["types"][t["atys"][0]])
                if s is not None and any(x in s.s for x in ("MutexGuard", "RwLockWriteGuard", "Atomic", "RefCell", "Cell<", "OnceCell",
                                                          "OnceLock", "RefMut", "Mutex<", "RwLock<")):
                    rep.violate(f"static-mutated:{f.short}:{sorted(mention)[0]}", "state-across-documents", loc(t["span"]),
                                f"{f.short} mutates {sorted(mention)[0]} ({c['name']}), so earlier conversions influence later ones")
    for f in prog.bodies():
        for bi, t in f.calls():
            c = callee(t)
            if c and short(c["path"]).startswith("std::thread::LocalKey") and t["atys"]:
                s = peel(f.crate["types"][t["atys"][0]])
                if s is not None and any(x in s.s for x in ("Cell<", "Mutex<", "RwLock<", "Atomic")):
                    rep.violate(f"thread-local:{f.short}", "state-across-documents", loc(t["span"]),
                                f"{f.short} uses changeable state that lives as long as the thread ({s.s})")
    for s in prog.statics:
        if s.get("thread_local"):
            rep.violate(f"thread-local:{s['path']}", "state-across-documents", "-", f"thread-local {s['path']}")
    rep.floor("hash_container_calls", 30)
    rep.floor("serialisation_calls", 60)
    rep.floor("hash_iterations", 1)
