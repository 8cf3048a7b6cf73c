"""Rules that a property has besides agreement with the reference model.

A rule returns (findings, counts): findings are (key, text, location)."""
import os
import re

from ir import succs, tystr


class Ctx:
    def __init__(self, E, pid, scope, tier):
        self.E, self.pid, self.scope, self.tier = E, pid, scope, tier
        self.A, self.B = E.A, E.B


def loc(f, line=None):
    return "%s:%s" % (f.body.file, line or f.body.line)


LIB = ("cubing_core", "cubing", "cubing_macros")


# ------------------------------------------------------------------ facts of a body
def consts_of(fn, body=None):
    """(constant, line) for every constant operand of a body and its promoteds"""
    for b in ([body] if body is not None else [fn.body] + fn.promoted):
        for bl in b.blocks:
            if not bl:
                continue
            st, t, line = bl
            for s in st:
                if s[0] == "=":
                    for o in rv_operands(s[2]):
                        if o[0] == "const":
                            yield o[1], line
            if t[0] == "call":
                for o in (t[1],) + t[2]:
                    if o[0] == "const":
                        yield o[1], line
            elif t[0] in ("switch", "assert") and t[1][0] == "const":
                yield t[1][1], line


def rv_operands(r):
    k = r[0]
    if k == "use":
        return [r[1]]
    if k == "repeat":
        return [r[1]]
    if k == "cast":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "un":
        return [r[2]]
    if k == "agg":
        return list(r[3])
    return []


def fnrefs(fn):
    for c, line in consts_of(fn):
        for k in nested(c):
            if k["ty"][0] == "fndef":
                yield k["ty"][1], line


def nested(c):
    yield c
    if "ref" in c:
        yield from nested(c["ref"])
    for x in c.get("agg", ()):
        yield from nested(x)


def target(r):
    """key of what is called"""
    return r.res[1] if r.res else r.key


# ------------------------------------------------------------------ effects (C26)
EFFECTS = [
    ("input or output", r"^std::(io|fs|net|os|sys|path::\{impl)\b|^std::io::"),
    ("the environment", r"^std::env::"),
    ("processes", r"^std::process::(?!.*Termination)"),
    ("threads", r"^std::thread::"),
    ("the clock", r"^std::time::|^core::time::.*now"),
    ("random numbers", r"^(rand|rand_core|getrandom|fastrand|oorandom)::|::RandomState::new$|^std::hash::random::\{impl#\d+\}::(new|hash_one)"),
    ("console logging", r"^(log|tracing)::"),
    ("mutable shared state", r"^core::sync::atomic::|^std::sync::(poison::)?(mutex|rwlock|condvar|barrier)|^std::sync::(mpsc|mpmc)::"),
]


def effects(ctx):
    """library functions call nothing that has an effect outside of their values"""
    A = ctx.A
    out = []
    n = calls = 0
    for c, f in sorted(A.N.by_cid.items()):
        if f.crate not in LIB:
            continue
        n += 1
        seen = set()
        for r, line in fnrefs(f):
            calls += 1
            k = target(r)
            for ks in {k, r.key}:
                for what, pat in EFFECTS:
                    if re.search(pat, ks) and (what, ks) not in seen:
                        seen.add((what, ks))
                        out.append(("effect:%s:%s" % (c, ks), "%s uses %s (%s)" % (c, what, ks), loc(f, line)))
    return out, {"functions": n, "calls": calls}


ONCE = {"std::sync::once_lock::OnceLock", "std::sync::lazy_lock::LazyLock", "std::sync::poison::once::Once", "std::sync::once::Once"}
STATE = re.compile(r"^(core::sync::atomic::|core::cell::|std::sync::(poison::)?(mutex|rwlock)|std::thread::local|std::sync::(mpsc|mpmc))")


def global_state(ctx):
    """statics are immutable or written once"""
    A = ctx.A
    out = []
    n = 0
    for c, f in sorted(A.N.by_cid.items()):
        if f.crate not in LIB or f.kind not in ("static", "const"):
            continue
        t = f.body.locals[0]
        if f.kind == "static":
            n += 1
            if f.mutstatic:
                out.append(("static:" + c, "%s is a mutable static" % c, loc(f)))
                continue
        bad = [k for k in adt_keys(A.P, t) if STATE.search(k)]
        if bad and (f.kind == "static" or "thread::local" in bad[0]):
            out.append(("static:" + c, "%s is mutable global state (%s)" % (c, ", ".join(sorted(bad))), loc(f)))
    return out, {"statics": n}


def adt_keys(P, t, seen=None, through_once=False):
    """keys of the types a value of type t holds, not looking into write-once cells"""
    if seen is None:
        seen = set()
    if not isinstance(t, tuple) or not t:
        return seen
    k = t[0]
    if k == "adt":
        if t[1] in seen:
            return seen
        seen.add(t[1])
        for a in t[2]:
            adt_keys(P, a, seen)
        a = P.adts.get(t[1])
        if a is not None:
            for v in a.variants:
                for _, ft, _ in v[2]:
                    if ft is not None:
                        adt_keys(P, ft, seen)
    elif k in ("ref", "ptr"):
        adt_keys(P, t[2], seen)
    elif k in ("array", "slice"):
        adt_keys(P, t[1], seen)
    elif k == "tuple":
        for a in t[1]:
            adt_keys(P, a, seen)
    return seen


HASH_ITER = re.compile(r"^(std::collections::hash::(map|set)|hashbrown::(map|set))::.*::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|extract_if)$")
HASH_TY = re.compile(r"^std::collections::hash::(map|set)::(HashMap|HashSet)$")
INTO_ITER = ("core::iter::traits::collect::IntoIterator::into_iter",)


def hash_iteration_sites(side):
    """functions that go through a hash map or set in its own order"""
    out = {}
    for c, f in side.N.by_cid.items():
        if f.crate not in LIB:
            continue
        for r, line in fnrefs(f):
            k = target(r)
            hit = HASH_ITER.search(k) or HASH_ITER.search(r.key)
            if not hit and r.key in INTO_ITER and r.args:
                t = r.args[0]
                while t[0] in ("ref", "ptr"):
                    t = t[2]
                hit = t[0] == "adt" and HASH_TY.search(t[1])
            if hit:
                out.setdefault(side.unit_of[c], line)
    return out


def hash_order(ctx):
    """only the public functions that iterate over a hash map in the reference (where the order cannot be
    observed) do so"""
    A, B = ctx.A, ctx.B

    def reach(side):
        sites = hash_iteration_sites(side)
        roots = {}
        import equiv
        for u in side.members:
            f = side.fn(u)
            if f.crate in LIB and equiv.is_root(f, u) and not f.derived:
                for x in side.closure([u]):
                    if x in sites:
                        roots[u] = (x, sites[x])
        return sites, roots
    sa, ra = reach(A)
    sb, rb = reach(B)
    out = []
    for u, (x, line) in sorted(ra.items()):
        if u not in rb and u in B.members:
            out.append(("hash-order:" + u, "%s goes through a hash map in its arbitrary order (in %s)" % (u, x), loc(A.fn(x), line)))
    return out, {"iteration_sites": len(sa), "public_functions": len(ra)}


# ------------------------------------------------------------------ threads (C27)
UNSYNC = re.compile(r"^(core::cell::(?!once::OnceCell$).*|core::cell::once::OnceCell|alloc::rc::.*|alloc::rcs::rc::.*)$")
SYNCED = re.compile(r"^(std::sync::|alloc::sync::|alloc::rcs::arc::|core::sync::)")


def thread_safe_types(ctx):
    """every public type is Send and Sync, and no unsynchronised interior mutability is inside one"""
    A, B = ctx.A, ctx.B
    out = []
    n = 0
    for a in sorted(A.P.adts.values(), key=lambda a: a.key):
        if a.crate not in ("cubing_core", "cubing") or not a.share or a.key.split("::")[0] not in ("cubing_core", "cubing"):
            continue
        if not a.share["reachable"]:
            continue
        n += 1
        nm = A.N.ckey(a.key)
        for tr in ("send", "sync"):
            if a.share[tr] is False:
                out.append(("%s:%s" % (tr, nm), "%s is not %s" % (nm, tr.capitalize()), a.path))
        hit = unsync_field(A.P, a, set())
        if hit:
            out.append(("interior:" + nm, "%s holds %s, which is not synchronised, in %s" % ((nm,) + hit), a.path))
    return out, {"public_types": n}


def unsync_field(P, a, seen):
    if a.key in seen:
        return None
    seen.add(a.key)
    for v in a.variants:
        for name, t, _ in v[2]:
            if t is None:
                continue
            for k in holds(t):
                if UNSYNC.search(k):
                    return (k, "%s.%s" % (a.path, name))
                b = P.adts.get(k)
                if b is not None and b.share is not None:
                    r = unsync_field(P, b, seen)
                    if r:
                        return r
    return None


def holds(t):
    """the types inside t, not looking behind a lock"""
    k = t[0]
    if k == "adt":
        yield t[1]
        if re.search(r"^std::sync::(poison::)?(mutex|rwlock)", t[1]):
            return
        for a in t[2]:
            if isinstance(a, tuple):
                yield from holds(a)
    elif k in ("ref", "ptr"):
        yield from holds(t[2])
    elif k in ("array", "slice"):
        yield from holds(t[1])
    elif k == "tuple":
        for a in t[1]:
            yield from holds(a)


PTR_WRITE0 = re.compile(r"::(write|write_volatile|write_unaligned|write_bytes|swap|replace|drop_in_place|copy_from|copy_from_nonoverlapping)$")
PTR_COPY = re.compile(r"^core::(ptr|intrinsics)::(copy|copy_nonoverlapping)$")


class PtrFlow:
    """which arguments' memory a function writes through raw pointers, and which arguments the pointers it returns
    come from"""

    def __init__(self, side):
        self.side = side
        self.sum = {}
        fs = [f for f in side.N.by_cid.values() if f.kind in ("fn", "method", "closure")]
        for f in fs:
            self.sum[f.key] = (frozenset(), frozenset())
        ch = True
        while ch:
            ch = False
            for f in fs:
                s = self.one(f)
                if s != self.sum[f.key]:
                    self.sum[f.key] = s
                    ch = True

    def one(self, f):
        b = f.body
        org = [set() for _ in b.locals]
        for i in range(1, b.argc + 1):
            org[i].add(i - 1)
        writes = set()
        ch = True

        def pointerish(t, d=0):
            if t is None or d > 6:
                return True
            if t[0] in ("ref", "ptr"):
                return True
            if t[0] == "adt":
                a = self.side.P.adts.get(t[1])
                if any(isinstance(x, tuple) and pointerish(x, d + 1) for x in t[2]):
                    return True
                return t[1].endswith("::NonNull") or (t[1].startswith("cubing") and a is not None and any(
                    ft is not None and ft[0] in ("ref", "ptr") for v in a.variants for _, ft, _ in v[2]))
            if t[0] == "tuple":
                return any(pointerish(x, d + 1) for x in t[1])
            return t[0] in ("closure", "param", "alias", "array", "slice")

        def base(p):
            return org[p[0]]

        def add(l, s):
            nonlocal ch
            if not s <= org[l]:
                org[l] |= s
                ch = True

        def through_raw(p):
            # a store whose place goes through a raw pointer
            t = b.locals[p[0]]
            for e in p[1]:
                if e[0] == "*":
                    if t is not None and t[0] == "ptr":
                        return True
                    t = t[2] if t is not None and t[0] in ("ref", "ptr") else None
                elif e[0] == "f":
                    t = e[2]
                elif e[0] == "d":
                    pass
                else:
                    t = t[1] if t is not None and t[0] in ("array", "slice") else None
            return False
        while ch:
            ch = False
            for bl in b.blocks:
                if not bl:
                    continue
                st, t, line = bl
                for s in st:
                    if s[0] != "=":
                        continue
                    dst, r = s[1], s[2]
                    if through_raw(dst):
                        writes |= base(dst)
                    src = set()
                    if r[0] in ("ref", "rawptr"):
                        src |= base(r[2])
                    for o in rv_operands(r):
                        if o[0] == "place":
                            src |= base(o[1])
                    if src and (pointerish(b.locals[dst[0]]) or dst[1]):
                        if r[0] == "use" and r[1][0] == "place" and not pointerish(self.ptype(b, dst)):
                            continue
                        if r[0] in ("bin", "un", "discr") and not pointerish(self.ptype(b, dst)):
                            continue
                        add(dst[0], src)
                if t[0] == "call":
                    args = [base(o[1]) if o[0] == "place" else set() for o in t[2]]
                    cal = t[1][1]["ty"] if t[1][0] == "const" else None
                    if cal is not None and cal[0] == "fndef":
                        r = cal[1]
                        k = target(r)
                        if k in self.sum:
                            w, ret = self.sum[k]
                            for i in w:
                                if i < len(args):
                                    writes |= args[i]
                            src = set()
                            for i in ret:
                                if i < len(args):
                                    src |= args[i]
                            add(t[3][0], src)
                            continue
                        if PTR_COPY.search(k) and len(args) > 1:
                            writes |= args[1]
                        elif PTR_WRITE0.search(k) and ("ptr" in k) and args:
                            a0 = t[2][0]
                            ty = b.locals[a0[1][0]] if a0[0] == "place" else None
                            if ty is not None and ty[0] == "ptr":
                                writes |= args[0]
                        elif re.search(r"slice::raw::from_raw_parts_mut$", k):
                            pass
                    if pointerish(self.ptype(b, t[3])):
                        src = set()
                        for o, a in zip(t[2], args):
                            if o[0] == "place" and self.ptype(b, o[1]) is not None and self.ptype(b, o[1])[0] in ("ref", "ptr"):
                                src |= a
                        add(t[3][0], src)
        ret = frozenset(org[0]) if pointerish(b.locals[0]) else frozenset()
        return frozenset(writes), ret

    def ptype(self, b, p):
        t = b.locals[p[0]]
        for e in p[1]:
            if t is None:
                return None
            if e[0] == "*":
                t = t[2] if t[0] in ("ref", "ptr") else (t[2][0] if t[0] == "adt" and t[2] else None)
            elif e[0] == "f":
                t = e[2]
            elif e[0] == "d":
                pass
            else:
                t = t[1] if t[0] in ("array", "slice") else None
        return t


def shared_writes(ctx):
    """no safe function writes through a raw pointer that comes from a shared reference"""
    A = ctx.A
    F = PtrFlow(A)
    out = []
    n = wr = 0
    for c, f in sorted(A.N.by_cid.items()):
        if f.kind not in ("fn", "method") or f.crate not in LIB:
            continue
        n += 1
        w, _ = F.sum[f.key]
        wr += bool(w)
        if f.unsafe:
            continue
        for i in sorted(w):
            t = f.body.locals[i + 1]
            if t[0] == "ref" and not t[1]:
                out.append(("shared-write:" + c, "%s changes memory through its shared argument %d (%s)" % (c, i + 1, tystr(t)), loc(f)))
    return out, {"functions": n, "functions_that_write_through_pointers": wr}


# ------------------------------------------------------------------ built-in puzzles (C21)
def table_of(side, root):
    """the JSON text embedded in what a loader reaches"""
    out = []
    for u in sorted(side.closure([root])):
        for m in side.members[u]:
            for c, line in consts_of(side.fn(m)):
                for x in nested(c):
                    if "table" in x and x["table"] not in out:
                        out.append(x["table"])
    return out


def tables(ctx):
    """the tables of the built-in puzzles turn stickers as the cube does"""
    import cube
    import json
    out, n = [], 0
    for root, size in (("cube2x2x2_kpuzzle", 2), ("cube3x3x3_kpuzzle", 3)):
        if root not in ctx.A.members:
            out.append(("anchor:" + root, "there is no loader " + root, "cubing_core/src/puzzles/lib.rs"))
            continue
        ts = table_of(ctx.A, root)
        if len(ts) != 1:
            out.append(("anchor:" + root, "%s has %d embedded definitions" % (root, len(ts)), loc(ctx.A.fn(root))))
            continue
        d = json.loads(ts[0])
        ref = json.loads(table_of(ctx.B, root)[0])
        bad, k = cube.check_puzzle(d, size)
        n += k
        for key in ("moves", "derivedMoves"):
            for m in ref.get(key, {}):
                if m not in d.get("moves", {}) and m not in (d.get("derivedMoves") or {}):
                    bad.append(("missing:" + m, "there is no move " + m))
        if d.get("name") != ref.get("name"):
            bad.append(("name", "the puzzle is called %s" % d.get("name")))
        for k, msg in bad:
            out.append(("table:%s:%s" % (root, k), "%s: %s" % (root, msg), loc(ctx.A.fn(root))))
    return out, {"facts_compared_with_geometry": n}


# ------------------------------------------------------------------ recursion while parsing (C01)
def sccs(side, us):
    """strongly connected components of the call graph (with at least one edge inside)"""
    idx, low, on, st, out = {}, {}, set(), [], []

    def go(u):
        idx[u] = low[u] = len(idx)
        st.append(u)
        on.add(u)
        for v in sorted(side.callees.get(u, ())):
            if v not in us:
                continue
            if v not in idx:
                go(v)
                low[u] = min(low[u], low[v])
            elif v in on:
                low[u] = min(low[u], idx[v])
        if low[u] == idx[u]:
            c = []
            while True:
                x = st.pop()
                on.discard(x)
                c.append(x)
                if x == u:
                    break
            if len(c) > 1 or u in side.callees.get(u, ()):
                out.append(sorted(c))
    for u in sorted(us):
        if u not in idx:
            go(u)
    return out


def parse_recursion(ctx):
    """the depth of recursion while parsing does not depend on the text"""
    A = ctx.A
    out = []
    comps = sccs(A, {m for u in ctx.scope if u in A.members for m in A.members[u]})
    for c in comps:
        opening = set()
        for u in c:
            for k, _ in consts_of(A.fn(u)):
                for x in nested(k):
                    if x.get("str") in ("(", "["):
                        opening.add(x["str"])
                    if x.get("char") in ("(", "[", 40, 91, "40", "91"):
                        opening.add("(")
        key = "recursion:nested-groups" if opening else "recursion:" + ",".join(c)
        out.append((key, "the parser recurses without a bound through %s" % " -> ".join(c), loc(A.fn(c[0]))))
    return out, {"functions": len(ctx.scope), "cycles": len(comps)}


# ------------------------------------------------------------------ encapsulation (C11, C12, C13, C23, C29)
GUARDED = {
    "LineComment": ("C29",), "PackedOrbitData": ("C11", "C12", "C13", "C27"), "KPattern": ("C11", "C12", "C13", "C27"),
    "KTransformation": ("C11", "C12", "C13", "C27"), "KPuzzleData": ("C11", "C12"), "OrientationPacker": ("C11", "C14"),
    "KPatternBuffer": ("C23",), "KTransformationBuffer": ("C23",),
}


def fields_of(side, name):
    a = side.N.adt_by_ckey.get(name)
    if a is None or len(a.variants) != 1:
        return None, {}
    return a, {n: vis == "pub" for n, _, vis in a.variants[0][2]}


def private_fields(ctx):
    """the fields that keep a type's invariant cannot be reached from outside of the crate"""
    out, n = [], 0
    for nm, pids in sorted(GUARDED.items()):
        if ctx.pid not in pids:
            continue
        a, now = fields_of(ctx.A, nm)
        _, ref = fields_of(ctx.B, nm)
        if not now or not ref:
            continue
        closed = not any(ref.values())
        for f, pub in sorted(now.items()):
            n += 1
            if pub and (closed or ref.get(f) is False):
                out.append(("field:%s.%s" % (nm, f), "the field %s of %s can be changed from anywhere" % (f, nm), a.path))
    return out, {"fields": n}


def mentions(t, pred, d=0):
    if not isinstance(t, tuple) or not t or d > 8:
        return False
    if isinstance(t[0], str):
        return bool(pred(t)) or any(mentions(x, pred, d + 1) for x in t[1:])
    return any(mentions(x, pred, d + 1) for x in t)


def is_packed(t):
    return t[0] == "adt" and len(t) > 1 and isinstance(t[1], str) and t[1].endswith("::PackedOrbitData")


def public_new(ctx):
    """safe functions anybody can call that the reference does not have"""
    import equiv
    for u in sorted(ctx.A.members):
        f = ctx.A.fn(u)
        if u not in ctx.B.members and f.crate in LIB and f.kind in ("fn", "method") and not f.unsafe and equiv.is_root(f, u):
            yield u, f


def unsafe_exposed(ctx):
    """no new safe function hands out the packed bytes' owner"""
    out, n = [], 0
    for u, f in public_new(ctx):
        n += 1
        own = f.selfty is not None and f.selfty[0] == "adt" and ctx.A.N.ckey(f.selfty[1]) == "PackedOrbitData"
        if not own and mentions(f.body.locals[0], is_packed):
            out.append(("exposes:" + u, "%s is safe to call and hands out the owner of the packed bytes, whose pointer can be replaced" % u, loc(f)))
    for u in sorted(set(ctx.A.members) & set(ctx.B.members)):
        f, g = ctx.A.fn(u), ctx.B.fn(u)
        if f.kind in ("fn", "method") and g.unsafe and not f.unsafe and f.reachable and f.body.locals[0][0] in ("ref", "ptr", "adt"):
            n += 1
            if mentions(f.body.locals[0], is_packed):
                out.append(("exposes:" + u, "%s became safe to call and hands out the owner of the packed bytes, whose pointer can be replaced" % u, loc(f)))
    return out, {"functions": n}


TEXTUAL = ("String", "Vec", "Box")


def is_comment(t):
    return bool(t) and t[0] == "adt" and t[1].endswith("::LineComment")


def mut_text(t):
    return t[0] == "ref" and len(t) == 3 and t[1] and isinstance(t[2], tuple) and t[2] and (
        t[2][0] in ("str", "slice") or t[2][0] == "adt" and t[2][1].endswith(("::String", "::Vec")))


NEWLINES = ("\n", 10, "10", "\\n")


def comment_text(ctx):
    """no safe function changes the text of a line comment or makes one from text it does not look at"""
    A = ctx.A
    out, n = [], 0
    for u, f in public_new(ctx):
        b = f.body
        n += 1
        args = b.locals[1:b.argc + 1]
        takes_mut = [t for t in args if t is not None and t[0] == "ref" and t[1] and is_comment(t[2])]
        takes = [t for t in args if mentions(t, is_comment)]
        if takes_mut and mentions(b.locals[0], mut_text):
            out.append(("comment:" + u, "%s lets the text of a line comment be changed" % u, loc(f)))
            continue
        for m in sorted(A.closure([u])):
            if m in ctx.B.members:
                continue
            g = A.fn(m)
            if g.kind not in ("fn", "method", "closure"):
                continue
            for bl in g.body.blocks:
                if not bl:
                    continue
                for s in bl[0]:
                    if s[0] != "=":
                        continue
                    dst, r = s[1], s[2]
                    if r[0] == "agg" and r[1] and not takes and is_comment(g.body.locals[dst[0]] if not dst[1] else None):
                        text = r[3][0] if r[3] else None
                        if text is not None and text[0] == "place" and not looks_for_newline(A, u):
                            out.append(("comment:" + u, "%s makes a line comment of text that it does not look at" % u, loc(g, bl[2])))
                    if dst[1] and stored_in_comment(g.body, dst):
                        out.append(("comment:" + u, "%s changes the text of a line comment" % u, loc(g, bl[2])))
    return sorted(set(out)), {"functions": n}


def stored_in_comment(b, dst):
    """a store into a field of a line comment behind a mutable reference"""
    t = b.locals[dst[0]]
    behind = False
    for e in dst[1]:
        if t is None:
            return False
        if e[0] == "*":
            behind = behind or t[0] == "ref"
            t = t[2] if t[0] in ("ref", "ptr") else None
        elif e[0] == "f":
            if behind and is_comment(t):
                return True
            t = e[2]
        else:
            return False
    return False


def looks_for_newline(A, u):
    for m in A.closure([u]):
        for x in A.members[m]:
            g = A.fn(x)
            for c, _ in consts_of(g):
                for k in nested(c):
                    v = k.get("str", k.get("char", k.get("bytes", k.get("int"))))
                    if v in NEWLINES or isinstance(v, str) and "\n" in v or isinstance(v, list) and 10 in v:
                        return True
            for r, _ in fnrefs(g):
                if re.search(r"::(lines|is_control|is_whitespace|is_ascii_control|is_ascii_whitespace|is_ascii_graphic|is_alphanumeric|is_ascii_alphanumeric|split_whitespace|split_ascii_whitespace)$", r.key):
                    return True
            if any(bl and bl[1][0] == "switch" and any(str(x) == "10" for x in str(bl[1]).replace("(", " ").replace(",", " ").split()) for bl in g.body.blocks):
                return True
    return False


# ------------------------------------------------------------------ the facade (C28)
FACADE_MACROS = [("alg", "cubing_macros", "parse_alg"), ("alg", "cubing_macros", "parse_move"),
                 ("kpuzzle", "cubing_core", "kpuzzle_from_json_file"), ("kpuzzle", "cubing_core", "kpattern_from_json_file"),
                 ("kpuzzle", "cubing_core", "ktransformation_from_json_file")]


def namespace(kind):
    if kind.startswith("Macro"):
        return "macro"
    return "value" if kind.startswith(("Fn", "Ctor", "Const", "Static", "AssocFn")) else "type"


def names_of(P, crate):
    """(path, namespace) -> what the public name refers to"""
    return {(p, namespace(k)): key for p, key, k in P.exports.get(crate, ())}


def published(P):
    """what the facade has to offer, and what each name has to refer to"""
    core = names_of(P, "cubing_core")
    out = {(p, ns): key for (p, ns), key in core.items()
           if p.split("::")[0] in ("alg", "kpuzzle", "puzzles") and "::" in p and not any(x.startswith("_") for x in p.split("::"))}
    for mod, crate, name in FACADE_MACROS:
        n = names_of(P, crate)
        out[(mod + "::" + name, "macro")] = n.get((name, "macro")) or n.get((name, "value"))   # procedural macros are functions in their own crate
    return out


def exports(ctx):
    """every published name is there in the facade and refers to the same item"""
    P = ctx.A.P
    out = []
    face = names_of(P, "cubing")
    want = published(P)
    for (p, ns), key in sorted(want.items(), key=str):
        if key is None:
            out.append(("export:" + p, "the %s %s is not published any more" % (ns, p), "cubing/src/lib.rs"))
        elif (p, ns) not in face:
            out.append(("export:" + p, "%s (%s) cannot be used through the facade crate" % (p, key), "cubing/src/lib.rs"))
        elif face[(p, ns)] != key:
            out.append(("export:" + p, "%s refers to %s in the facade crate and to %s in the library" % (p, face[(p, ns)], key), "cubing/src/lib.rs"))
    for p, ns in sorted(published(ctx.B.P)):
        if (p, ns) not in want:
            out.append(("export:" + p, "the library does not publish %s any more" % p, "cubing_core/src/lib.rs"))
    return out, {"published_names": len(want)}


def macros_usable(ctx):
    """a crate that depends on the facade only can use the JSON file macros"""
    err = os.path.join(ctx.A.P.dir, "probe.err")
    if os.path.exists(err):
        text = open(err).read()
        m = re.findall(r"^error.*(?:\n *-->.*)?", text, re.M)
        return [("probe", "a crate that uses the JSON file macros of the facade does not compile: %s" % "; ".join(m[:3]), "cubing_core/src/kpuzzle/json_macros.rs")], {"macro_uses": 6}
    return [], {"macro_uses": 6}


# ------------------------------------------------------------------ one instance (C22)
LEAKS = re.compile(r"::leak$|::into_raw$|^std::alloc::alloc")
GUARDS = re.compile(r"(mutex::|rwlock::|once::Once)")


def derived_from(b):
    """the locals that the result comes from, and the calls that make them"""
    want, calls, changed = {0}, [], True
    done = set()
    while changed:
        changed = False
        for i, bl in enumerate(b.blocks):
            if not bl:
                continue
            for s in bl[0]:
                if s[0] == "=" and s[1][0] in want:
                    for o in places_of(s[2]):
                        if o not in want:
                            want.add(o)
                            changed = True
            t = bl[1]
            if t[0] == "call" and t[3] is not None and t[3][0] in want and i not in done:
                done.add(i)
                calls.append((t, bl[2]))
                changed = True
                if t[1][0] == "const" and t[1][1]["ty"][0] == "fndef" and re.search(
                        r"::(unwrap\w*|expect|deref|as_ref|borrow|into|from|ok|cloned|copied|branch|map|and_then|or|or_else|as_deref|new|pin)$", target(t[1][1]["ty"][1])):
                    for a in t[2]:
                        if a[0] != "const":
                            want.add(a[1][0])
    return calls


def places_of(r):
    if r[0] in ("ref", "rawptr", "addrof"):
        return [x[0] for x in r[1:] if isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], int)]
    return [o[1][0] for o in rv_operands(r) if o[0] != "const"]


def shared_instance(ctx):
    """a loader returns what its cell holds, never a value of one call"""
    A = ctx.A
    out, n = [], 0
    todo = [u for u in sorted(ctx.scope) if u in A.members]
    for u in todo:
        f = A.fn(u)
        if f.kind != "fn" or f.body.locals[0] is None or f.body.locals[0][0] != "ref" or f.body.argc:
            continue
        n += 1
        seen, st = set(), [f]
        while st:
            g = st.pop()
            if g.key in seen:
                continue
            seen.add(g.key)
            if any(GUARDS.search(target(r)) for r, _ in fnrefs(g)):
                continue
            for t, line in derived_from(g.body):
                if t[1][0] != "const" or t[1][1]["ty"][0] != "fndef":
                    continue
                k = target(t[1][1]["ty"][1])
                if LEAKS.search(k):
                    out.append(("instance:%s:%s" % (u, k), "%s returns a value of this call (%s), not the shared one" % (u, k), loc(g, line)))
                elif k in A.P.fns:
                    st.append(A.P.fns[k])
    return out, {"loaders": n}


LOOKED = re.compile(r"(once_lock|cell::once|once_cell.*|lazy_lock|cell::lazy)::\{impl#\d+\}::(get|get_mut|wait|is_initialized|force)$")
LOADS = re.compile(r"(once_lock|cell::once)::\{impl#\d+\}::(set|try_insert)$|^serde_json::.*::from_(slice|str|reader|value)$|::try_from_json$|::packed::kpuzzle::\{impl#\d+\}::try_new$")


def loaded_once(ctx):
    """a loader only makes a value where it has found its cell empty"""
    A = ctx.A
    out, n, walked = [], 0, 0
    for u in sorted(ctx.scope):
        if u not in A.members:
            continue
        f = A.fn(u)
        if f.kind != "fn" or f.body.locals[0] is None or f.body.locals[0][0] != "ref" or f.body.argc:
            continue
        n += 1
        seen, st = set(), [f]
        while st:
            g = st.pop()
            if g.key in seen or g.body is None:
                continue
            seen.add(g.key)
            if any(GUARDS.search(target(r)) for r, _ in fnrefs(g)):
                continue
            for k, line in unguarded_calls(A, g.body):
                walked += 1
                if LOADS.search(k):
                    out.append(("loads:%s:%s" % (u, k), "%s makes its value (%s) on every call, not only when its cell is empty" % (u, k), loc(g, line)))
                elif k in A.P.fns:
                    st.append(A.P.fns[k])
    return out, {"loaders": n, "calls": walked}


def looks(A, k):
    """may the function look into a cell?"""
    seen, st = set(), [k]
    while st:
        x = st.pop()
        if x in seen or x not in A.P.fns or A.P.fns[x].body is None:
            continue
        seen.add(x)
        for r, _ in fnrefs(A.P.fns[x]):
            y = target(r)
            if LOOKED.search(y):
                return True
            st.append(y)
    return False


def unguarded_calls(A, b):
    """what is called on some path that has not looked into a cell"""
    seen, st = set(), [0]
    while st:
        i = st.pop()
        if i in seen or not b.blocks[i]:
            continue
        seen.add(i)
        t = b.blocks[i][1]
        if t[0] == "call" and t[1][0] == "const" and t[1][1]["ty"][0] == "fndef":
            k = target(t[1][1]["ty"][1])
            if LOOKED.search(k):
                continue
            yield k, b.blocks[i][2]
            if looks(A, k):
                continue
        st.extend(j for j in succs(t) if j >= 0)


def is_address(t):
    return t[0] == "ptr" or t[0] == "adt" and t[1].endswith("::NonNull") or t[0] == "fnptr"


def hash_addresses(ctx):
    """what a hash is made of does not depend on where a value is in memory"""
    def sites(side):
        out, refs = {}, {}
        roots = [u for u in side.members if u.endswith((" as Hash>::hash", " as PartialEq>::eq")) and side.fn(u).crate in LIB]
        for u in roots:
            for x in side.closure([u]):
                f = side.fn(x)
                if f.crate not in LIB:
                    continue
                for r, line in fnrefs(f):
                    k = target(r)
                    if (r.key.endswith("hash::Hash::hash") or k.endswith("hash::Hash::hash")) and r.args and is_address(r.args[0]):
                        out.setdefault(u, (x, line, "hashes a pointer"))
                    elif re.search(r"^core::ptr::(hash|.*::(addr|expose_provenance))$", k):
                        out.setdefault(u, (x, line, "uses an address"))
                    elif re.search(r"::(strong_count|weak_count)$", k):
                        refs.setdefault(u, (x, line, "uses the number of references"))
                for b in [f.body] + list(f.promoted):
                    for st, _, line in filter(None, b.blocks):
                        for s in st:
                            if s[0] == "=" and s[2][0] == "cast" and str(s[2][1]).startswith("PointerExpose"):
                                out.setdefault(u, (x, line, "turns a pointer into a number"))
        # (equal addresses may be a shortcut in a comparison)
        out = {u: x for u, x in out.items() if u.endswith("::hash")}
        for u, x in refs.items():
            out.setdefault(u, x)
        return roots, out
    na, sa = sites(ctx.A)
    _, sb = sites(ctx.B)
    return ([("hash-address:" + u, "%s depends on where or how often a value is stored (%s %s)" % (u, x, what), loc(ctx.A.fn(x), line))
             for u, (x, line, what) in sorted(sa.items()) if u not in sb], {"hash_functions": len(na)})


RULES = {
    "C16": [hash_addresses],
    "C22": [shared_instance, loaded_once],
    "C01": [parse_recursion],
    "C21": [tables],
    "C26": [effects, global_state, hash_order],
    "C11": [private_fields, unsafe_exposed],
    "C12": [private_fields, unsafe_exposed],
    "C13": [private_fields],
    "C14": [private_fields],
    "C23": [private_fields],
    "C28": [exports, macros_usable],
    "C29": [private_fields, comment_text],
    "C27": [private_fields, thread_safe_types, shared_writes],
}


def check(ctx):
    fs, cov = [], {}
    for r in RULES.get(ctx.pid, ()):
        f, n = r(ctx)
        fs += f
        cov[r.__name__] = n
    return fs, cov
