"""Loads the exported program: types, definitions, bodies, control flow."""
import json
import os
import sys

sys.setrecursionlimit(20000)


class Ty(tuple):
    """Structural types: ('adt', key, args), ('ref', mut, t), ('int', name), ..."""
    __slots__ = ()


def mk(*a):
    return Ty(a)


class FnRef:
    """A function item: what is called, with generic arguments."""
    __slots__ = ("path", "key", "args", "trait", "method", "selfty", "res", "_id")

    def __init__(self, path, key, args, trait, method, selfty, res):
        self.path, self.key, self.args = path, key, args
        self.trait, self.method, self.selfty, self.res = trait, method, selfty, res
        self._id = (path, key, args, res[1:] if res else None)

    def __eq__(self, o):
        return isinstance(o, FnRef) and self._id == o._id

    def __hash__(self):
        return hash(self._id)

    def __repr__(self):
        return "fn:%s" % self.path


class Body:
    __slots__ = ("fn", "argc", "locals", "names", "blocks", "file", "line", "spread", "crate", "_cfg", "key")


class Fn:
    __slots__ = ("crate", "key", "path", "kind", "vis", "reachable", "parent", "selfty", "name", "trait", "trait_args",
                 "derived", "unsafe", "generics", "body", "promoted", "mutstatic", "in_trait")

    def __repr__(self):
        return "Fn(%s)" % self.path


class Adt:
    __slots__ = ("path", "key", "kind", "vis", "variants", "crate", "by_name", "share")


class Impl:
    __slots__ = ("key", "selfty", "trait", "trait_args", "unsafe", "negative", "derived", "file", "line", "crate")


def embedded_json(x, lens):
    """replaces the bytes of embedded JSON texts by a name, keeping the text"""
    if isinstance(x, dict):
        v = x.get("bytes", x.get("str"))
        if v is not None and len(v) > 60 and not isinstance(v, dict):
            raw = bytes(v) if isinstance(v, list) else v.encode()
            if raw.lstrip()[:1] in (b"{", b"["):
                try:
                    d = json.loads(raw.decode())
                except ValueError:
                    d = None
                if isinstance(d, (dict, list)):
                    nm = "JSON:%s" % (d.get("name") if isinstance(d, dict) else "list")
                    x["table"] = raw.decode()
                    if "bytes" in x:
                        lens[str(len(raw))] = nm
                        x["bytes"] = list(nm.encode())
                    else:
                        x["str"] = nm
        for y in x.values():
            if isinstance(y, (dict, list)):
                embedded_json(y, lens)
    elif isinstance(x, list):
        for y in x:
            if isinstance(y, (dict, list)):
                embedded_json(y, lens)


class Program:
    def __init__(self, d):
        self.dir = d
        self.fns = {}
        self.adts = {}
        self.impls = []
        self.exports = {}
        self.crates = {}
        self.methods = {}  # (trait, method) -> [Fn]
        for f in sorted(os.listdir(d)):
            if f.endswith(".json"):
                with open(os.path.join(d, f)) as fh:
                    self._load(json.load(fh))
        for fn in self.fns.values():
            if fn.trait and fn.kind == "method":
                self.methods.setdefault((fn.trait, fn.name), []).append(fn)

    def _load(self, j):
        crate = j["crate"]
        raw = j["types"]
        # embedded JSON tables stand for themselves: what is in them is judged separately (see rules.tables)
        lens = {}
        for b in j["bodies"]:
            embedded_json(b, lens)
        for t in raw:
            if t and t["k"] == "array" and t["len"] in lens:
                t["len"] = lens[t["len"]]
        cache = {}
        busy = set()

        def ty(i):
            if isinstance(i, dict):
                return mk("const", i["const"])
            if i in cache:
                return cache[i]
            if i in busy:
                return mk("rec")
            busy.add(i)
            t = raw[i]
            k = t["k"]
            if k == "adt":
                r = mk("adt", t["key"], tuple(ty(a) for a in t["args"]), t["path"])
            elif k == "int":
                r = mk("int", t["name"])
            elif k in ("ref", "ptr"):
                r = mk(k, t["mut"], ty(t["elem"]))
            elif k == "array":
                r = mk("array", ty(t["elem"]), t["len"])
            elif k == "slice":
                r = mk("slice", ty(t["elem"]))
            elif k == "tuple":
                r = mk("tuple", tuple(ty(a) for a in t["elems"]))
            elif k == "param":
                r = mk("param", t["name"])
            elif k == "dyn":
                r = mk("dyn", t["trait"])
            elif k == "closure":
                r = mk("closure", t["key"], tuple(ty(a) for a in t["upvars"]), tuple(ty(a) for a in t["parent"]))
            elif k == "fndef":
                res = None
                if "res" in t:
                    q = t["res"]
                    res = (q["path"], q["key"], tuple(ty(a) for a in q["args"]), q["shim"])
                r = mk("fndef", FnRef(t["path"], t["key"], tuple(ty(a) for a in t["args"]), t.get("trait"),
                                      t.get("method"), ty(t["self"]) if "self" in t else None, res))
            else:
                r = mk(k, t["s"]) if k in ("alias", "other") else mk(k)
            busy.discard(i)
            cache[i] = r
            return r

        self.crates[crate] = {"types": [ty(i) for i in range(len(raw))]}
        T = ty
        for a in j["adts"]:
            if a["key"] in self.adts and self.adts[a["key"]].variants and self.adts[a["key"]].variants[0][2] \
                    and not a["key"].startswith(crate):
                continue
            x = Adt()
            x.path, x.key, x.kind, x.vis, x.crate = a["path"], a["key"], a["kind"], a["vis"], crate
            x.variants = [(v["name"], int(v["discr"]), [(f["name"], T(f["ty"]) if f["ty"] >= 0 else None, f["vis"]) for f in v["fields"]])
                          for v in a["variants"]]
            x.share = {k: a.get(k) for k in ("send", "sync", "freeze", "reachable")} if "send" in a else None
            x.by_name = {v[0]: i for i, v in enumerate(x.variants)}
            self.adts[x.key] = x
        for m in j["impls"]:
            x = Impl()
            x.key, x.selfty, x.trait = m["key"], T(m["self"]), m.get("trait")
            x.trait_args = tuple(T(a) for a in m.get("trait_args", []))
            x.unsafe, x.negative, x.derived = m.get("unsafe"), m.get("negative"), m.get("derived")
            x.file, x.line, x.crate = m["file"], m["line"], crate
            self.impls.append(x)
        self.exports[crate] = [tuple(e) for e in j["exports"]]
        for b in j["bodies"]:
            f = Fn()
            f.crate, f.key, f.path, f.kind, f.vis = crate, b["key"], b["path"], b["kind"], b["vis"]
            f.reachable, f.parent = b.get("reachable"), b.get("parent")
            f.selfty = T(b["self"]) if "self" in b else None
            f.name, f.trait = b.get("name"), b.get("trait")
            f.trait_args = tuple(T(a) for a in b.get("trait_args", []))
            f.derived, f.unsafe, f.generics = b.get("derived", False), b.get("unsafe", False), b.get("generics", [])
            f.mutstatic, f.in_trait = b.get("mutstatic", False), b.get("in_trait")
            f.body = self._body(f, b["body"], T)
            f.promoted = [self._body(f, p, T) for p in b["promoted"]]
            self.fns[f.key] = f

    def _body(self, fn, b, T):
        x = Body()
        x.fn, x.argc, x.crate = fn, b["argc"], fn.crate
        x.locals = [T(l[0]) for l in b["locals"]]
        x.names = [l[1] if len(l) > 1 else None for l in b["locals"]]
        x.file, x.line, x.spread = b["file"], b["line"], b["spread"]
        x.key = fn.key
        x._cfg = None

        def place(p):
            pr = []
            for e in p[1]:
                if e == "*":
                    pr.append(("*",))
                elif e[0] == "f":
                    pr.append(("f", e[1], T(e[2])))
                else:
                    pr.append(tuple(e))
            return (p[0], tuple(pr))

        def const(c):
            c = dict(c)
            c["ty"] = T(c["ty"])
            if "ref" in c:
                c["ref"] = const(c["ref"])
            if "agg" in c:
                c["agg"] = [const(y) for y in c["agg"]]
            return c

        def op(o):
            if "c" in o:
                return ("place", place(o["c"]), False)
            if "m" in o:
                return ("place", place(o["m"]), True)
            if "rt" in o:
                return ("rt", o["rt"])
            return ("const", const(o["k"]))

        def rv(r):
            k = r[0]
            if k == "use":
                return ("use", op(r[1]))
            if k == "repeat":
                return ("repeat", op(r[1]), r[2])
            if k in ("ref", "rawptr"):
                return (k, r[1], place(r[2]))
            if k == "cast":
                return ("cast", r[1], op(r[2]), T(r[3]))
            if k == "bin":
                return ("bin", r[1], op(r[2]), op(r[3]))
            if k == "un":
                return ("un", r[1], op(r[2]))
            if k == "discr":
                return ("discr", place(r[1]))
            if k == "agg":
                if r[1] == "adt":
                    info = (T(r[2][0]), r[2][1])
                elif r[1] == "array":
                    info = T(r[2])
                else:
                    info = r[2]
                return ("agg", r[1], info, tuple(op(o) for o in r[3]))
            return ("other", r[1])

        blocks = []
        for bl in b["blocks"]:
            if bl is None:
                blocks.append(None)
                continue
            st = []
            for s in bl["s"]:
                if s[0] == "=":
                    st.append(("=", place(s[1]), rv(s[2]), s[3]))
                elif s[0] == "setd":
                    st.append(("setd", place(s[1]), s[2]))
                else:
                    st.append(("intr", s[1]))
            t = bl["t"]
            k = t[0]
            if k == "switch":
                tt = ("switch", op(t[1]), tuple((int(v), tg) for v, tg in t[2]), t[3], T(t[4]))
            elif k == "drop":
                tt = ("drop", place(t[1]), t[2], T(t[3]))
            elif k == "call":
                tt = ("call", op(t[1]), tuple(op(a) for a in t[2]), place(t[3]), t[4])
            elif k == "assert":
                m = t[3]
                if m[0] == "overflow":
                    mm = ("overflow", m[1], op(m[2]), op(m[3]))
                elif m[0] == "other":
                    mm = ("other", m[1])
                else:
                    mm = (m[0],) + tuple(op(o) for o in m[1:])
                tt = ("assert", op(t[1]), t[2], mm, t[4])
            else:
                tt = tuple(t)
            blocks.append((st, tt, bl["l"]))
        x.blocks = blocks
        return x

    # --- lookup -------------------------------------------------------------------------------
    def adt_by_path(self, suffix):
        return [a for a in self.adts.values() if a.path == suffix or a.path.endswith("::" + suffix)]


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        out = []
        for _, b in t[2]:
            if b not in out:
                out.append(b)
        if t[3] not in out:
            out.append(t[3])
        return out
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] >= 0 else []
    if k == "assert":
        return [t[4]]
    return []


class Cfg:
    """Dominators and natural loops of one body."""

    def __init__(self, body):
        self.body = body
        order = []
        seen = set()
        stack = [(0, iter(succs(body.blocks[0][1])))]
        seen.add(0)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen and body.blocks[s] is not None:
                    seen.add(s)
                    stack.append((s, iter(succs(body.blocks[s][1]))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        self.rpo = rpo
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succs(body.blocks[b][1]):
                if s in preds:
                    preds[s].append(b)
        self.preds = preds
        idom = {0: 0}
        changed = True
        while changed:
            changed = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, c = p, new
                            while a != c:
                                while idx[a] > idx[c]:
                                    a = idom[a]
                                while idx[c] > idx[a]:
                                    c = idom[c]
                            new = a
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self.idom = idom
        self.loops = {}  # header -> set of blocks
        for b in rpo:
            for s in succs(body.blocks[b][1]):
                if s in idom and self.dominates(s, b):
                    blocks = self.loops.setdefault(s, {s})
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in blocks:
                            blocks.add(x)
                            work.extend(preds[x])

    def dominates(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]


def cfg(body):
    if body._cfg is None:
        body._cfg = Cfg(body)
    return body._cfg


def tystr(t):
    if t is None:
        return "?"
    k = t[0]
    if k == "adt":
        n = t[3].split("::")[-1]
        return n + ("<%s>" % ", ".join(map(tystr, t[2])) if t[2] else "")
    if k == "ref":
        return "&" + ("mut " if t[1] else "") + tystr(t[2])
    if k == "ptr":
        return "*" + ("mut " if t[1] else "const ") + tystr(t[2])
    if k == "int":
        return t[1]
    if k == "tuple":
        return "(%s)" % ", ".join(map(tystr, t[1]))
    if k == "slice":
        return "[%s]" % tystr(t[1])
    if k == "array":
        return "[%s; %s]" % (tystr(t[1]), t[2])
    if k == "param":
        return t[1]
    if k == "fndef":
        return repr(t[1])
    if k == "closure":
        return "{closure %s}" % t[1]
    if k == "dyn":
        return "dyn " + t[1]
    return k


def pretty(fn):
    out = []

    def pl(p):
        s = "_%d" % p[0]
        for e in p[1]:
            if e[0] == "*":
                s = "(*%s)" % s
            elif e[0] == "f":
                s += ".%d" % e[1]
            elif e[0] == "d":
                s += "@%d" % e[1]
            else:
                s += str(list(e))
        return s

    def cn(c):
        for k in ("int", "bool", "char", "str", "static", "bytes"):
            if k in c:
                return "%s" % (repr(c[k])[:60])
        if "promoted" in c:
            return "promoted[%s]" % c["promoted"]
        if "zst" in c:
            return tystr(c["ty"])
        if "ref" in c:
            return "&" + cn(c["ref"])
        if "agg" in c:
            return "%s/%s{%s}" % (tystr(c["ty"]), c.get("variant"), ", ".join(map(cn, c["agg"])))
        return "opaque:" + tystr(c["ty"])

    def o(x):
        if x[0] == "place":
            return ("move " if x[2] else "") + pl(x[1])
        if x[0] == "const":
            return cn(x[1])
        return str(x)

    def r(x):
        k = x[0]
        if k == "use":
            return o(x[1])
        if k in ("ref", "rawptr"):
            return "&%s %s" % (x[1], pl(x[2]))
        if k == "cast":
            return "%s as %s [%s]" % (o(x[2]), tystr(x[3]), x[1])
        if k == "bin":
            return "%s(%s, %s)" % (x[1], o(x[2]), o(x[3]))
        if k == "un":
            return "%s(%s)" % (x[1], o(x[2]))
        if k == "discr":
            return "discr(%s)" % pl(x[1])
        if k == "agg":
            nm = x[1]
            if nm == "adt":
                nm = "%s#%d" % (tystr(x[2][0]), x[2][1])
            elif nm == "closure":
                nm = "closure:" + x[2]
            return "%s{%s}" % (nm, ", ".join(map(o, x[3])))
        if k == "repeat":
            return "[%s; %s]" % (o(x[1]), x[2])
        return str(x)

    def bd(b, title):
        out.append("%s argc=%d %s:%d" % (title, b.argc, b.file, b.line))
        for i, (t, n) in enumerate(zip(b.locals, b.names)):
            out.append("   _%d: %s %s" % (i, tystr(t), n or ""))
        for i, bl in enumerate(b.blocks):
            if bl is None:
                continue
            out.append(" bb%d:" % i)
            for s in bl[0]:
                if s[0] == "=":
                    out.append("    %s = %s" % (pl(s[1]), r(s[2])))
                else:
                    out.append("    " + str(s))
            t = bl[1]
            if t[0] == "switch":
                out.append("    switch %s [%s] else bb%d" % (o(t[1]), ", ".join("%d:bb%d" % q for q in t[2]), t[3]))
            elif t[0] == "call":
                out.append("    %s = %s(%s) -> bb%d   L%d" % (pl(t[3]), o(t[1]), ", ".join(map(o, t[2])), t[4], bl[2]))
            elif t[0] == "drop":
                out.append("    drop %s -> bb%d" % (pl(t[1]), t[2]))
            elif t[0] == "assert":
                out.append("    assert %s==%s %s -> bb%d" % (o(t[1]), t[2], t[3][0], t[4]))
            else:
                out.append("    " + str(t))
    bd(fn.body, fn.path)
    for i, p in enumerate(fn.promoted):
        bd(p, "promoted %d" % i)
    return "\n".join(out)


if __name__ == "__main__":
    from build import dump
    P = Program(dump())
    for k, f in sorted(P.fns.items()):
        if len(sys.argv) > 1:
            if sys.argv[1] in f.path or sys.argv[1] in f.key:
                print(pretty(f))
        else:
            print(f.kind, f.path, f.key, f.vis, f.reachable)
