"""Canonical names: the same item has the same name in the analysed program and in the reference model."""
import re
from ir import tystr

LOCAL = ("cubing_core", "cubing_macros", "cubing", "alg", "vf_probe")


def crate_of(key):
    return key.split("::", 1)[0]


class Names:
    def __init__(self, P):
        self.P = P
        cnt = {}
        for a in P.adts.values():
            if crate_of(a.key) in LOCAL:
                cnt.setdefault(a.key.split("::")[-1], set()).add(a.key)
        self.dup = {n for n, ks in cnt.items() if len(ks) > 1}
        self._cid = {}
        self.adt_by_ckey = {}
        for a in P.adts.values():
            self.adt_by_ckey[self.ckey(a.key)] = a
        self.by_cid = {}
        self.fp = {}
        for f in P.fns.values():
            c = self.cid(f)
            if c in self.by_cid and self.by_cid[c] is not f:
                c = c + "@" + f.key
                self._cid[f.key] = c
            self.by_cid[c] = f

    def ckey(self, key):
        if crate_of(key) in LOCAL:
            s = key.split("::")
            pf = self.P.fns.get("::".join(s[:-1]))
            if pf is not None:
                return self.cid(pf) + "::" + s[-1]
            return s[-1] if s[-1] not in self.dup else "::".join(s[-2:])
        return key

    def ty(self, t):
        """type as text, with canonical names of local types"""
        if t is None:
            return "?"
        k = t[0]
        if k == "adt":
            args = [self.ty(a) for a in t[2]]
            args = [a for a in args if a not in ("Global", "RandomState")]
            n = self.ckey(t[1]).split("::")[-1] if crate_of(t[1]) not in LOCAL else self.ckey(t[1])
            return n + ("<%s>" % ", ".join(args) if args else "")
        if k == "ref":
            return "&" + ("mut " if t[1] else "") + self.ty(t[2])
        if k == "ptr":
            return "*" + ("mut " if t[1] else "const ") + self.ty(t[2])
        if k == "tuple":
            return "(%s)" % ", ".join(self.ty(a) for a in t[1])
        if k == "slice":
            return "[%s]" % self.ty(t[1])
        if k == "array":
            return "[%s; %s]" % (self.ty(t[1]), t[2])
        if k == "closure":
            f = self.P.fns.get(t[1])
            return "{closure %s}" % (self.cid(f) if f else t[1])
        if k == "fndef":
            return "fn " + self.fnref(t[1])
        return tystr(t)

    def fnref(self, r):
        key = r.res[1] if r.res else r.key
        args = r.res[2] if r.res else r.args
        f = self.P.fns.get(key)
        if f is not None:
            base = self.cid(f)
        else:
            base = std_name(r)
            args = r.args
        a = [self.ty(x) for x in args]
        a = [x for x in a if x not in ("Global", "RandomState")]
        return base + ("<%s>" % ", ".join(a) if a else "")

    def cid(self, f):
        c = self._cid.get(f.key)
        if c is None:
            c = self._cid[f.key] = self._mk(f)
        return c

    def _mk(self, f):
        if f.kind == "closure":
            p = self.P.fns.get(f.parent)
            n = re.search(r"\{closure#(\d+)\}$", f.key)
            return "%s#%s" % (self.cid(p) if p else f.parent, n.group(1) if n else "?")
        name = f.name or f.key.split("::")[-1]
        # items nested in a function body
        m = re.match(r"(.*)::([^:]+)$", f.key)
        if f.trait and f.selfty is not None:
            ta = [self.ty(x) for x in f.trait_args[1:]]
            return "<%s as %s%s>::%s" % (self.ty(f.selfty), f.trait.split("::")[-1], "<%s>" % ", ".join(ta) if ta else "", name)
        if f.selfty is not None:
            return "%s::%s" % (self.ty(f.selfty), name)
        if f.crate == "cubing_core":
            segs = f.key.split("::")
            pf = self.P.fns.get("::".join(segs[:-1]))
            if pf is not None:
                return self.cid(pf) + "::" + name
            return name
        return f.crate + "::" + name


def std_name(r):
    """short name of a function outside of the workspace"""
    if r.trait:
        return r.trait.split("::")[-1].split("<")[0] + "::" + (r.method or "?")
    p = re.sub(r"<'[a-z_]+(, *'[a-z_]+)*>", "", r.path)
    if r.selfty is not None:
        s = r.selfty
        k = s[0]
        n = {"slice": "slice", "int": "int", "ptr": "ptr", "str": "str", "char": "char", "bool": "bool", "array": "array"}.get(k)
        if n is None:
            n = tystr(s).split("<")[0]
        return n + "::" + (r.method or p.split("::")[-1])
    # strip generic arguments
    out, d = "", 0
    for ch in p:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out += ch
    return re.sub(r"::::", "::", out).strip(":")
