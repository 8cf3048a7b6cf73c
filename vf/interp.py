"""Path-sensitive value-flow analysis of the exported MIR.

Abstract interpretation with trace partitioning: every control-flow path of a function is described by the
conditions it depends on and by the values (terms over the arguments) it returns and writes. Loops are
summarised by a transition relation over the slots they change (with closed forms for counters and for
appended sequences); nothing is executed and no inputs are chosen.
"""
import hashlib
import sys

import terms as T
from ir import cfg, succs, Ty
from names import std_name, LOCAL, crate_of
from terms import (mk, I, B, Str, TRUE, FALSE, UNIT, adt, tup, fld, app, add, sub, mul, scale, const_of, lst, cat, subst, eq, le,
                   lt, le0, eq0, neg, conj, disj, fields_of)

sys.setrecursionlimit(20000)

OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"


MAX_UNROLL = 6


class Abort(Exception):
    """the analysis gives no answer for this function"""


class Diverge(Exception):
    """the path panics"""


class Exit(Exception):
    """the process ends"""

    def __init__(self, code):
        self.code = code


class Dead(Exception):
    """the path is infeasible"""


class Continue(Exception):
    """the rest of a loop iteration is skipped (an element was filtered out)"""


def some(x):
    return adt(OPT, "Some", [("0", x)])


NONE = adt(OPT, "None", [])


def ok(x):
    return adt(RES, "Ok", [("0", x)])


def err(x):
    return adt(RES, "Err", [("0", x)])


OK_UNIT = ok(UNIT)

_sk = {}


def skey(t):
    """content hash: independent of the order in which terms were made"""
    if isinstance(t, T.Term):
        r = _sk.get(t)
        if r is None:
            st = [t]
            while st:
                x = st[-1]
                if x in _sk:
                    st.pop()
                    continue
                need = [s for s in _direct(x.args) if s not in _sk]
                if need:
                    st.extend(need)
                    continue
                _sk[x] = hashlib.md5(("%s(%s)" % (x.op, ",".join(skey(a) for a in x.args))).encode()).hexdigest()
                st.pop()
            r = _sk[t]
        return r
    if isinstance(t, tuple):
        return "(" + ",".join(skey(x) for x in t) + ")"
    return repr(t)


def _direct(args):
    out = []
    for a in args:
        if isinstance(a, T.Term):
            out.append(a)
        elif isinstance(a, tuple):
            out.extend(_direct(a))
    return out


class State:
    __slots__ = ("cells", "facts", "conds", "nframe", "nalloc", "ovf")

    def copy(self):
        s = State()
        s.cells = dict(self.cells)
        s.facts = self.facts.copy()
        s.conds = list(self.conds)
        s.nframe, s.nalloc = self.nframe, self.nalloc
        s.ovf = list(self.ovf)
        return s


class Explorer:
    __slots__ = ("prefix", "taken", "pending", "ctx", "loops")

    def __init__(self, prefix, ctx):
        self.prefix, self.taken, self.pending, self.ctx, self.loops = prefix, [], [], ctx, 0

    def choose(self, n):
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
            for j in range(n - 1, 0, -1):
                self.pending.append(tuple(self.taken) + (j,))
        self.taken.append(c)
        return c


class Frame:
    __slots__ = ("fn", "body", "no", "env", "depth", "parent")


class Outcome:
    __slots__ = ("conds", "kind", "value", "posts", "effects", "ovf", "facts")


TRANSPARENT_PATHS = ("alloc::boxed::Box", "alloc::rcs::arc::Arc", "alloc::rcs::rc::Rc", "core::mem::manually_drop::ManuallyDrop",
                     "core::mem::maybe_uninit::MaybeUninit", "core::mem::maybe_dangling::MaybeDangling", "core::ptr::unique::Unique",
                     "core::ptr::non_null::NonNull", "alloc::boxed::BoxRaw", "core::cell::UnsafeCell", "core::pin::Pin",
                     "alloc::boxed::raw::BoxRaw", "core::num::wrapping::Wrapping", "core::cmp::Reverse")


def is_transparent(ty):
    if ty[0] != "adt":
        return False
    k = ty[1]
    if k in TRANSPARENT_PATHS:
        return True
    n = k.split("::")[-1]
    return k.split("::")[0] in ("core", "alloc", "std") and n in ("Box", "Arc", "Rc", "ManuallyDrop", "MaybeUninit", "MaybeDangling", "Unique", "NonNull", "BoxRaw",
                                                               "UnsafeCell", "Pin")


SIGNED = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}


def signed(v, ty):
    """the value of a pattern, which is given by its bits"""
    n = SIGNED.get(ty[1]) if ty[0] == "int" else None
    return v - (1 << n) if n and v >> (n - 1) & 1 else v


class Interp:
    def __init__(self, names, cutset, universe, opts=None):
        self.N = names
        self.P = names.P
        self.cutset = cutset          # canonical names of functions that are not looked into
        self.universe = universe
        self.opts = opts or {}
        self.max_paths = self.opts.get("max_paths", 1500)
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 400000)
        self.loopcache = {}
        self.unroll = {}
        self.live = {}
        self.level = 0
        self.stack = []
        self.used = set()             # functions looked into
        self.cuts = []                # functions cut
        self.frames = {}              # number -> body, types
        self.consts = {}
        import models
        self.models = models

    # ------------------------------------------------------------------ state helpers
    def fresh_facts(self):
        f = T.Facts(self.universe)
        return f

    def norm(self, t):
        return self.st.facts.norm(t)

    def branch(self, c):
        if c.op == "bool":
            return c.args[0]
        c = self.norm_cond(c)
        if c.op == "bool":
            return c.args[0]
        if c.op == "and":
            for x in c.args:
                if not self.branch(x):
                    return False
            return True
        if c.op == "not" and c.args[0].op == "and":
            return not self.branch(c.args[0])
        d = self.st.facts.decide(c)
        if d is not None:
            return d
        v = self.ex.choose(2) == 0
        self.assume(c, v)
        return v

    def assume(self, c, v=True):
        self.st.facts.add(c, v)
        self.st.conds.append(c if v else neg(c))
        if self.st.facts.bottom:
            raise Dead()

    def norm_cond(self, c):
        return self.norm(c) if c.op != "bool" else c

    def decide(self, c):
        c = self.norm_cond(c)
        if c.op == "bool":
            return c.args[0]
        return self.st.facts.decide(c)

    # ------------------------------------------------------------------ types
    def tsub(self, t, env):
        if not env or t is None:
            return t
        k = t[0]
        if k == "param":
            return env.get(t[1], t)
        if k == "adt":
            return Ty((k, t[1], tuple(self.tsub(a, env) for a in t[2]), t[3]))
        if k in ("ref", "ptr"):
            return Ty((k, t[1], self.tsub(t[2], env)))
        if k == "tuple":
            return Ty((k, tuple(self.tsub(a, env) for a in t[1])))
        if k == "slice":
            return Ty((k, self.tsub(t[1], env)))
        if k == "array":
            return Ty((k, self.tsub(t[1], env), t[2]))
        if k == "closure":
            return Ty((k, t[1], tuple(self.tsub(a, env) for a in t[2]), tuple(self.tsub(a, env) for a in t[3])))
        return t

    def vname(self, ty, v):
        a = self.P.adts.get(ty[1])
        if a is None:
            if ty[1] == OPT:
                return ("None", "Some")[v]
            raise Abort("unknown type %s" % ty[1])
        return a.variants[v][0] if a.kind == "enum" else ""

    def vfields(self, ty, v):
        """[(name, type)] of a variant"""
        k = ty[0]
        if k == "tuple":
            return [(str(i), t) for i, t in enumerate(ty[1])]
        if k == "closure":
            return [("u%d" % i, t) for i, t in enumerate(ty[2])]
        if k == "adt":
            a = self.P.adts.get(ty[1])
            if a is None:
                raise Abort("unknown type %s" % ty[1])
            if a.kind == "enum" or a.variants:
                if v >= len(a.variants):
                    raise Abort("unknown variant of %s" % ty[1])
                return [(f[0], f[1]) for f in a.variants[v][2]]
        raise Abort("fields of %s" % (ty,))

    def step(self, ty, v, i, fty):
        """path step for field i"""
        if ty[0] == "adt" and is_transparent(ty):
            return None
        fs = self.vfields(ty, v)
        vn = self.vname(ty, v) if ty[0] == "adt" else ""
        if i >= len(fs):
            raise Abort("field")
        return ("f", vn, fs[i][0], len(fs), fty, self.tykey(ty), tuple(f[0] for f in fs))

    def tykey(self, ty):
        if ty[0] == "adt":
            return self.N.ckey(ty[1])
        if ty[0] == "closure":
            f = self.P.fns.get(ty[1])
            return self.closure_key(f, ty[1])
        return "tuple"

    def closure_key(self, f, other):
        """closures with different code are different values"""
        if f is None:
            return "closure:" + other
        c = self.N.cid(f)
        return "closure:%s#%s" % (c, self.N.fp.get(c, "")[:12])

    # ------------------------------------------------------------------ cells, paths
    def get_path(self, v, path):
        for s in path:
            if s[0] == "f":
                v = self.fld(v, s[1], s[2], s[3], s[4])
            else:
                v = self.at(v, s[1], s[2] if len(s) > 2 else None)
        return v

    def fld(self, v, vn, name, n, ty):
        if v.op == "adt":
            f = fields_of(v)
            if name in f:
                return f[name]
            raise Abort("field %s of %s" % (name, v.args[0]))
        return fld(v, vn, name, n, ty)

    def set_path(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s[0] == "f":
            if v is None or v.op != "adt":
                old = v
                fs = []
                for nm in s[6]:
                    if old is None:
                        fs.append((nm, mk("undef")))
                    else:
                        fs.append((nm, fld(old, s[1], nm, s[3], s[4] if nm == s[2] else self.fty(s, nm))))
                v = mk("adt", s[5], s[1], tuple(fs))
            out = []
            for nm, y in v.args[2]:
                out.append((nm, self.set_path(y, path[1:], x) if nm == s[2] else y))
            return adt(v.args[0], v.args[1], out)
        idx = s[1]
        if len(path) > 1:
            x = self.set_path(self.at(v, idx, s[2] if len(s) > 2 else None), path[1:], x)
        return self.update(v, idx, x)

    def fty(self, s, nm):
        a = self.N.adt_by_ckey.get(s[5])
        if a is not None:
            for vn, _, fs in a.variants:
                if (vn if a.kind == "enum" else "") == s[1]:
                    for f in fs:
                        if f[0] == nm:
                            return f[1]
        return None

    def read_cell(self, c):
        v = self.st.cells.get(c)
        if v is None:
            if c[0] == "h":
                return lst()
            raise Abort("read of an uninitialised place %s" % (c,))
        return v

    def deref(self, v):
        """the value a reference refers to"""
        while v.op == "ref":
            v = self.get_path(self.read_cell(v.args[0]), v.args[1])
        return v

    def deref1(self, v):
        if v.op == "ref":
            return self.get_path(self.read_cell(v.args[0]), v.args[1])
        return v

    def write_ref(self, r, x):
        if r.op != "ref":
            raise Abort("write through an unknown reference")
        c, p = r.args
        self.st.cells[c] = self.set_path(self.st.cells.get(c), p, x) if p else x

    def new_cell(self, v):
        self.st.nframe += 1
        c = ("t", self.st.nframe)
        self.st.cells[c] = v
        return c

    # ------------------------------------------------------------------ lists
    def len(self, xs):
        if xs.op == "list":
            r = I(0)
            for s in xs.args:
                r = add(r, I(1) if s[0] == "e" else self.len(s[1]) if s[0] == "s" else s[1].args[0])
            return r
        if xs.op == "upd":
            return self.len(xs.args[0])
        if xs.op == "rep":
            return xs.args[1]
        if xs.op == "bytes":
            return I(len(xs.args[0]))
        if xs.op == "mem":
            return xs.args[1]
        if xs.op == "slice":
            return sub(xs.args[2], xs.args[1])
        if xs.op == "str":
            return I(len(xs.args[0].encode()))
        return mk("len", xs, ty=Ty(("int", "usize")))

    def at(self, xs, i, ty=None):
        if xs.op == "list":
            ci = const_of(i)
            if ci is not None:
                for n, s in enumerate(xs.args):
                    if s[0] != "e":
                        break
                    if n == ci:
                        return s[1]
            pos = I(0)
            for s in xs.args:
                if s[0] == "e":
                    if self.decide(eq0(sub(i, pos))) is True:
                        return s[1]
                    pos = add(pos, I(1))
                elif s[0] == "f":
                    n = s[1].args[0]
                    if self.decide(lt(i, add(pos, n))) is True and self.decide(le(pos, i)) is True:
                        return open_fam(s[1], sub(i, pos))
                    pos = add(pos, n)
                else:
                    n = self.len(s[1])
                    if self.decide(lt(i, add(pos, n))) is True and self.decide(le(pos, i)) is True:
                        return self.at(s[1], sub(i, pos), ty)
                    pos = add(pos, n)
        if xs.op == "rep":
            return xs.args[0]
        if xs.op == "upd":
            d = self.decide(eq0(sub(i, xs.args[1])))
            if d is True:
                return xs.args[2]
            if d is False:
                return self.at(xs.args[0], i, ty)
        if xs.op == "slice":
            return self.at(xs.args[0], add(i, xs.args[1]), ty)
        if xs.op == "mem":
            return self.load(xs.args[0], xs.args[2], i)
        return mk("at", xs, i, ty=ty)

    def update(self, xs, i, x):
        if xs is None:
            raise Abort("write to an uninitialised array")
        if xs.op == "list":
            ci = const_of(i)
            if ci is not None and all(s[0] == "e" for s in xs.args) and 0 <= ci < len(xs.args):
                a = list(xs.args)
                a[ci] = ("e", x)
                return lst(*a)
        if xs.op == "upd":
            d = self.decide(eq0(sub(i, xs.args[1])))
            if d is True:
                return mk("upd", xs.args[0], i, x, ty=xs.ty)
        return mk("upd", xs, i, x, ty=xs.ty)

    # ------------------------------------------------------------------ raw memory
    def load(self, ptr, heap, i):
        return mk("load", ptr, heap, i, ty=Ty(("int", "u8")))

    def heap_cell(self, base):
        return ("h", base)

    def ptr_parts(self, p):
        if p.op == "ptr":
            return p.args[0], p.args[1]
        return p, I(0)

    def mem_read(self, p):
        base, off = self.ptr_parts(p)
        h = self.st.cells.get(self.heap_cell(base))
        if h is not None and h.op == "list":
            segs = list(h.args)
            while segs:
                s = segs[-1]
                if s[0] != "e" or s[1].op != "adt":
                    break
                o, v = (x for _, x in s[1].args[2])
                d = self.decide(eq0(sub(o, off)))
                if d is True:
                    return v
                if d is False:
                    segs.pop()
                    continue
                break
            h = lst(*segs) if segs else None
        if h is None:
            if base.op == "alloc":
                return mk("uninit", off)
            return mk("load", base, off, ty=Ty(("int", "u8")))
        return mk("loadm", base if base.op != "alloc" else mk("bool", True), off, h, ty=Ty(("int", "u8")))

    def mem_write(self, p, v):
        base, off = self.ptr_parts(p)
        c = self.heap_cell(base)
        h = self.st.cells.get(c)
        segs = list(h.args) if h is not None and h.op == "list" else [("s", h)] if h is not None else []
        # stores to different places are kept in a canonical order
        n = len(segs)
        key = skey(off)
        while n > 0:
            s = segs[n - 1]
            if s[0] != "e" or s[1].op != "adt" or len(s[1].args[2]) != 2:
                break
            o = s[1].args[2][0][1]
            d = self.decide(eq0(sub(o, off)))
            if d is True:
                segs[n - 1] = ("e", tup(off, v))
                self.st.cells[c] = mk("list", *segs)
                return
            if d is False and skey(o) > key:
                n -= 1
                continue
            break
        segs.insert(n, ("e", tup(off, v)))
        self.st.cells[c] = mk("list", *segs)

    # ------------------------------------------------------------------ running functions
    def analyse(self, fn, tyenv=None):
        """All outcomes of a function on symbolic arguments."""
        body = fn.body
        tyenv = tyenv or {}
        outs = []
        stack = [()]
        n = 0
        while stack:
            prefix = stack.pop()
            n += 1
            if n > self.max_paths:
                raise Abort("more than %d paths" % self.max_paths)
            ex = Explorer(prefix, ("root",))
            self.ex = ex
            st = State()
            st.cells, st.conds, st.nframe, st.nalloc, st.ovf = {}, [], 0, 0, []
            st.facts = self.fresh_facts()
            self.st = st
            self.level = 0
            self.stack = []
            o = Outcome()
            try:
                args, muts = self.sym_args(fn, body, tyenv)
                v = self.run_fn(fn, args, tyenv, root=True)
                rt = self.tsub(body.locals[0], tyenv)
                if rt[0] == "bool" and v.op != "bool":
                    v = B(self.branch(v))
                o.kind = "ret"
                o.value = self.observe(v)
                o.posts = tuple((i, self.observe(self.deref(mk("ref", c, ())))) for i, c in muts)
                o.effects = self.effects()
            except Diverge:
                o.kind, o.value, o.posts, o.effects = "panic", None, (), ()
            except Exit as e:
                o.kind, o.value, o.posts, o.effects = "exit", e.code, (), self.effects()
            except Dead:
                o = None
            if o is not None:
                o.conds = list(self.st.conds)
                o.ovf = list(self.st.ovf)
                o.facts = self.st.facts
                outs.append(o)
            stack.extend(ex.pending)
        return outs

    def sym_args(self, fn, body, tyenv):
        args, muts = [], []
        for i in range(body.argc):
            ty = self.tsub(body.locals[1 + i], tyenv)
            s = None
            if fn.kind == "closure" and i == 0:
                # the captured environment is symbolic as well
                base = ty
                while base[0] in ("ref", "ptr"):
                    base = base[2]
                key = self.tykey(base)
                fs = []
                for n, (nm, t) in enumerate(self.vfields(base, 0)):
                    x, c = self.sym("a0." + nm, t)
                    if c is not None:
                        muts.append(("0." + nm, c))
                    fs.append((nm, x))
                s = mk("adt", key, "", tuple(fs))
                if ty[0] == "ref" and ty[1]:
                    s = mk("ref", self.new_cell(s), ())
                args.append(s)
                continue
            s, c = self.sym("a%d" % i, ty)
            if c is not None:
                muts.append((str(i), c))
            args.append(s)
        return args, muts

    def sym(self, name, ty):
        if ty[0] == "ref" and ty[1]:
            c = self.new_cell(self.sym_value(name, ty[2]))
            return mk("ref", c, ()), c
        return self.sym_value(name, ty), None

    def sym_value(self, name, ty):
        while ty[0] == "ref" or (ty[0] == "adt" and is_transparent(ty) and ty[2]):
            ty = ty[2] if ty[0] == "ref" else ty[2][0]
        if ty[0] == "adt" and ty[1] == "core::fmt::Formatter":
            return mk("adt", "Formatter", "", (("buf", Str("")),))
        if ty[0] == "tuple":
            if not ty[1]:
                return UNIT
        if ty[0] == "adt":
            a = self.P.adts.get(ty[1])
            if a is not None and a.kind == "struct" and crate_of(a.key) in LOCAL and len(a.variants) == 1 and not a.variants[0][2]:
                return adt(self.tykey(ty), "", [])
        # the type is part of the name: terms are shared between functions
        return mk("sym", name, self.N.ty(ty), ty=ty)

    def effects(self):
        out = []
        for c, v in self.st.cells.items():
            if c[0] == "io":
                out.append(("io", self.observe(v)))
            elif c[0] == "h" and c[1].op != "alloc":
                out.append((c[1], self.observe(v)))
        return tuple(sorted(out, key=lambda x: skey(x)))

    def observe(self, v):
        """a value together with the memory it points to"""
        memo = {}

        def f(t):
            if t.op == "ref":
                return self.observe(self.deref(t))
            if t.op == "ptr" or t.op == "alloc":
                base, off = self.ptr_parts(t)
                h = self.st.cells.get(self.heap_cell(base))
                if base.op == "alloc":
                    return mk("ptrv", base.args[1], self.observe(off), self.observe(h) if h is not None else lst())
                return None
            return None
        return subst(v, f, memo)

    def lookup(self, key):
        return self.P.fns.get(key)

    def small(self, fn):
        b = fn.body
        n = sum(1 for x in b.blocks if x)
        return n <= 14 and not cfg(b).loops

    def should_cut(self, fn):
        c = self.N.cid(fn)
        if any(f is fn for f in self.stack):
            return True
        if len(self.stack) > 40:
            raise Abort("call depth")
        return c in self.cutset

    def call_local(self, fn, args, env, argtys=None, dty=None):
        """args: terms"""
        if self.should_cut(fn):
            return self.call_cut(fn, args, env, dty)
        return self.run_fn(fn, args, env)

    def call_cut(self, fn, args, env, dty=None):
        c = self.N.cid(fn)
        self.cuts.append(c)
        gen = tuple(self.N.ty(env[g]) for g in fn.generics if g in env)
        return self.opaque("call", c + ("<%s>" % ",".join(gen) if gen else ""), args, [self.tsub(t, env) for t in fn.body.locals[1:1 + fn.body.argc]],
                           self.tsub(fn.body.locals[0], env))

    def opaque(self, op, name, args, tys, rty):
        """an uninterpreted, deterministic function: its result and what it leaves behind every `&mut` argument"""
        vals = []
        mem = []
        for i, a in enumerate(args):
            v = self.deref(a)
            vals.append(self.observe(v))
            t = tys[i] if tys is not None and i < len(tys) else None
            for b in self.raw_ptrs(v, strip_refs(t) if t is None or t[0] != "ref" or not t[1] else strip_refs(t[2])):
                b = self.ptr_parts(b)[0]
                h = self.st.cells.get(self.heap_cell(b))
                if h is not None and b.op != "alloc":
                    x = mk("memory", b, self.observe(h))
                    mem.append(x)
                    if t is None or t[0] != "ref" or not t[1]:
                        vals.append(x)
        vals = tuple(vals)
        for i, a in enumerate(args):
            if a.op == "ref" and (tys is None or i >= len(tys) or tys[i] is None or (tys[i][0] == "ref" and tys[i][1]) or tys[i][0] == "ptr"):
                old = self.deref1(a)
                bases = self.raw_ptrs(old, strip_refs(tys[i][2] if tys[i] is not None and tys[i][0] == "ref" else tys[i])) if tys is not None and i < len(tys) else []
                if bases:
                    # the object keeps its allocation; the callee writes into it
                    for n, b in enumerate(bases):
                        b = self.ptr_parts(b)[0]
                        c = self.heap_cell(b)
                        h = self.st.cells.get(c)
                        self.st.cells[c] = lst(*((("s", h),) if h is not None else ()), ("e", mk("post", name, (i, n), *vals)))
                    continue
                self.write_ref(a, mk("post", name, i, *vals, ty=old.ty))
        if rty is not None and rty[0] == "tuple" and not rty[1]:
            return UNIT
        if rty is not None and rty[0] == "never":
            raise Diverge()
        vals += tuple(x for x in mem if x not in vals)
        return mk(op, name, *vals, ty=strip_refs(rty))

    def raw_ptrs(self, v, ty):
        """the raw pointers an object of a local type holds"""
        if ty is None or ty[0] != "adt" or crate_of(ty[1]) not in LOCAL:
            return []
        a = self.P.adts.get(ty[1])
        if a is None or a.kind != "struct":
            return []
        out = []
        for f in a.variants[0][2]:
            ft = f[1]
            if ft[0] == "adt" and ft[1].split("::")[-1] in ("Arc", "Rc"):
                continue
            inner = strip_refs(ft)
            if inner[0] == "ptr":
                out.append(self.fld(v, "", f[0], len(a.variants[0][2]), inner))
            elif inner[0] == "adt":
                out += self.raw_ptrs(self.fld(v, "", f[0], len(a.variants[0][2]), inner), inner)
        return out

    def run_fn(self, fn, args, env, root=False):
        self.used.add(self.N.cid(fn))
        body = fn.body
        fr = Frame()
        fr.fn, fr.body, fr.env = fn, body, env
        self.st.nframe += 1
        fr.no = self.st.nframe
        self.frames[fr.no] = (body, env)
        if body.argc != len(args):
            raise Abort("argument count of %s" % fn.path)
        for i, a in enumerate(args):
            self.st.cells[("l", fr.no, 1 + i)] = a
        self.stack.append(fn)
        try:
            r = self.run_blocks(fr, 0, None, None)
        finally:
            self.stack.pop()
        assert r == "return"
        rt = body.locals[0]
        if rt[0] == "tuple" and not rt[1]:
            v = UNIT
        else:
            v = self.read_cell(("l", fr.no, 0))
        # the frame is gone; what is still referenced must live elsewhere
        return v

    # ------------------------------------------------------------------ blocks
    def run_blocks(self, fr, bb, header, blocks, first=True):
        body = fr.body
        loops = cfg(body).loops
        while True:
            self.steps += 1
            if self.steps > self.max_steps:
                raise Abort("too many steps")
            if header is not None:
                if bb == header and not first:
                    return ("back",)
                if bb not in blocks:
                    return ("exit", bb)
            if bb in loops and not (first and bb == header):
                bb = self.mir_loop(fr, bb)
                first = False
                continue
            first = False
            bl = body.blocks[bb]
            for s in bl[0]:
                if s[0] == "=":
                    self.assign(fr, s[1], s[2])
                elif s[0] == "setd":
                    raise Abort("set discriminant")
                else:
                    pass
            t = bl[1]
            k = t[0]
            if k == "goto":
                bb = t[1]
            elif k == "switch":
                bb = self.switch(fr, t)
            elif k == "drop":
                self.models.drop(self, fr, t)
                bb = t[2]
            elif k == "call":
                bb = self.call(fr, t)
            elif k == "assert":
                self.do_assert(fr, t)
                bb = t[4]
            elif k == "return":
                return "return"
            elif k == "unreachable":
                raise Dead()
            else:
                raise Abort("terminator " + k)

    def switch(self, fr, t):
        v = self.operand(fr, t[1])
        if v.op == "discrv":
            x, key, tbl = v.args
            alts = dict(t[2])
            last = None
            for d, b in t[2]:
                name = dict(tbl).get(d)
                if name is None:
                    continue
                if self.branch(self.is_(x, key, name)):
                    return b
            return t[3]
        ty = t[4]
        if ty[0] == "bool":
            c = self.branch(v)
            val = 1 if c else 0
            for d, b in t[2]:
                if d == val:
                    return b
            return t[3]
        for d, b in t[2]:
            if self.branch(eq0(sub(v, I(signed(d, ty))))):
                return b
        return t[3]

    def is_(self, x, key, name):
        if x.op == "adt":
            return B(x.args[1] == name)
        return mk("is", x, key, name)

    def do_assert(self, fr, t):
        kind = t[3][0]
        if kind == "other":
            return
        if kind == "overflow_neg" and self.opts.get("strict"):
            self.note_overflow(self.op_ty(fr, t[3][1]), scale(self.operand(fr, t[3][1]), -1))
            return
        if kind.startswith("overflow"):
            return
        c = self.operand(fr, t[1])
        if self.branch(c) != t[2]:
            raise Diverge()

    # ------------------------------------------------------------------ places
    def place(self, fr, p):
        """('cell', cell, path, type) or ('val', value, type)"""
        ty = self.tsub(fr.body.locals[p[0]], fr.env)
        cur = ("cell", ("l", fr.no, p[0]), ())
        var = 0
        for e in p[1]:
            k = e[0]
            if k == "*":
                v = self.pl_read(cur)
                inner = ty[2] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else None)
                if inner is None:
                    raise Abort("deref of %s" % (ty,))
                if v.op == "ref":
                    cur = ("cell", v.args[0], v.args[1])
                elif ty[0] == "ptr" and v.op in ("ptr", "alloc"):
                    cur = ("mem", v)
                else:
                    cur = ("val", v)
                ty = inner
                var = 0
            elif k == "f":
                fty = self.tsub(e[2], fr.env)
                s = self.step(ty, var, e[1], fty)
                if s is not None:
                    if cur[0] == "cell":
                        cur = ("cell", cur[1], cur[2] + (s,))
                    elif cur[0] == "val":
                        cur = ("val", self.fld(cur[1], s[1], s[2], s[3], strip_refs(fty)))
                    else:
                        raise Abort("field of raw memory")
                ty = fty
                var = 0
            elif k == "d":
                var = e[1]
            elif k == "i" or k == "c":
                ety = ty[1] if ty[0] in ("array", "slice") else None
                if k == "i":
                    idx = self.read_cell(("l", fr.no, e[1]))
                else:
                    if e[3]:
                        base = self.pl_read(cur)
                        idx = sub(self.len(base), I(e[1]))
                    else:
                        idx = I(e[1])
                if cur[0] == "cell":
                    cur = ("cell", cur[1], cur[2] + (("i", idx, strip_refs(ety)),))
                elif cur[0] == "val":
                    cur = ("val", self.at(cur[1], idx, strip_refs(ety)))
                else:
                    raise Abort("index of raw memory")
                ty = ety
                var = 0
            else:
                if k == "s":
                    base = self.pl_read(cur)
                    lo, hi, fe = e[1], e[2], e[3]
                    end = sub(self.len(base), I(hi)) if fe else I(hi)
                    cur = ("val", self.slice(base, I(lo), end))
                    continue
                raise Abort("projection " + k)
        return cur, ty

    def slice(self, xs, lo, hi):
        if const_of(lo) == 0 and self.decide(eq0(sub(hi, self.len(xs)))) is True:
            return xs
        if xs.op == "list" and all(s[0] == "e" for s in xs.args) and const_of(lo) is not None and const_of(hi) is not None:
            return lst(*xs.args[const_of(lo):const_of(hi)])
        return mk("slice", xs, lo, hi)

    def pl_read(self, cur):
        if cur[0] == "cell":
            c, path = cur[1], cur[2]
            v = self.st.cells.get(c)
            if v is None:
                raise Abort("read of an uninitialised local %s" % (c,))
            for s in path:
                if s[0] == "f":
                    v = self.fld(v, s[1], s[2], s[3], strip_refs(s[4]))
                else:
                    v = self.at(v, s[1], s[2])
            return v
        if cur[0] == "mem":
            return self.mem_read(cur[1])
        return cur[1]

    def operand(self, fr, o):
        if o[0] == "place":
            cur, ty = self.place(fr, o[1])
            return self.pl_read(cur)
        if o[0] == "const":
            return self.const(fr, o[1])
        if o[0] == "rt":
            # run-time checks that are on in debug builds
            return TRUE
        raise Abort("operand")

    def op_ty(self, fr, o):
        if o[0] == "place":
            return self.place_ty(fr, o[1])
        if o[0] == "const":
            return self.tsub(o[1]["ty"], fr.env)
        return None

    def place_ty(self, fr, p):
        ty = self.tsub(fr.body.locals[p[0]], fr.env)
        for e in p[1]:
            if e[0] == "*":
                ty = ty[2] if ty[0] in ("ref", "ptr") else (ty[2][0] if ty[0] == "adt" and ty[2] else None)
            elif e[0] == "f":
                ty = self.tsub(e[2], fr.env)
            elif e[0] in ("i", "c"):
                ty = ty[1] if ty and ty[0] in ("array", "slice") else None
            if ty is None:
                return None
        return ty

    def const(self, fr, c):
        ty = self.tsub(c["ty"], fr.env)
        if "int" in c:
            return I(int(c["int"]))
        if "bool" in c:
            return B(bool(c["bool"]))
        if "char" in c:
            x = c["char"]
            return I(ord(x) if isinstance(x, str) else int(x))
        if "str" in c:
            return Str(c["str"])
        if "bytes" in c:
            b = c["bytes"]
            return mk("bytes", bytes(b) if not isinstance(b, str) else b)
        if "promoted" in c:
            fn = fr.fn
            key = (fn.key, c["promoted"])
            b = fn.promoted[c["promoted"]]
            sub_ = Frame()
            sub_.fn, sub_.body, sub_.env = fn, b, fr.env
            self.st.nframe += 1
            sub_.no = self.st.nframe
            self.frames[sub_.no] = (b, fr.env)
            self.run_blocks(sub_, 0, None, None)
            return self.deref(self.read_cell(("l", sub_.no, 0)))
        if ty[0] == "fndef":
            return self.fn_value(ty, fr.env)
        if "static" in c:
            f = self.P.fns.get(c["static"])
            return mk("app", "static:" + (self.N.cid(f) if f else str(c["static"])), ty=strip_refs(ty))
        if "ref" in c:
            return self.const(fr, c["ref"])
        if "agg" in c:
            vals = [self.const(fr, x) for x in c["agg"]]
            if ty[0] in ("array", "slice"):
                return lst(*(("e", v) for v in vals))
            if ty[0] == "adt" and is_transparent(ty):
                return vals[0] if vals else UNIT
            if ty[0] == "adt" and ty[1].endswith("::Vec"):
                return lst()
            if ty[0] == "adt" and ty[1].endswith("String"):
                return Str("")
            v = int(c.get("variant") or 0)
            fs = self.vfields(ty, v)
            return adt(self.tykey(ty), self.vname(ty, v) if ty[0] == "adt" else "", [(n, x) for (n, _), x in zip(fs, vals)])
        if "zst" in c:
            if ty[0] == "closure":
                return adt(self.tykey(ty), "", [])
            if ty[0] == "adt":
                return adt(self.tykey(ty), "", [])
            if ty[0] == "tuple":
                return UNIT
            if ty[0] == "array":
                return lst()
        if c.get("opaque") is not None:
            return mk("app", "const:%s:%s" % (c.get("opaque"), self.N.ty(ty)), ty=strip_refs(ty), taint=False)
        return T.unknown("const:%s" % self.N.ty(ty), ty=strip_refs(ty))

    def fn_value(self, ty, env):
        r = ty[1]
        name = self.N.fnref(r)
        t = mk("fn", name)
        FNREFS[(id(self), t)] = (r, dict(env))
        return t

    def assign(self, fr, p, rv):
        k = rv[0]
        if k == "ref":
            cur, ty = self.place(fr, rv[2])
            if rv[1] == "mut":
                if cur[0] == "cell":
                    v = mk("ref", cur[1], cur[2])
                elif cur[0] == "mem":
                    v = cur[1]
                else:
                    v = cur[1]
            else:
                if cur[0] == "cell" and cur[1] not in self.st.cells:
                    # a borrow of something not yet initialised
                    v = mk("ref", cur[1], cur[2])
                else:
                    v = self.pl_read(cur)
            return self.write(fr, p, v)
        if k == "rawptr":
            cur, ty = self.place(fr, rv[2])
            if cur[0] == "cell":
                v = mk("ref", cur[1], cur[2])
            else:
                v = cur[1]
            return self.write(fr, p, v)
        self.write(fr, p, self.rvalue(fr, rv, p))

    def write(self, fr, p, v):
        if not p[1]:
            self.st.cells[("l", fr.no, p[0])] = v
            return
        cur, ty = self.place(fr, p)
        if cur[0] == "cell":
            c = cur[1]
            self.st.cells[c] = self.set_path(self.st.cells.get(c), cur[2], v)
        elif cur[0] == "mem":
            self.mem_write(cur[1], v)
        else:
            raise Abort("write to a value")

    def rvalue(self, fr, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(fr, rv[1])
        if k == "repeat":
            n = rv[2]
            try:
                n = int(n)
            except (TypeError, ValueError):
                raise Abort("array length")
            return mk("rep", self.operand(fr, rv[1]), I(n))
        if k == "cast":
            return self.cast(fr, rv[1], self.operand(fr, rv[2]), self.op_ty(fr, rv[2]), self.tsub(rv[3], fr.env))
        if k == "bin":
            return self.binop(fr, rv[1], self.operand(fr, rv[2]), self.operand(fr, rv[3]), self.op_ty(fr, rv[2]))
        if k == "un":
            v = self.operand(fr, rv[2])
            if rv[1] == "Not":
                t = self.op_ty(fr, rv[2])
                if t and t[0] == "bool":
                    return neg(v)
                return mk("bitnot", v, ty=t)
            if rv[1] == "Neg":
                return scale(v, -1)
            if rv[1] == "PtrMetadata":
                return self.len(self.deref(v))
            raise Abort("unary " + str(rv[1]))
        if k == "discr":
            cur, ty = self.place(fr, rv[1])
            v = self.deref(self.pl_read(cur)) if False else self.pl_read(cur)
            a = self.P.adts.get(ty[1]) if ty[0] == "adt" else None
            if a is None:
                raise Abort("discriminant of %s" % (ty,))
            tbl = tuple((d, n) for n, d, _ in a.variants)
            key = self.tykey(ty)
            if v.op == "adt":
                for d, n in tbl:
                    if n == v.args[1]:
                        return I(d)
                raise Abort("discriminant")
            return mk("discrv", v, key, tbl)
        if k == "agg":
            vals = [self.operand(fr, o) for o in rv[3]]
            kind = rv[1]
            if kind == "adt":
                ty, v = rv[2]
                ty = self.tsub(ty, fr.env)
                if is_transparent(ty):
                    return vals[-1] if vals else UNIT
                fs = self.vfields(ty, v)
                a = self.P.adts.get(ty[1])
                return adt(self.tykey(ty), a.variants[v][0] if a.kind == "enum" else "", [(n, x) for (n, _), x in zip(fs, vals)])
            if kind == "tuple":
                return tup(*vals)
            if kind == "array":
                return lst(*(("e", v) for v in vals))
            if kind == "closure":
                f = self.P.fns.get(rv[2])
                key = self.closure_key(f, rv[2])
                t = mk("adt", key, "", tuple(("u%d" % i, x) for i, x in enumerate(vals)))
                CLOSURES[(id(self), key)] = (f, dict(fr.env))
                return t
            if kind == "rawptr":
                return mk("fat", *vals)
            raise Abort("aggregate " + kind)
        raise Abort("rvalue %s" % (rv,))

    def cast(self, fr, kind, v, src, dst):
        if kind == "IntToInt" or kind == "IntToInt ":
            return self.int_cast(v, src, dst)
        if kind in ("PtrToPtr", "BoxDerefTransmute", "Unsize", "PointerCoercion") or "Unsize" in kind or "MutToConst" in kind or "ReifyFn" in kind or "ClosureFn" in kind or "ArrayToPointer" in kind:
            return v
        if kind == "Transmute" and dst[0] in ("ptr", "ref"):
            return v
        if kind == "Transmute" and dst[0] == "int" and src is not None and src[0] == "ptr":
            return mk("addr", ty=dst)
        if kind == "Subtype":
            return v
        if (kind.startswith("PointerExpose") or kind.startswith("PointerWithExposed")) and dst[0] == "int":
            b, o = self.ptr_parts(v)
            return mk("app", "ptr_addr", b, o, ty=dst)
        return T.unknown("cast:" + kind, self.observe(v), ty=dst)

    def int_cast(self, v, src, dst):
        if v.op == "discrv":
            x, key, tbl = v.args
            for d, n in tbl:
                if self.branch(self.is_(x, key, n)):
                    return I(d)
            raise Dead()
        if src is not None and src[0] == "bool":
            return I(1 if self.branch(v) else 0)
        if dst[0] == "char":
            return v
        if dst[0] != "int":
            return T.unknown("cast", v, ty=dst)
        lo, hi = T.INT_RANGES[dst[1]]
        if src is not None and src[0] in ("int", "char"):
            slo, shi = T.INT_RANGES["char" if src[0] == "char" else src[1]]
            if lo <= slo and shi <= hi:
                return v
        c = const_of(v)
        if c is not None:
            w = hi - lo + 1
            return I((c - lo) % w + lo)
        if self.decide(le(I(lo), v)) is True and self.decide(le(v, I(hi))) is True:
            return v
        return mk("cast", dst[1], v, ty=dst)

    def note_overflow(self, ty, v):
        if ty is None or ty[0] != "int":
            return
        lo, hi = T.INT_RANGES[ty[1]]
        if self.opts.get("strict"):
            # the result of arithmetic with one unknown number: a panic where it does not fit
            v = self.norm(v)
            if len(T.lin_parts(v)[1]) != 1:
                return
            if self.decide(le(I(lo), v)) is not True and not self.branch(le(I(lo), v)):
                raise Diverge()
            if hi < 2 ** 33 and self.decide(le(v, I(hi))) is not True and not self.branch(le(v, I(hi))):
                raise Diverge()
            return
        if hi > 2 ** 33:
            return
        if self.decide(le(I(lo), v)) is True and self.decide(le(v, I(hi))) is True:
            return
        self.st.ovf.append((ty[1], v))

    def binop(self, fr, op, a, b, ty):
        if op in ("AddWithOverflow", "SubWithOverflow", "MulWithOverflow"):
            r = self.arith(op[:3], a, b, ty)
            self.note_overflow(ty, r)
            return tup(r, FALSE)
        if op in ("Add", "Sub", "Mul", "AddUnchecked", "SubUnchecked", "MulUnchecked"):
            return self.arith(op[:3], a, b, ty)
        if op == "Div":
            return self.div(a, b, ty)
        if op == "Rem":
            return T.simp_rem(self.st.facts, self.norm(a), self.norm(b), ty)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(op, a, b, ty)
        if op in ("BitAnd", "BitOr", "BitXor") and ty is not None and ty[0] == "bool":
            if op == "BitAnd":
                return conj([a, b])
            if op == "BitOr":
                return disj([a, b])
            return neg(self.bool_eq(a, b))
        if op == "BitAnd" and const_of(b) is not None and const_of(a) is not None:
            return I(const_of(a) & const_of(b))
        if op in ("BitAnd", "BitOr", "BitXor"):
            x, y = sorted((a, b), key=skey)
            return mk("bit" + op[3:], x, y, ty=ty)
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if op.startswith("Shl") and const_of(b) is not None:
                return self.arith("Mul", a, I(2 ** const_of(b)), ty)
            return mk(op[:3], a, b, ty=ty)
        if op == "Cmp":
            return self.models.cmp_value(self, a, b)
        if op == "Offset":
            base, off = self.ptr_parts(a)
            return mk("ptr", base, add(off, b))
        raise Abort("binary " + op)

    def arith(self, op, a, b, ty):
        if op == "Add":
            return add(a, b)
        if op == "Sub":
            return sub(a, b)
        return mul(a, b)

    def div(self, a, b, ty):
        ca, cb = const_of(a), const_of(b)
        if cb == 1:
            return a
        if ca is not None and cb:
            q = abs(ca) // abs(cb)
            return I(q if (ca < 0) == (cb < 0) else -q)
        return mk("div", a, b, ty=ty)

    def bool_eq(self, a, b):
        if a.op == "bool":
            return b if a.args[0] else neg(b)
        if b.op == "bool":
            return a if b.args[0] else neg(a)
        if a is b:
            return TRUE
        # split
        x = self.branch(a)
        return b if x else neg(b)

    def compare(self, op, a, b, ty):
        if a.op == "discrv" or b.op == "discrv":
            if a.op != "discrv":
                a, b = b, a
            x, key, tbl = a.args
            if b.op == "discrv":
                y = b.args[0]
                if x is y:
                    return B(op in ("Eq", "Le", "Ge"))
                # split on the variant of one side
                for d, n in tbl:
                    if self.branch(self.is_(y, key, n)):
                        b = I(d)
                        break
            cb = const_of(b)
            n = dict(tbl).get(cb)
            if n is None or op not in ("Eq", "Ne"):
                raise Abort("comparison of discriminants")
            c = self.is_(x, key, n)
            return c if op == "Eq" else neg(c)
        if ty is not None and ty[0] == "bool":
            e = self.bool_eq(a, b) if op in ("Eq", "Ne") else None
            if e is None:
                raise Abort("ordering of booleans")
            return e if op == "Eq" else neg(e)
        if ty is not None and ty[0] == "ptr":
            e = mk("ptreq", *sorted((self.observe(a), self.observe(b)), key=skey))
            return e if op == "Eq" else neg(e)
        if op == "Eq":
            return eq0(sub(a, b))
        if op == "Ne":
            return neg(eq0(sub(a, b)))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        return le(b, a)

    # ------------------------------------------------------------------ calls
    def call(self, fr, t):
        fo = t[1]
        args = [self.operand(fr, a) for a in t[2]]
        tys = [self.op_ty(fr, a) for a in t[2]]
        dty = self.place_ty(fr, t[3])
        if fo[0] == "const" and fo[1]["ty"][0] == "fndef":
            r = fo[1]["ty"][1]
            v = self.call_ref(r, args, tys, dty, fr.env)
        else:
            f = self.operand(fr, fo)
            v = self.call_value(f, args, tys, dty)
        if t[4] < 0:
            raise Diverge()
        self.write(fr, t[3], v)
        return t[4]

    def call_ref(self, r, args, tys, dty, env):
        rargs = [self.tsub(a, env) for a in r.args]
        if r.res is not None:
            key, kargs = r.res[1], [self.tsub(a, env) for a in r.res[2]]
        else:
            key, kargs = r.key, rargs
        fn = self.P.fns.get(key)
        if fn is None and r.trait and rargs:
            fn, kargs = self.resolve_trait(r, rargs)
        if fn is not None and fn.kind in ("fn", "method"):
            m = self.models.local_model(self, fn, r, args, tys, rargs, dty)
            if m is not None:
                return m
            return self.call_local(fn, args, self.bind(fn, kargs), tys, dty)
        if fn is not None and fn.kind == "closure":
            return self.call_value(args[0], args[1:], tys[1:], dty, True)
        if key.endswith("::{constructor#0}") and crate_of(key) in LOCAL:
            # an enum variant or a struct used as a function
            k = key[:-len("::{constructor#0}")]
            for ak, vn in ((k.rsplit("::", 1)[0], k.rsplit("::", 1)[1]), (k, None)):
                a = self.P.adts.get(ak)
                if a is None:
                    continue
                v = next((i for i, x in enumerate(a.variants) if vn is None or x[0] == vn), None)
                if v is None:
                    continue
                ty = ("adt", ak, tuple(rargs))
                if is_transparent(ty):
                    break
                fs = self.vfields(ty, v)
                if len(fs) == len(args):
                    return adt(self.tykey(ty), a.variants[v][0] if a.kind == "enum" else "", [(n, x) for (n, _), x in zip(fs, args)])
        name = std_name(r)
        h = self.models.MODELS.get(name)
        if h is not None:
            v = h(self, Call(r, name, args, tys, rargs, dty, env))
            if v is not None:
                return v
        return self.models.default(self, Call(r, name, args, tys, rargs, dty, env))

    def bind(self, fn, kargs):
        env = {}
        g = list(fn.generics)
        if len(g) == len(kargs):
            for n, a in zip(g, kargs):
                env[n] = a
        return env

    def resolve_trait(self, r, rargs):
        self_ty = rargs[0]
        for t in (self_ty, strip_refs(self_ty)):
            for f in self.P.methods.get((r.trait, r.method), []):
                if f.selfty is None:
                    continue
                if f.selfty[0] == "adt" and t is not None and t[0] == "adt" and f.selfty[1] == t[1] and len(f.trait_args) <= max(1, len(rargs)):
                    okk = True
                    for a, b in zip(f.trait_args[1:], rargs[1:]):
                        if a != b and a[0] != "param" and b[0] != "param":
                            okk = False
                    if okk:
                        return f, []
        return None, []

    def call_value(self, f, args, tys, dty, tupled=False):
        """calls a function value; args already untupled or one tuple"""
        f = self.deref(f)
        if tupled and len(args) == 1 and f.op == "adt" and tys and tys[0] is not None and tys[0][0] == "tuple" and len(tys[0][1]) == 1:
            a = self.deref(args[0])
            args = [a.args[2][0][1] if a.op == "adt" else fld(a, "", "0", 1)]
            tys = list(tys[0][1])
        if f.op == "adt" and str(f.args[0]).startswith("closure:"):
            info = CLOSURES.get((id(self), f.args[0]))
            fn = None
            if info is not None:
                fn, env = info
            else:
                c = f.args[0][8:].rsplit("#", 1)[0]
                fn, env = self.N.by_cid.get(c), {}
            if fn is None:
                return self.opaque("app", "callclosure", [f] + args, None, dty)
            selfty = fn.body.locals[1]
            a0 = f
            if selfty[0] == "ref" and selfty[1]:
                a0 = mk("ref", self.new_cell(f), ())
            need = fn.body.argc - 1
            if len(args) != need and len(args) == 1:
                a = self.deref(args[0])
                if need == 0:
                    args = []
                elif a.op == "adt":
                    args = [v for _, v in a.args[2]]
                else:
                    args = [fld(a, "", str(i), need) for i in range(need)]
            if sum(1 for g in self.stack if g is fn) > 0:
                raise Abort("recursive closure")
            return self.run_fn(fn, [a0] + list(args), env)
        if f.op == "fn":
            info = FNREFS.get((id(self), f))
            if info is not None:
                r, env = info
                if len(args) == 1 and tys and tys[0] is not None and tys[0][0] == "tuple":
                    n = len(tys[0][1])
                    a = self.deref(args[0])
                    args = [fld(a, "", str(i), n) if a.op != "adt" else a.args[2][i][1] for i in range(n)]
                    tys = list(tys[0][1])
                return self.call_ref(r, args, tys, dty, env)
        return self.models.call_comb(self, f, args, tys, dty)

    # ------------------------------------------------------------------ loops
    def liveness(self, body):
        r = self.live.get(id(body))
        if r is not None:
            return r
        use, de = {}, {}

        def pl(p, u, d, write=False):
            if write and not p[1]:
                d.add(p[0])
                return
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op(o, u, d):
            if o[0] == "place":
                pl(o[1], u, d)

        for i, bl in enumerate(body.blocks):
            if bl is None:
                continue
            u, d = set(), set()
            for s in bl[0]:
                if s[0] != "=":
                    continue
                rv = s[2]
                k = rv[0]
                if k in ("use",):
                    op(rv[1], u, d)
                elif k == "repeat":
                    op(rv[1], u, d)
                elif k in ("ref", "rawptr"):
                    pl(rv[2], u, d)
                elif k == "cast":
                    op(rv[2], u, d)
                elif k == "bin":
                    op(rv[2], u, d)
                    op(rv[3], u, d)
                elif k == "un":
                    op(rv[2], u, d)
                elif k == "discr":
                    pl(rv[1], u, d)
                elif k == "agg":
                    for o in rv[3]:
                        op(o, u, d)
                pl(s[1], u, d, True)
            t = bl[1]
            if t[0] == "switch":
                op(t[1], u, d)
            elif t[0] == "call":
                op(t[1], u, d)
                for a in t[2]:
                    op(a, u, d)
                pl(t[3], u, d, True)
            elif t[0] == "assert":
                op(t[1], u, d)
            elif t[0] == "return":
                u.add(0) if 0 not in d else None
            use[i], de[i] = u, d
        livein = {i: set(use[i]) for i in use}
        ch = True
        while ch:
            ch = False
            for i in sorted(use, reverse=True):
                out = set()
                for s in succs(body.blocks[i][1]):
                    if s in livein:
                        out |= livein[s]
                n = use[i] | (out - de[i])
                if n != livein[i]:
                    livein[i] = n
                    ch = True
        self.live[id(body)] = livein
        return livein

    def mir_loop(self, fr, header):
        blocks = cfg(fr.body).loops[header]
        live = self.liveness(fr.body)[header]
        keep = {("l", fr.no, x) for x in live}

        def runner():
            return self.run_blocks(fr, header, header, blocks, first=True)

        tag = self.loop(runner, fr.no, keep)
        return tag[1]

    def loop(self, runner, frame_no, keep, extra=()):
        """Summarises a loop and leaves the state at one of its exits. Returns the exit's tag."""
        st = self.st
        # forget dead locals of this frame
        base = {}
        for c, v in st.cells.items():
            if c[0] == "l" and c[1] == frame_no and c not in keep:
                continue
            base[c] = v
        # cells reachable through references stay
        work = list(base.values())
        seen = set()
        while work:
            v = work.pop()
            for r in find_refs(v):
                if r.args[0] not in base and r.args[0] in st.cells:
                    base[r.args[0]] = st.cells[r.args[0]]
                    work.append(st.cells[r.args[0]])
        st.cells = base
        self.ex.loops += 1
        key = (self.ex.ctx, tuple(self.ex.taken), self.ex.loops)
        summ = self.loopcache.get(key)
        if summ is None:
            summ = self.summarise(runner, key)
            self.loopcache[key] = summ
        n = self.unroll.get(key)
        if n is not None:
            # a loop that runs a few times
            for _ in range(n + 1):
                r = runner()
                if r is None:
                    raise Dead()
                if r[0] != "back":
                    return r
            raise Abort("a loop runs longer than expected")
        exits, divs = summ
        alts = exits + divs
        if not alts:
            raise Dead()
        i = self.ex.choose(len(alts)) if len(alts) > 1 else 0
        a = alts[i]
        self.st = st = State()
        st.cells = dict(a["cells"])
        st.facts, st.conds, st.nframe, st.nalloc, st.ovf = None, None, a["nframe"], a["nalloc"], None
        o = a["outer"]
        st.facts = o.facts.copy()
        st.conds = list(o.conds)
        st.ovf = list(o.ovf) + a["ovf"]
        for c in a["conds"]:
            c = self.norm_cond(c)
            if c.op == "bool":
                if not c.args[0]:
                    raise Dead()
                continue
            d = st.facts.decide(c)
            if d is True:
                continue
            self.assume(c)
        if a["kind"] == "div":
            raise Diverge()
        if a["kind"] == "procexit":
            raise Exit(a["tag"])
        return a["tag"]

    def summarise(self, runner, key):
        st0 = self.st
        ex0 = self.ex
        # loops that are being entered are numbered from ACTIVE on; see close_loop
        lvl = ACTIVE + self.level
        self.level += 1
        if self.level > 7:
            raise Abort("loop nesting")
        K = mk("k", lvl)
        try:
            slots = []       # (cell, path, init, kind, step)
            rounds = 0
            while True:
                rounds += 1
                if rounds > 12:
                    if self.opts.get("debug"):
                        print([(s[0], s[1], T.show(s[2]), s[3], s[4]) for s in slots])
                    raise Abort("loop slots do not stabilise")
                H = st0.copy()
                for n, s in enumerate(slots):
                    cell, path, init, kind, stepv = s
                    if kind == "cnt":
                        v = add(init, scale(K, stepv))
                    else:
                        v = mk("sv", lvl, n)
                        v.ty = self.slot_ty(cell, path, init)
                    H.cells[cell] = self.set_raw(H.cells.get(cell), path, v)
                H.facts.add(le0(scale(K, -1)))
                H.conds = []
                H.ovf = []
                alts = self.explore_body(runner, H, key + (rounds,))
                backs = [a for a in alts if a[1][0] == "back"]
                new = []
                have = {(s[0], s[1]) for s in slots}
                for a in backs:
                    for c in H.cells:
                        hv, bv = H.cells[c], a[2].cells.get(c)
                        if bv is None:
                            continue
                        if hv is bv:
                            continue
                        for path in diff_paths(hv, bv):
                            # below an existing slot?
                            if any(hc == c and path[:len(hp)] == hp for hc, hp in have):
                                continue
                            # an existing slot below the new one is replaced
                            if (c, path) not in new:
                                new.append((c, path))
                    # cells that appear in the loop and stay (memory that is written for the first time)
                    for c in a[2].cells:
                        if c not in H.cells and (c[0] == "h" or c[0] == "io"):
                            if (c, ()) not in new and (c, ()) not in have:
                                new.append((c, ()))
                if new:
                    for c, p in new:
                        slots = [s for s in slots if not (s[0] == c and s[1][:len(p)] == p)]
                        init = st0.cells.get(c)
                        if init is None:
                            init = lst()
                            st0.cells[c] = init
                        init = get_raw(init, p)
                        slots.append((c, p, init, "gen", 0))
                    continue
                # classify counters
                changed = False
                for n, s in enumerate(slots):
                    cell, path, init, kind, stepv = s
                    if kind == "gen" and backs:
                        sv = mk("sv", lvl, n)
                        steps = set()
                        for a in backs:
                            bv = get_raw(a[2].cells[cell], path)
                            d = sub(bv, sv) if T.intlike(init) else None
                            steps.add(const_of(d) if d is not None else None)
                        if len(steps) == 1 and None not in steps:
                            slots[n] = (cell, path, init, "cnt", steps.pop())
                            changed = True
                    elif kind == "cnt":
                        want = add(init, scale(add(K, I(1)), stepv))
                        for a in backs:
                            if get_raw(a[2].cells[cell], path) is not want:
                                slots[n] = (cell, path, init, "gen!", 0)
                                changed = True
                                break
                if changed:
                    continue
                break
            n = self.trips(backs, K)
            if n is not None and not self.opts.get("no_unroll"):
                self.unroll[key] = n
                return None
            return self.finish_loop(st0, slots, alts, backs, lvl, K)
        finally:
            self.level = lvl - ACTIVE
            self.st, self.ex = st0, ex0

    def trips(self, backs, K):
        """an upper bound of the number of iterations when it is small"""
        n = -1
        if not backs or len(backs) > 3:
            return None
        for conds, _, _ in backs:
            ub = None
            for c in conds:
                if c.op == "le0":
                    c0, p = T.lin_parts(c.args[0])
                    if len(p) == 1 and p[0][0] is K and p[0][1] > 0:
                        b = -c0 // p[0][1]
                        ub = b if ub is None else min(ub, b)
            if ub is None:
                return None
            n = max(n, ub)
        return n + 1 if 0 <= n < MAX_UNROLL else None

    def set_raw(self, v, path, x):
        if not path:
            return x
        assert v.op == "adt"
        out = []
        for nm, y in v.args[2]:
            out.append((nm, self.set_raw(y, path[1:], x) if nm == path[0] else y))
        return mk("adt", v.args[0], v.args[1], tuple(out))

    def explore_body(self, runner, H, ctx):
        alts = []
        stack = [()]
        n = 0
        sst, sex, sstack, slev = self.st, self.ex, list(self.stack), self.level
        while stack:
            prefix = stack.pop()
            n += 1
            if n > 300:
                raise Abort("loop body with more than 300 paths")
            self.ex = Explorer(prefix, ctx)
            self.st = H.copy()
            self.stack = list(sstack)
            self.level = slev
            res = None
            try:
                res = runner()
            except Diverge:
                res = ("div",)
            except Exit as e:
                res = ("procexit", e.code)
            except Continue:
                res = ("back",)
            except Dead:
                res = None
            finally:
                ex = self.ex
            stack.extend(ex.pending)
            if res is not None:
                alts.append((self.st.conds, res, self.st))
        self.st, self.ex, self.stack, self.level = sst, sex, sstack, slev
        return alts

    def finish_loop(self, st0, slots, alts, backs, lvl, K):
        svs = {mk("sv", lvl, n): n for n, s in enumerate(slots)}
        # appended sequences
        kinds = [s[3] for s in slots]
        appseg = {}
        for n, (cell, path, init, kind, stepv) in enumerate(slots):
            if kind not in ("gen", "gen!"):
                continue
            sv = mk("sv", lvl, n)
            segs = None
            good = bool(backs)
            for a in backs:
                bv = get_raw(a[2].cells[cell], path)
                if bv.op == "list" and len(bv.args) >= 1 and bv.args[0][0] == "s" and bv.args[0][1] is sv:
                    x = ("l", bv.args[1:])
                elif bv.op == "cat" and bv.args[0] is sv:
                    x = ("c", bv.args[1:])
                else:
                    good = False
                    break
                if segs is None:
                    segs = x
                elif segs != x:
                    good = False
                    break
            if good:
                appseg[n] = segs
        # a sequence that the loop looks at is not a closed form
        changed = True
        while changed:
            changed = False
            for n in list(appseg):
                sv = mk("sv", lvl, n)
                bad = any(contains_t(s, sv) for _, s in [(0, x) for x in appseg[n][1:]])
                for conds, res, st in alts:
                    for c in conds:
                        if contains_t(c, sv):
                            bad = True
                    for m, (cell, path, init, kind, stepv) in enumerate(slots):
                        if m != n and cell in st.cells and contains_t(get_raw(st.cells[cell], path), sv):
                            bad = True
                if bad:
                    del appseg[n]
                    changed = True
        gens = [n for n in range(len(slots)) if kinds[n] != "cnt" and n not in appseg]
        # canonical order of the slots
        gens.sort(key=lambda n: (skey(slots[n][2]), slot_name(slots[n])))
        ren = {mk("sv", lvl, n): mk("sv", lvl, i) for i, n in enumerate(gens)}
        tmp = {mk("sv", lvl, n): mk("svapp", lvl, n) for n in appseg}
        ren.update(tmp)

        rmemo = {}

        def rn(t):
            return subst(t, ren.get, rmemo)

        nalts = []
        for conds, res, st in alts:
            cs = tuple(rn(c) for c in conds)
            vals = None
            if res[0] == "back":
                vals = tuple(rn(get_raw(st.cells[slots[n][0]], slots[n][1])) for n in gens)
            nalts.append([cs, res, st, vals])
        # the canonical loop: initial values and alternatives
        inits = tuple(slots[n][2] for n in gens)
        stys = [self.slot_ty(*slots[n][:3]) for n in gens]
        back_t = sorted(((tuple(sorted(a[0], key=skey)), a[3]) for a in nalts if a[1][0] == "back"), key=skey)
        exit_t = sorted({tuple(sorted(a[0], key=skey)) for a in nalts if a[1][0] == "exit"}, key=skey)
        div_t = sorted({tuple(sorted(a[0], key=skey)) for a in nalts if a[1][0] in ("div", "procexit")}, key=skey)
        rec = close_loop(lvl, inits, tuple(back_t), tuple(exit_t), tuple(div_t))
        # the number of iterations of the regular exit
        exits = [a for a in nalts if a[1][0] == "exit"]
        others = [a for a in nalts if a[1][0] in ("div", "procexit")]
        regular = None
        for a in exits:
            n = self.iterations(a[0], backs and [x[0] for x in nalts if x[1][0] == "back"], K, lvl)
            if n is not None:
                if regular is not None:
                    regular = None
                    break
                regular = (a, n)
        out_e, out_d = [], []
        many = len(exits) + len(others) > 1
        allx = sorted(exits + others, key=lambda a: skey(tuple(sorted(a[0], key=skey))))
        for j, a in enumerate(allx):
            if regular is not None and a is regular[0]:
                n = regular[1]
                Kx = n if self.nonneg(st0, n) else mk("max0", n)
                drop = True
            else:
                Kx = mk("kx", rec)
                drop = False
            if not backs:
                Kx = I(0)
            m = {K: Kx}
            for i, nslot in enumerate(gens):
                m[mk("sv", lvl, i)] = inits[i] if const_of(Kx) == 0 else mk("st", rec, i, Kx, ty=stys[i])
            for nslot in appseg:
                m[mk("svapp", lvl, nslot)] = self.closed(slots[nslot], appseg[nslot], Kx, K, rec, gens, lvl, ren, inits, stys)

            def fin(t, m=m, memo=dict()):
                return subst(t, m.get, memo)
            cells = {c: fin(rn(v)) for c, v in a[2].cells.items()}
            cells = {fin_cell(c, lambda t: fin(rn(t))): v for c, v in cells.items()}
            conds = []
            if many and drop:
                # all other exits are taken earlier
                conds.append(eq0(sub(mk("kx", rec), Kx)))
            if not drop:
                if Kx.op == "kx":
                    conds.append(le0(scale(Kx, -1)))
                conds += [fin(c) for c in a[0]]
                if regular is not None and Kx.op == "kx":
                    conds.append(lt(Kx, regular[1]))
            ovf = [(t, fin(rn(x))) for t, x in a[2].ovf]
            d = {"conds": conds, "cells": cells, "nframe": a[2].nframe, "nalloc": a[2].nalloc, "outer": st0, "ovf": ovf,
                 "kind": a[1][0], "tag": fin(a[1][1]) if a[1][0] == "procexit" else a[1] if len(a[1]) > 1 else None}
            (out_e if a[1][0] == "exit" else out_d).append(d)
        # overflow obligations of the iterations
        ovfs = []
        for a in nalts:
            if a[1][0] == "back":
                ovfs += [(t, rn(x)) for t, x in a[2].ovf]
        for d in out_e + out_d:
            d["ovf"] = d["ovf"] + ovfs
        return out_e, out_d

    def nonneg(self, st, n):
        if n.op in ("len", "max0"):
            return True
        return st.facts.decide(le0(scale(n, -1))) is True

    def iterations(self, conds, back_conds, K, lvl):
        """N if this exit is taken exactly after N iterations: its only condition is N - k <= 0 and every
        iteration starts with the opposite"""
        if len(conds) != 1 or conds[0].op not in ("le0", "eq0"):
            return None
        c, p = T.lin_parts(conds[0].args[0])
        d = dict(p)
        kc = d.pop(K, 0)
        if conds[0].op == "eq0":
            if abs(kc) != 1:
                return None
            n = T.mk_lin(c * (-kc), {t: k * (-kc) for t, k in d.items()})
        else:
            if kc != -1:
                return None
            n = T.mk_lin(c, d)
        if contains_level(n, lvl):
            return None
        for bc in back_conds or []:
            if not any(x is neg(conds[0]) for x in bc):
                return None
        return n

    def slot_ty(self, cell, path, init):
        if init.ty is not None:
            return init.ty
        if T.intlike(init):
            fr = self.frames.get(cell[1]) if cell[0] == "l" and not path else None
            if fr is not None and isinstance(cell[2], int) and cell[2] < len(fr[0].locals):
                t = self.tsub(fr[0].locals[cell[2]], fr[1])
                if t[0] == "int":
                    return t
            return Ty(("int", "i128"))
        return None

    def closed(self, slot, segs, Kx, K, rec, gens, lvl, ren, inits, stys):
        init = slot[2]
        if const_of(Kx) == 0:
            return init

        def body(t):
            t = subst(t, lambda x: ren.get(x))
            return subst(t, lambda x: mk("st", rec, x.args[1], K, ty=stys[x.args[1]]) if x.op == "sv" and x.args[0] == lvl else None)
        if segs[0] == "l":
            if len(segs[1]) == 1 and segs[1][0][0] == "e":
                f = make_fam(Kx, body(segs[1][0][1]), K)
                if f.op == "fam":
                    return lst(("s", init), ("f", f))
                return lst(("s", init), ("s", f))
            f = make_fam(Kx, lst(*body(segs[1])), K)
            return lst(("s", init), ("s", mk("concat", f)))
        f = make_fam(Kx, cat(*[body(x) for x in segs[1]]), K)
        return cat(init, mk("join", f))


FNREFS = {}
CLOSURES = {}


class Call:
    __slots__ = ("r", "name", "args", "tys", "rargs", "dty", "env")

    def __init__(self, r, name, args, tys, rargs, dty, env):
        self.r, self.name, self.args, self.tys, self.rargs, self.dty, self.env = r, name, args, tys, rargs, dty, env


ACTIVE = 100
HEIGHT = {}


def loop_height(t):
    """1 + the highest number of a loop in the term"""
    if isinstance(t, tuple):
        return max([loop_height(x) for x in t], default=0)
    if not isinstance(t, T.Term):
        return 0
    r = HEIGHT.get(t)
    if r is None:
        r = loop_height(t.args)
        if t.op == "loop":
            r = max(r, t.args[0] + 1)
        HEIGHT[t] = r
    return r


def close_loop(lvl, inits, backs, exits, divs):
    """A finished loop gets a number that no loop within it has, so that the numbers of iterations (`k`) and the values
    carried (`sv`) of different loops cannot be confused, wherever the term is put."""
    h = loop_height((inits, backs, exits, divs))

    def f(x):
        if x.op in ("k", "sv") and x.args[0] == lvl:
            return mk(x.op, h, *x.args[1:], ty=x.ty)
        return None
    memo = {}
    return mk("loop", h, inits, subst(backs, f, memo), subst(exits, f, memo), subst(divs, f, memo))


def strip_refs(t):
    while t is not None and (t[0] == "ref" or (t[0] == "adt" and is_transparent(t) and t[2])):
        t = t[2] if t[0] == "ref" else t[2][0]
    return t


def make_fam(n, body, K):
    """the sequence body[0], ..., body[n-1]"""
    lvl = fam_depth(body)
    bv = mk("bv", lvl)
    b = subst(body, lambda x: bv if x is K else None)
    # xs[0], xs[1], ... is xs
    if b.op == "at" and b.args[1] is bv and b.args[0].op != "fam":
        if n.op == "len" and n.args[0] is b.args[0]:
            return b.args[0]
    return mk("fam", n, b)


def fam_depth(t):
    return t.lvl


def open_fam(f, i):
    n, b = f.args
    bv = mk("bv", fam_depth(b))
    return subst(b, lambda x: i if x is bv else None)


def find_refs(v):
    if not T.contains(v, "ref", lambda x: x.op == "ref"):
        return []
    return [x for x in T.subterms(v) if x.op == "ref"]


def contains_t(t, x):
    if isinstance(t, tuple):
        return any(contains_t(y, x) for y in t)
    if not isinstance(t, T.Term):
        return False
    return x in T.subterms(t)


def contains_level(t, lvl):
    return any((x.op in ("sv", "svapp", "k")) and x.args[0] == lvl for x in T.subterms(t))


def get_raw(v, path):
    for nm in path:
        v = fields_of(v)[nm]
    return v


def diff_paths(a, b, path=()):
    if a is b:
        return []
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and a.args[2] and \
            not str(a.args[0]).startswith("core::option"):
        out = []
        for (n, x), (_, y) in zip(a.args[2], b.args[2]):
            out += diff_paths(x, y, path + (n,))
        return out
    return [path]


def slot_name(s):
    return repr([str(p) for p in s[1]])


def fin_cell(c, f):
    if c[0] == "h":
        return ("h", f(c[1]))
    return c
