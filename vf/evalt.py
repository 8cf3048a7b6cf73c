"""Interpretations of value terms: decides whether two terms that are written differently can denote different values.

An interpretation gives every leaf of the terms (an input, a field of an input, a result of an uninterpreted function) a
value of its type, and the functions of the standard library their documented meaning; anything else is undefined, and
then nothing is concluded. It is used only to refute that two terms are the same: no code of the repository is run.
"""
import math
import random
import time

import constant
import genexpr
import terms as T
from terms import mk, I, B, Str, TRUE, FALSE, UNIT, const_of, lst, tup, adt, fields_of, neg, subst

OPT = "core::option::Option"
RES = "core::result::Result"
NONE = adt(OPT, "None", ())
WS = set("\t\n\x0b\x0c\r \x85\xa0\u1680\u2028\u2029\u202f\u205f\u3000") | {chr(c) for c in range(0x2000, 0x200b)}
T_PUZZLE = ("adt", "cubing_core::kpuzzle::packed::kpuzzle::KPuzzle", (), "")
MAXLEN = 6
MAXDEEP = 40
MAXITER = 40
NOALIAS = ("adt", "list", "str", "bool", "lin")


REPEATED = ("KPuzzleOrbitName", "Move", "QuantumMove")
BROKEN = (RecursionError, OverflowError, ValueError, IndexError, KeyError, TypeError, AttributeError)
DEBUG = None    # {line: count} of what was undefined, when debugging


class Undef(Exception):
    def __init__(self, *a):
        if DEBUG is not None:
            import sys
            f = sys._getframe(1)
            k = (f.f_code.co_name, f.f_lineno) + a
            DEBUG[k] = DEBUG.get(k, 0) + 1


class Panic(Exception):
    pass


def some(x):
    return adt(OPT, "Some", [("0", x)])


def base_name(n):
    n = str(n)
    d = 0
    for i, ch in enumerate(n):
        if ch == "<" and i > 0 and n[i - 1] != " ":
            return n[:i]
    return n


def is_str_ty(ty):
    if ty is None:
        return False
    while ty[0] == "ref":
        ty = ty[2]
    return ty[0] == "str" or (ty[0] == "adt" and ty[1].split("::")[-1] == "String")


def is_puzzle_ty(ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    return ty is not None and ty[0] == "adt" and ty[1].endswith("::KPuzzle")


def is_orbit_ty(ty):
    while ty is not None and ty[0] == "ref":
        ty = ty[2]
    return ty is not None and ty[0] == "adt" and ty[1].endswith("KPuzzleOrbitInfo")


def elem_ty(ty):
    if ty is None:
        return None
    while ty[0] == "ref":
        ty = ty[2]
    if ty[0] in ("array", "slice"):
        return ty[1]
    if ty[0] == "adt" and ty[1].split("::")[-1] in ("Vec", "VecDeque") and ty[2]:
        return ty[2][0]
    return None


_nesting = {}


def nesting(t):
    """how many lists an element is taken from"""
    r = _nesting.get(t)
    if r is None:
        r = _nesting[t] = (t.op in ("at", "mget")) + max([nesting(a) for a in t.args if isinstance(a, T.Term)], default=0)
    return r


_literals = {}


def lengthened(s, n, filler):
    k = n - len(s.encode())
    return s + filler * (-(-k // len(filler.encode()))) if k > 0 else s


def long_texts(longs):
    return [lengthened(b, n + d, f) for n in longs for b, f in (("//", "\u00e9"), ("// a", "\u00e9"), ("R // ", "b"), ("R", "a"), ("R ", "U "), ("(R ", "U "), ("R", "\u00e9")) for d in (0, 2)]


def is_literal(t):
    """a value with no unknown parts"""
    if not isinstance(t, T.Term):
        return True
    r = _literals.get(t)
    if r is None:
        o = t.op
        r = o in ("str", "bool", "bytes") or const_of(t) is not None
        if not r and o == "adt":
            r = all(is_literal(v) for _, v in t.args[2])
        elif not r and o == "list":
            r = all(s[0] == "e" and is_literal(s[1]) for s in t.args)
        _literals[t] = r
    return r


_ORDER = {}


def by_cost(cs):
    """what needs no loop first"""
    r = _ORDER.get(id(cs))
    if r is None or r[0] is not cs:
        r = _ORDER[id(cs)] = cs, sorted(cs, key=constant.Const.loops_in)
    return r[1]


class Ev:
    def __init__(self, rnd, ints, strs, universe, allowed=None, budget=200000):
        self.rnd, self.ints, self.strs, self.universe = rnd, ints, strs, universe
        self.allowed = allowed       # names that may stay uninterpreted (None: all)
        self.leaf = {}
        self.variant = {}
        self.ents = set()
        self.memo = {}
        self.loops = {}
        self.touched = None
        self.dirty = False
        self.puzzle = None
        self.pty = T_PUZZLE
        self.other = {}
        self.budget = budget
        self.small = 0
        self.summ = None      # what functions do: name -> outcomes
        self.first = None     # the first text that is chosen
        self.deep = 0
        self.maxiter = MAXITER
        self.arrays = {}      # long lists of values
        self.limit = None     # when to give up
        self.seen_names = {}
        self.common = None    # the size that most things have
        self.big = False      # is it a large one?
        self.maxlen = MAXLEN
        self.longs = ()       # lengths of texts that may matter

    def reset(self):
        self.memo = {}
        self.loops = {}

    def tick(self):
        self.budget -= 1
        if self.budget < 0:
            raise Undef()
        if self.limit is not None and self.budget % 256 == 0 and time.process_time() > self.limit:
            self.budget = 0
            raise Undef()

    # ---- entry points
    def stable(self, f):
        for _ in range(12):
            self.dirty = False
            r = f()
            if not self.dirty:
                return r
            self.reset()
        raise Undef()

    def cond(self, c):
        r = self.stable(lambda: self.g(c))
        if r.op != "bool":
            raise Undef()
        return r.args[0]

    # ---- leaves
    def pick_int(self, t):
        lo, hi = -2 ** 63, 2 ** 64
        few = t.op == "len" and t.args[0].op == "fld" and t.args[0].args[2] in ("ordered_orbit_info", "orbits", "nodes")
        if self.common is not None and not few and self.rnd.random() < (0.8 if not self.big else 0.9):
            n = self.common
            if t.op == "len" or t.op == "fld" and t.args[2] == "num_pieces":
                return n
            if t.op == "at" or t.op == "app" and t.ty is not None and t.ty[0] == "int":
                if self.big and self.rnd.random() < 0.985:
                    return 0
                return self.rnd.choice((0, 0, 0, 1, n - 1 if n else 0, n))
        if t.op == "fld" and t.args[2] in ("num_pieces", "num_orientations") and t.args[3] == 3 and self.rnd.random() < 0.3:
            # of a definition
            return self.rnd.choice((0, 1, 6, 12, 63, 64, 90, 106, 107, 108, 109, 113, 121, 127, 128, 129, 254, 255))
        if t.op == "fld" and t.args[2] in ("num_pieces", "num_orientations"):
            return self.rnd.choice((0, 1, 1, 2, 2, 3) if t.args[2] == "num_pieces" else (1, 1, 2, 2, 3, 4, 6) if self.rnd.random() < 0.8 else (12, 64, 101, 107))
        if t.ty is not None and t.ty[0] == "int" and t.ty[1] in T.INT_RANGES:
            lo, hi = T.INT_RANGES[t.ty[1]]
        if t.ty is not None and t.ty[0] == "char":
            lo, hi = 0, 0x10FFFF
            for _ in range(6):
                c = ord(self.rnd.choice("aZ_09 \n(/'é\u0660ß-"))
                if self.rnd.random() < 0.7:
                    return c
        if t.op == "load" or t.op == "loadm":
            lo, hi = 0, 255
        if t.op in ("len", "k", "kx", "cnt"):
            lo, hi = 0, MAXLEN
            return self.rnd.choice((0, 1, 1, 2, 2, 3, 4) if t.op != "len" or nesting(t) < 2 else (0, 0, 1, 1, 2))
        if self.rnd.random() < 0.5:
            x = self.rnd.choice((0, 1, 2, 3))
            if lo <= x <= hi:
                return x
        for _ in range(30):
            x = self.rnd.choice(self.ints)
            if lo <= x <= hi:
                return x
        return max(lo, min(hi, 0))

    def pick_str(self):
        if self.first is not None:
            x, self.first = self.first, None
            return x
        r = self.rnd.random()
        if r < 0.15 and self.longs:
            # a length that is asked for
            return lengthened(self.rnd.choice(self.strs), self.rnd.choice(self.longs) + self.rnd.choice((-1, 0, 1, 2)), self.rnd.choice(("a", "\u00e9", "1", " ")))
        if r < 0.2:
            # another text in other letters
            xs = [v.args[0] for v in self.leaf.values() if v.op == "str" and v.args[0] != v.args[0].swapcase()]
            if xs:
                return self.rnd.choice(xs).swapcase()
        if r < 0.75:
            return self.rnd.choice(self.strs)
        a, b = self.rnd.choice(self.strs), self.rnd.choice(self.strs)
        return (a + b)[:12]

    def touch(self, t):
        if self.touched is not None:
            self.touched[t] = True

    def resolve(self, t):
        """the value of a leaf"""
        if t.op in ("fld", "at", "load"):
            x = self.derived(t)
            if x is not None:
                return x
        if t.ty is not None and is_puzzle_ty(t.ty) and t.op not in NOALIAS:
            return self.the_puzzle(t)
        x = self.leaf.get(t)
        if x is not None:
            self.touch(t)
            return x if x.op in NOALIAS else self.resolve(x) if x is not t else x
        if t.op in ("app", "call", "post", "unk"):
            self.check_free(t)
        if t.op == "sym" and self.puzzle is not None and is_orbit_ty(t.ty):
            # an orbit that is passed in: mostly one of the puzzle
            if self.rnd.random() < 0.75:
                os_ = self.orbits(mk("fld", self.puzzle, "", "data", 1))
                if os_:
                    self.leaf[t] = self.rnd.choice(os_)
                    self.touch(t)
                    return self.resolve(self.leaf[t])
            self.leaf[t] = t
            return t
        if t.op in ("head",) or T.intlike(t):
            self.touch(t)
            x = self.leaf[t] = I(self.pick_int(t))
            return x
        if t.ty is not None and t.ty[0] == "bool" or t.op in ("has", "eq", "ptreq"):
            self.touch(t)
            x = self.leaf[t] = B(self.rnd.random() < (0.9 if self.common is not None and t.op == "has" else 0.5 if t.op != "has" or nesting(t) < 2 else 0.1))
            return x
        if is_str_ty(t.ty):
            self.touch(t)
            x = self.leaf[t] = Str(self.pick_str())
            return x
        if t.ty is not None and t.ty[0] == "tuple" and t.op != "sym":
            return tup(*[self.resolve(mk("fld", t, "", str(i), len(t.ty[1]), ty=ft)) for i, ft in enumerate(t.ty[1])])
        if self.common is not None and t.op in ("fld", "at", "sym") and t.ty is not None and t.ty[0] == "adt" and t.ty[1].split("::")[-1] in REPEATED:
            # sometimes the same as an earlier one
            xs = self.seen_names.setdefault(t.ty[1], [])
            if xs and self.rnd.random() < 0.12:
                self.touch(t)
                x = self.leaf[t] = self.rnd.choice(xs)
                return x
            self.leaf[t] = t
            self.touch(t)
            xs.append(t)
        return t

    # ---- what always holds for puzzles, patterns and transformations (established by the constructors)
    def derived(self, t):
        """the value of a part that is determined by other parts"""
        if t.op == "fld":
            n = t.args[2]
            if n == "orientations_offset":
                b = t.args[0]
                return I(self.num(mk("fld", b, t.args[1], "pieces_or_permutations_offset", t.args[3])) + self.np(b))
            if n == "pieces_or_permutations_offset":
                b = t.args[0]
                if b.op == "at" and b.args[0].op == "fld" and b.args[0].args[2] == "ordered_orbit_info" and const_of(b.args[1]) is not None:
                    return I(2 * sum(self.np(mk("at", b.args[0], I(i))) for i in range(const_of(b.args[1]))))
                return None
            if n == "num_bytes":
                return I(2 * sum(self.np(o) for o in self.orbits(t.args[0])))
            if n in ("orientation", "orientation_mod") and t.args[0].op == "at":
                r = self.packer(t.args[0])
                if r is not None:
                    return r[0 if n == "orientation" else 1]
            return None
        if t.op == "at":
            r = self.packer(t)
            return r if isinstance(r, T.Term) else None
        if t.op == "load" and t not in self.leaf and len(t.args) == 2:
            w = self.region(t)
            if w is not None:
                first, j, np, no, kind = w
                i = const_of(t.args[1])
                if first:
                    base = i - j
                    vs = list(range(np))
                    self.rnd.shuffle(vs)
                    if kind == "pattern" and self.rnd.random() < 0.2:
                        # the pieces of a pattern may be any
                        self.leaf[t] = I(self.rnd.choice((0, 1, np - 1 if np else 0, np, np + 1 & 255, 64, 128, 192, 254, 255)))
                        return None
                    for q in range(np):
                        y = mk("load", t.args[0], I(base + q))
                        if y not in self.leaf:
                            self.leaf[y] = I(vs[q])
                    # keep it a permutation
                    if kind == "pattern":
                        return None
                    got = [const_of(self.leaf[mk("load", t.args[0], I(base + q))]) for q in range(np)]
                    if sorted(x for x in got if x is not None) != list(range(np)):
                        for q in range(np):
                            self.leaf[mk("load", t.args[0], I(base + q))] = I(vs[q])
                        # (some were read before)
                        self.dirty = True
                else:
                    hi = no if kind != "pattern" else len(packer_tables(no)[1])
                    self.leaf[t] = I(self.rnd.randrange(hi))
        return None

    def the_puzzle(self, t):
        """the values that belong together belong to one puzzle, mostly"""
        if self.puzzle is None:
            self.puzzle = t
        if t is self.puzzle:
            return t
        self.touch(t)
        r = t
        while r.op in ("fld", "at"):
            r = r.args[0]
        if r.op != "sym":
            return self.puzzle
        if t not in self.other:
            self.other[t] = self.rnd.random() < 0.12
        return t if self.other[t] else self.puzzle

    def np(self, orbit):
        return self.num(mk("fld", orbit, "", "num_pieces", 6))

    def orbits(self, data):
        oi = mk("fld", data, "", "ordered_orbit_info", 4)
        n = self.num(mk("len", oi))
        if not 0 <= n <= MAXLEN:
            raise Undef()
        return [mk("at", oi, I(i)) for i in range(n)]

    def region(self, t):
        """where a byte of a packed value is: (piece or permutation?, index in the orbit, pieces, orientations, kind)"""
        ptr = t.args[0]
        i = const_of(t.args[1])
        if ptr.op != "fld" or ptr.args[2] != "bytes" or i is None:
            return None
        pod = ptr.args[0]
        kp = self.g(mk("fld", pod, "", "kpuzzle", 2, ty=self.pty))
        data = self.resolve(mk("fld", kp, "", "data", 1))
        off = 0
        for o in self.orbits(data):
            np = self.np(o)
            if off <= i < off + 2 * np:
                kind = "pattern"
                ow = pod.args[0] if pod.op == "fld" else None
                ty = ow.ty if ow is not None else None
                while ty is not None and ty[0] == "ref":
                    ty = ty[2]
                if ty is not None and ty[0] == "adt":
                    kind = "pattern" if ty[1].endswith("KPattern") else "transformation"
                j = i - off
                return (j < np, j % np, np, self.num(mk("fld", o, "", "num_orientations", 6)), kind)
            off += 2 * np
        if i < 0:
            raise Undef()
        # outside of the allocation: anything
        return None

    def packer(self, t):
        """an entry of a table of an orbit's orientation packer"""
        ix = []
        x = t
        while x.op == "at" and len(ix) < 2:
            c = const_of(x.args[1])
            if c is None:
                return None
            ix.insert(0, c)
            x = x.args[0]
        if x.op != "fld" or x.args[2] not in ("unpacking_table", "packing_table", "transformation_lookup"):
            return None
        pk = x.args[0]
        if pk.op != "fld" or pk.args[2] != "orientation_packer":
            return None
        if x.args[2] == "transformation_lookup" and len(ix) < 2:
            return None
        no = self.num(mk("fld", pk.args[0], "", "num_orientations", 6))
        pack, unpack = packer_tables(no)
        if x.args[2] == "unpacking_table":
            v = unpack[ix[0]] if ix[0] < len(unpack) else (0xFE, 0xFD)
            return (I(v[0]), I(v[1]))
        if x.args[2] == "packing_table":
            return I(pack.get(ix[0], 0xFF))
        d, p = ix
        if d >= no or p >= len(unpack):
            return I(0xFF)
        o, m = unpack[p]
        return I(pack[m] + (o + d) % (m or no))

    def set_leaf(self, t, v):
        """changes a number; False: not possible"""
        if t.op == "fld":
            n = t.args[2]
            if n == "num_pieces" and not 0 <= v <= 4 or n == "num_orientations" and not 1 <= v <= 12:
                return False
            if n in ("orientations_offset", "num_bytes") or (n == "pieces_or_permutations_offset" and self.derived(t) is not None):
                return False
        if t.op == "load" and len(t.args) == 2:
            w = self.region(t)
            if w is not None:
                first, j, np, no, kind = w
                if first:
                    if not 0 <= v < np:
                        return False
                    base = const_of(t.args[1]) - j
                    self.resolve(t)
                    for q in range(np):
                        y = mk("load", t.args[0], I(base + q))
                        if const_of(self.leaf.get(y, UNIT)) == v:
                            self.leaf[y] = self.leaf[t]
                elif not 0 <= v < (no if kind != "pattern" else len(packer_tables(no)[1])):
                    return False
        self.leaf[t] = I(v)
        return True

    def check_free(self, t):
        if t.op == "unk":
            raise Undef()
        if self.allowed is not None:
            n = (t.op if t.op != "post" else "call", str(t.args[0]))
            if self.deep or self.summ is not None and n in self.summ.vocab:
                # the reference uses it
                return
            if n not in self.allowed and base_name(n[1]) not in FREE and not base_name(n[1]).startswith(("show:", "fmt_", "fmtspec", "static:", "const:")):
                raise Undef()

    def as_str(self, t):
        """t: a value"""
        if t.op == "str":
            return t.args[0]
        if t.op in NOALIAS:
            raise Undef()
        if t.ty is not None and not is_str_ty(t.ty) and t.ty[0] not in ("param", "ref"):
            raise Undef()
        self.touch(t)
        if t.op in ("app", "call", "post", "unk"):
            self.check_free(t)
        x = self.leaf[t] = Str(self.pick_str())
        self.dirty = True
        return x.args[0]

    def as_list(self, t):
        """the elements of a value"""
        if t.op == "list":
            out = []
            for s in t.args:
                if s[0] == "e":
                    out.append(s[1])
                elif s[0] == "s":
                    out += self.as_list(self.g(s[1]))
                else:
                    out += self.as_list(self.g(s[1]))
            if len(out) > 600:
                raise Undef()
            return out
        if t.op == "bytes":
            return [I(b) for b in t.args[0]]
        if t.op in NOALIAS:
            raise Undef()
        if t.op == "memory" or t.op == "ptrv":
            raise Undef()
        if t.op in ("app", "call", "post", "unk"):
            self.check_free(t)
        if t.op == "ents":
            if t.args[0] not in self.ents:
                self.ents.add(t.args[0])
                self.dirty = True
        n = self.num(mk("len", t))
        if n < 0 or n > self.maxlen:
            raise Undef()
        et = elem_ty(t.ty)
        if t.op == "ents":
            return [tup(self.resolve(mk("fld", mk("at", t, I(i)), "", "0", 2)), self.resolve(mk("fld", mk("at", t, I(i)), "", "1", 2))) for i in range(n)]
        return [self.resolve(mk("at", t, I(i), ty=et)) for i in range(n)]

    def num(self, t):
        x = self.g(t)
        c = const_of(x)
        if c is None:
            if x.op in NOALIAS:
                raise Undef()
            # used as a number
            if x.op in ("app", "call", "post", "unk"):
                self.check_free(x)
            self.touch(x)
            v = self.leaf[x] = I(self.pick_int(x))
            self.dirty = True
            return v.args[0]
        return c

    def truth(self, t):
        x = self.g(t)
        if x.op == "bool":
            return x.args[0]
        if x.op in NOALIAS:
            raise Undef()
        if x.op in ("app", "call", "post", "unk"):
            self.check_free(x)
        self.touch(x)
        v = self.leaf[x] = B(self.rnd.random() < 0.5)
        self.dirty = True
        return v.args[0]

    # ---- values of terms
    def g(self, t):
        if self.touched is None:
            r = self.memo.get(t)
            if r is None:
                try:
                    r = self.memo[t] = self.g0(t)
                except Undef:
                    if self.budget > 0:
                        self.memo[t] = False
                    raise
            elif r is False:
                raise Undef()
            return r
        k = self.memo.get(t)
        if k is False:
            raise Undef()
        if k is not None and isinstance(k, tuple):
            self.touched.update(k[1])
            return k[0]
        old = self.touched
        self.touched = {}
        try:
            r = self.g0(t)
        finally:
            mine = self.touched
            self.touched = old
            old.update(mine)
        self.memo[t] = (r, mine)
        return r

    def ga(self, a):
        if isinstance(a, T.Term):
            return self.g(a)
        if isinstance(a, tuple):
            return tuple(self.ga(x) for x in a)
        return a

    def g0(self, t):
        self.tick()
        o = t.op
        f = OPS.get(o)
        if f is not None:
            return f(self, t)
        # an uninterpreted constructor
        na = tuple(self.ga(a) for a in t.args)
        x = t if na == t.args else mk(o, *na, ty=t.ty)
        if x.ty is None and t.ty is not None:
            x.ty = t.ty
        if o in ("k", "sv", "svapp", "bv"):
            raise Undef()
        return self.resolve(x)

    # ---- comparison of values: True, False, or undefined
    def same(self, a, b, depth=0):
        if a is b:
            return True
        if depth > 40:
            raise Undef()
        ca, cb = const_of(a), const_of(b)
        if ca is not None and cb is not None:
            return ca == cb
        if a.op == "fn" or b.op == "fn":
            # functions of different names may do the same
            raise Undef()
        for p, q in ((a, b), (b, a)):
            if p.op in ("str", "bool", "lin"):
                if q.op == p.op:
                    return p.args == q.args
                if q.op in NOALIAS:
                    raise Undef()
                if p.op == "str":
                    return self.as_str(q) == p.args[0]
                if p.op == "lin":
                    return self.num(q) == ca if p is a else self.num(q) == cb
                return self.truth(q) == p.args[0]
            if p.op in ("list", "bytes"):
                x, y = self.as_list(p), self.as_list(q)
                if len(x) != len(y):
                    return False
                return self.all_same([(u, v) for u, v in zip(x, y)], depth)
            if p.op == "adt":
                if q.op == "adt":
                    if p.args[0] != q.args[0]:
                        if str(p.args[0]).startswith(("closure:", "nom:")) or str(q.args[0]).startswith(("closure:", "nom:")):
                            raise Undef()
                        if p.args[0] == "map" or q.args[0] == "map":
                            raise Undef()
                        return False
                    if p.args[1] != q.args[1]:
                        return False
                    if p.args[0] == "map":
                        return self.same_map(p, q, depth)
                    if p.args[0] == "tokens":
                        return self.same_tokens(p, q, depth)
                    fp, fq = fields_of(p), fields_of(q)
                    err = str(p.args[0]).split("::")[-1].endswith("Error")
                    return self.all_same([(fp[n], fq[n]) for n in fp if n in fq and not (err and n == "description")], depth)
                if q.op in NOALIAS:
                    return False
                if p.args[1]:
                    v = self.variant_of(q, p.args[0])
                    if v != p.args[1]:
                        return False
                fs = p.args[2]
                err = str(p.args[0]).split("::")[-1].endswith("Error")
                if str(p.args[0]).startswith("closure") or p.args[0] == "map":
                    raise Undef()
                return self.all_same([(v, self.resolve(mk("fld", q, p.args[1], n, len(fs), ty=v.ty))) for n, v in fs if not (err and n == "description")], depth)
        if a.op == "ptrv" and b.op == "ptrv":
            return self.same_alloc(a, b, depth)
        # two opaque values
        if is_str_ty(a.ty) or is_str_ty(b.ty):
            return self.as_str(a) == self.as_str(b)
        if elem_ty(a.ty) is not None or elem_ty(b.ty) is not None:
            x, y = self.as_list(a), self.as_list(b)
            return len(x) == len(y) and self.all_same(list(zip(x, y)), depth)
        va, vb = self.variant.get(a), self.variant.get(b)
        if va is not None and vb is not None and va != vb:
            return False
        if a.op == b.op and len(a.args) == len(b.args) and a.op not in ("sym", "fld", "at", "app", "call", "post", "mget"):
            ps = []
            for x, y in zip(a.args, b.args):
                if isinstance(x, T.Term) and isinstance(y, T.Term):
                    ps.append((x, y))
                elif x != y:
                    if isinstance(x, tuple):
                        raise Undef()
                    return False
            return self.all_same(ps, depth)
        for x in (a, b):
            if x.op in ("unk", "loop", "uninit"):
                raise Undef()
        if self.summ is not None and (self.uninterpreted(a) or self.uninterpreted(b)):
            # what a function of the crate does is not known here
            if a.op == b.op and a.args[0] == b.args[0] and len(a.args) == len(b.args) and self.all_same([(x, y) for x, y in zip(a.args[1:], b.args[1:]) if isinstance(x, T.Term) and isinstance(y, T.Term)], depth):
                return True
            raise Undef()
        if a.op in ("app", "call", "post") and b.op == a.op and a.args[0] == b.args[0] and len(a.args) == len(b.args):
            # the same function of different values: different unless nothing is known to differ
            for x, y in zip(a.args[1:], b.args[1:]):
                if isinstance(x, T.Term) and isinstance(y, T.Term) and self.same(x, y, depth + 1) is False:
                    return False
            return True
        return False

    def uninterpreted(self, x):
        """part of the result of a function of the crate"""
        while x.op in ("fld", "at", "mget", "load") and isinstance(x.args[0], T.Term):
            x = x.args[0]
        return x.op in ("call", "post") and str(x.args[0]) in self.summ.N.by_cid

    def same_alloc(self, p, q, depth):
        """Two new allocations: their size, the position, and the contents that were written."""
        ps = [(p.args[0], q.args[0]), (p.args[1], q.args[1])]
        ds = []
        for h in (p.args[2], q.args[2]):
            d = {}
            for e in self.as_list(self.g(h)):
                if e.op != "adt" or e.args[0] != "tuple" or len(e.args[2]) != 2:
                    raise Undef()
                i = const_of(self.g(e.args[2][0][1]))
                if i is None:
                    raise Undef()
                d[i] = e.args[2][1][1]
            ds.append(d)
        if set(ds[0]) != set(ds[1]):
            # memory that is written on one side only may be unwritten on the other
            return False
        return self.all_same(ps + [(ds[0][i], ds[1][i]) for i in sorted(ds[0])], depth)

    def all_same(self, ps, depth):
        und = False
        for x, y in ps:
            try:
                if not self.same(x, y, depth + 1):
                    return False
            except Undef:
                und = True
        if und:
            raise Undef()
        return True

    def same_tokens(self, p, q, depth):
        """generated code: the values that the expressions mean"""
        def nest(v):
            out = []
            for x in self.as_list(v):
                if x.op != "adt" or not str(x.args[0]).startswith("tok:"):
                    raise Undef()
                f = fields_of(x)
                k = x.args[0][4:]
                if k == "group":
                    if f["0"].op != "adt":
                        raise Undef()
                    out.append(("g", f["0"].args[1] or f["0"].args[0], nest(f["1"])))
                elif k == "lit":
                    out.append(("lit", f["0"]))
                elif k == "punct":
                    out.append(("p", x.args[1]))
                elif k == "ident":
                    out.append(("id", self.as_str(f["0"])))
                else:
                    raise Undef()
            return out
        a, b = nest(fields_of(p)["0"]), nest(fields_of(q)["0"])
        try:
            x, y = genexpr.canonical(a), genexpr.canonical(b)
        except genexpr.Unknown:
            raise Undef()
        return self.same_code(x, y, depth)

    def same_code(self, x, y, depth):
        if x[0] == "compile_error" or y[0] == "compile_error":
            return x[0] == y[0]
        for z in (x, y):
            if z[0] == "neg" and z[1][0] == "lit" and self.num(z[1][1]) is not None:
                z2 = ("lit", I(-self.num(z[1][1])))
                if z is x:
                    x = z2
                else:
                    y = z2
        if x[0] != y[0]:
            raise Undef()
        if x[0] == "lit":
            if isinstance(x[1], str) or isinstance(y[1], str):
                if isinstance(x[1], str) and isinstance(y[1], str):
                    return x[1] == y[1]
                raise Undef()
            return self.same(x[1], y[1], depth + 1)
        if x[0] == "struct":
            if x[1] != y[1] or [n for n, _ in x[2]] != [n for n, _ in y[2]]:
                raise Undef()
            ps = [(u, v) for (_, u), (_, v) in zip(x[2], y[2])]
        elif x[0] == "new" or x[0] == "path":
            if x[1] != y[1]:
                # variants of an enum
                if x[0] == "path" and x[1][:1].isupper() and y[1][:1].isupper():
                    return False
                raise Undef()
            ps = list(zip(x[3], y[3])) if x[0] == "new" else []
            if x[0] == "new" and (len(x[3]) != len(y[3]) or x[1] not in ("Some", "Ok", "Err", "Layer", "Range")):
                raise Undef()
        elif x[0] in ("value", "parsed"):
            if x[1] != y[1]:
                raise Undef()
            ps = [(x[2], y[2])]
        else:
            raise Undef()
        und = False
        for u, v in ps:
            try:
                if u[0] != v[0] and {u[0], v[0]} == {"path", "new"} and {u[1], v[1]} == {"None", "Some"}:
                    return False
                if self.same_code(u, v, depth + 1) is False:
                    return False
            except Undef:
                und = True
        if und:
            raise Undef()
        return True

    def same_map(self, p, q, depth):
        a, b = self.map_entries(p), self.map_entries(q)
        da, db = [], []
        for es, d in ((a, da), (b, db)):
            for e in es:
                k, v = e.args[2][0][1], e.args[2][1][1]
                for i, (k2, _) in enumerate(d):
                    if self.same(k, k2, depth + 1):
                        d[i] = (k2, v)
                        break
                else:
                    d.append((k, v))
        if len(da) != len(db):
            return False
        for k, v in da:
            for k2, v2 in db:
                if self.same(k, k2, depth + 1):
                    if not self.same(v, v2, depth + 1):
                        return False
                    break
            else:
                return False
        return True

    def same_writes(self, where, x, y):
        a, b = self.as_list(self.g(x)), self.as_list(self.g(y))
        ws = [e for e in a + b if e.op != "adt" or e.args[0] != "tuple" or len(e.args[2]) != 2 or const_of(e.args[2][0][1]) is None]
        if where != "io" and any(e.op == "post" for e in ws):
            # written by functions that are not looked into
            raise Undef()
        if where == "io" or ws:
            if len(a) != len(b):
                if where != "io":
                    raise Undef()
                return False
            return self.all_same(list(zip(a, b)), 0)
        da = {const_of(e.args[2][0][1]): e.args[2][1][1] for e in a}
        db = {const_of(e.args[2][0][1]): e.args[2][1][1] for e in b}
        base = self.g(where)
        ps = []
        for i in sorted(set(da) | set(db)):
            old = self.resolve(mk("load", base, I(i)))
            ps.append((da.get(i, old), db.get(i, old)))
        return self.all_same(ps, 0)

    def map_entries(self, m):
        if m.op == "adt" and m.args[0] == "map":
            r = self.as_list(m.args[2][0][1])
        else:
            r = self.as_list(mk("ents", m))
        for e in r:
            if e.op != "adt" or len(e.args[2]) != 2:
                raise Undef()
        return r

    def variant_of(self, q, key):
        if q.op == "adt":
            return q.args[1]
        v = self.variant.get(q)
        self.touch(q)
        if v is None:
            if q.op in ("app", "call", "post", "unk"):
                self.check_free(q)
            vs = list(self.universe(key))
            if len(vs) > 2 and nesting(q) > 1:
                # nothing nests deeper than this
                vs = [x for x in vs if x not in ("GroupingNode", "CommutatorNode", "ConjugateNode")] or vs
            v = self.variant[q] = self.rnd.choice(vs)
            self.keys = getattr(self, "keys", {})
            self.keys[q] = key
        return v

    # ---- functions that are called
    def outcome(self, name, args):
        """the outcome of a function for these arguments; None: it stays uninterpreted"""
        if self.summ is None:
            return None
        outs = self.summ.get(name, len(args))
        if outs is None:
            return None
        key = ("call", name, args)
        if self.touched is None:
            r = self.loops.get(key)
            if r is not None:
                if r is Undef:
                    raise Undef()
                return r
        if self.deep > MAXDEEP:
            raise Undef()
        self.deep += 1
        try:
            am = self.summ.bind(name, args)
            memo = {}

            def sb(x):
                return subst(x, am.get, memo)
            for o in outs:
                self.tick()
                try:
                    h = self.all_true(o.conds, sb)
                except Undef:
                    continue
                if h:
                    if o.kind != "ret":
                        raise Undef()
                    r = (o, sb)
                    if self.touched is None:
                        self.loops[key] = r
                    return r
            raise Undef()
        except Undef:
            if self.touched is None and self.deep < 5:
                self.loops[key] = Undef
            raise
        finally:
            self.deep -= 1

    def literal(self, f, key, args):
        """f(), remembered if it depends on nothing but literals"""
        if self.summ is None or not all(is_literal(a) for a in args):
            return f()
        c = self.summ.cache
        if key in c:
            r = c[key]
            if r is Undef:
                raise Undef()
            return r
        saved = self.touched, self.memo, self.loops, self.deep
        self.touched, self.memo, self.loops = {}, {}, {}
        try:
            r = self.longer(f)
            if not self.touched:
                c[key] = r
            return r
        except Undef:
            if not self.touched and self.budget > 0 and saved[3] < 4:
                c[key] = Undef
            raise
        finally:
            if saved[0] is not None:
                saved[0].update(self.touched)
            self.touched, self.memo, self.loops, self.deep = saved

    def longer(self, f):
        """f(), with more iterations if it is cheap"""
        if self.maxiter >= 300:
            return f()
        try:
            return f()
        except Undef:
            if self.budget <= 20000:
                raise
            rest = self.budget - 20000
            maxiter, self.maxiter, self.budget = self.maxiter, 300, 20000
            self.memo, self.loops = {}, {}
            try:
                return f()
            finally:
                self.maxiter = maxiter
                self.budget = max(0, self.budget) + rest

    def called(self, name, args):
        """the result of a call"""
        return self.literal(lambda: self.called0(name, args), ("call", str(name), args), args)

    def call_post(self, name, i, args):
        return self.literal(lambda: self.call_post0(name, i, args), ("post", str(name), str(i), args), args)

    def called0(self, name, args):
        r = self.outcome(name, args)
        if r is None:
            return None
        self.deep += 1
        try:
            if self.deep > MAXDEEP:
                raise Undef()
            return self.g(r[1](r[0].value))
        finally:
            self.deep -= 1

    def call_post0(self, name, i, args):
        r = self.outcome(name, args)
        if r is None:
            return None
        for j, v in r[0].posts:
            if str(j) == str(i):
                self.deep += 1
                try:
                    if self.deep > MAXDEEP:
                        raise Undef()
                    x = self.g(r[1](v))
                finally:
                    self.deep -= 1
                if x.op == "adt" and x.args[0] == "Formatter":
                    a = args[int(i)]
                    if a.op != "adt" or a.args[0] != "Formatter":
                        raise Undef()
                    return adt("Formatter", "", [("buf", Str(self.as_str(fields_of(a)["buf"]) + self.as_str(fields_of(x)["buf"])))])
                return x
        return args[int(i)] if str(i).isdigit() else None

    def shown(self, name, x):
        """what Display writes"""
        if self.summ is None:
            return None
        n = self.summ.display(name)
        if n is None:
            return None
        f = adt("Formatter", "", [("buf", Str(""))])
        p = self.call_post(n, 1, (x, f))
        if p is None:
            return None
        return fields_of(p)["buf"]

    def expand(self, t, depth=0):
        """the term with calls replaced by what they currently give, written with the arguments of the call"""
        if self.summ is None or depth > 8:
            return t

        def f(x):
            if x.op == "call":
                n, args = x.args[0], x.args[1:]
                outs = self.summ.get(n, len(args))
                if outs is None:
                    return None
                ga = self.stable(lambda: tuple(self.ga(a) for a in args))
                r = self.stable(lambda: self.outcome(n, ga))
                if r is None or r[0].value is None:
                    return None
                am = self.summ.bind(n, args)
                return self.expand(subst(r[0].value, am.get), depth + 1)
            return None
        return subst(t, f)

    def force_call(self, x, key, v, want):
        """another outcome of a function"""
        n, args = x.args[0], x.args[1:]
        outs = self.summ.get(n, len(args)) if self.summ is not None else None
        if outs is None:
            return False
        os_ = [o for o in outs if o.kind == "ret" and (o.value.op != "adt" or (o.value.args[1] == v) == want)]
        if not os_:
            return False
        o = self.rnd.choice(os_)
        am = self.summ.bind(n, args)
        memo = {}
        done = False
        conds = [subst(c, am.get, memo) for c in o.conds]
        if o.value.op != "adt":
            conds.append(mk("is", subst(o.value, am.get, memo), key, v) if want else neg(mk("is", subst(o.value, am.get, memo), key, v)))
        for c in conds:
            try:
                if not self.cond(c):
                    done = self.force(c) or done
                    self.reset()
            except Undef:
                pass
        return done

    def all_true(self, cs, sb):
        """do the conditions hold? (in any order: a false one may be why another has no value)"""
        und = False
        for c in by_cost(cs):
            try:
                if not self.truth(sb(c)):
                    return False
            except Undef:
                if self.budget <= 0:
                    raise
                und = True
        if und:
            raise Undef()
        return True

    # ---- loops
    def run_loop(self, rec):
        r = self.loops.get(rec)
        if r is not None:
            if r is False:
                raise Undef()
            return r
        try:
            return self.run_loop0(rec)
        except Undef:
            if self.budget > 0:
                self.loops[rec] = False
            raise

    def run_loop0(self, rec):
        lvl, inits, backs, exits, divs = rec.args
        vals = [self.g(x) for x in inits]
        states = [vals]
        for it in range(self.maxiter):
            self.tick()
            kt = mk("k", lvl)
            m = {kt: I(it)}
            for i, v in enumerate(vals):
                m[mk("sv", lvl, i)] = v
            memo = {}

            def own(x):
                # (not those of another loop with the same number)
                return x if x.op == "loop" and x.args[0] == lvl else m.get(x)

            def sb(x):
                return subst(x, own, memo)
            hit = None
            for kind, alts in (("exit", exits), ("back", backs), ("div", divs)):
                for alt in alts:
                    cs = alt[0] if kind == "back" else alt
                    try:
                        if self.all_true(cs, sb):
                            hit = (kind, alt)
                            break
                    except Undef:
                        pass
                if hit:
                    break
            if hit is None:
                raise Undef()
            if hit[0] != "back":
                r = self.loops[rec] = (hit[0], it, states)
                return r
            vals = [self.g(sb(v)) for v in hit[1][1]]
            states.append(vals)
        raise Undef()

    # ---- moving towards an interpretation under which a condition holds
    def force(self, c, want=True, depth=0):
        if depth > 8:
            return False
        if self.summ is not None and depth == 0:
            try:
                e = self.expand(c)
            except Undef:
                e = c
            if e is not c and e.op != "bool" and self.rnd.random() < 0.7:
                c = e
        if c.op == "not":
            return self.force(c.args[0], not want, depth + 1)
        if c.op == "and":
            if want:
                ok = False
                for x in c.args:
                    try:
                        if not self.cond(x):
                            ok = self.force(x, True, depth + 1) or ok
                    except Undef:
                        pass
                return ok
            return self.force(self.rnd.choice(c.args), False, depth + 1)
        if c.op == "is" and c.args[0].op == "call" and self.summ is not None and self.force_call(c.args[0], c.args[1], c.args[2], want):
            return True
        if c.op == "is":
            x = self.stable(lambda: self.g(c.args[0]))
            if x.op in NOALIAS:
                return False
            vs = [v for v in self.universe(c.args[1]) if (v == c.args[2]) == want]
            if not vs:
                return False
            self.variant[x] = self.rnd.choice(vs)
            return True
        if c.op == "hin":
            return self.force_head(c.args[0], c.args[1] if want else T.cs_not(c.args[1]))
        if c.op == "eq":
            a = self.stable(lambda: self.g(c.args[0]))
            b = self.stable(lambda: self.g(c.args[1]))
            if want:
                for p, tp, q in ((a, c.args[0], b), (b, c.args[1], a)):
                    if p.op not in NOALIAS and p not in T.subterms(q):
                        self.leaf[p] = q
                        return True
                    if q.op == "str":
                        l = self.str_leaf(tp)
                        if l is not None and l in self.leaf and self.leaf[l].op == "str":
                            self.leaf[l] = q
                            return True
            return False
        if c.op in ("le0", "eq0"):
            l = c.args[0] if want else None
            if l is None and c.op == "le0":
                l = neg(c).args[0] if neg(c).op == "le0" else None
            if l is not None:
                return self.force_lin(l, c.op)
            return False
        if c.op in ("app", "call", "fld", "sym", "has", "ptreq"):
            x = self.stable(lambda: self.g_raw(c))
            if x is not None:
                self.leaf[x] = B(want)
                return True
        return False

    def g_raw(self, t):
        """the ground form of a leaf"""
        if t.op == "fld":
            x = self.raw_field(t)
            if x in self.leaf:
                return x
        na = tuple(self.ga(a) for a in t.args)
        x = t if na == t.args else T.rebuild(t.op, na, t.ty, t)
        return x if x in self.leaf or x.op in (t.op,) and base_name(x.args[0]) not in INTERP else None

    def raw_field(self, t):
        """a field as a leaf is called, without looking into what the value is now"""
        b = t.args[0]
        if b.op == "fld":
            b = self.raw_field(b)
        elif b.op != "sym":
            na = tuple(self.ga(a) for a in b.args)
            b = b if na == b.args else T.rebuild(b.op, na, b.ty, b)
        return t if b is t.args[0] else mk("fld", b, *t.args[1:], ty=t.ty)

    def str_leaf(self, t):
        """the leaf a text is taken from"""
        x = self.str_leaf0(t)
        while x is None:
            # what a parser leaves is the end of what it was given
            while t.op in ("fld", "after", "adv", "span"):
                t = t.args[0]
            if t.op == "call":
                a = t.args[-1]
                t = a[-1] if isinstance(a, tuple) and a else None
            elif t.op == "app" and t.args[0] == "parse_rest":
                t = t.args[-1]
            else:
                return None
            if not isinstance(t, T.Term):
                return None
            x = self.str_leaf0(t)
        return x

    def str_leaf0(self, t):
        while t.op in ("after", "adv", "span") or (t.op == "app" and len(t.args) > 1 and isinstance(t.args[1], T.Term) and str(t.args[0]).startswith(("str::", "strip_"))):
            t = t.args[0] if t.op != "app" else t.args[1]
        try:
            x = self.stable(lambda: self.g_raw(t))
        except Undef:
            return None
        return x if x is not None and x in self.leaf else None

    def force_head(self, p, cs):
        try:
            s = self.as_str(self.stable(lambda: self.g(p)))
        except Undef:
            return False
        l = self.str_leaf(p)
        if l is None or self.leaf[l].op != "str" or not cs:
            return False
        whole = self.leaf[l].args[0]
        if not whole.endswith(s):
            return False
        i = len(whole) - len(s)
        lo, hi = self.rnd.choice(cs)
        if lo < 0 and (hi < 0 or self.rnd.random() < 0.5):
            self.leaf[l] = Str(whole[:i])
            return True
        lo = max(lo, 0)
        opts = [c for c in "aRx1209 \n\t()[]:,/'._-éß" if any(a <= ord(c) <= b for a, b in cs)]
        c = self.rnd.choice(opts) if opts and self.rnd.random() < 0.9 else chr(self.rnd.randint(lo, min(hi, lo + 20)))
        if 0xD800 <= ord(c) <= 0xDFFF:
            return False
        self.leaf[l] = Str(whole[:i] + c + (whole[i + 1:] if self.rnd.random() < 0.6 else whole[i:]))
        return True

    def force_number(self, x, v):
        """writes the number that is read from a text into the text"""
        t = x.args[0].args[1]
        if not isinstance(t, T.Term) or t.op not in ("span", "adv", "after") and t.op != "app":
            return False
        try:
            s = self.as_str(self.stable(lambda: self.g(t)))
            l = self.str_leaf(t)
            if l is None or self.leaf[l].op != "str":
                return False
            whole = self.leaf[l].args[0]
            if t.op == "span":
                i = len(whole) - len(self.as_str(self.stable(lambda: self.g(t.args[0]))))
            elif whole.endswith(s):
                i = len(whole) - len(s)
            else:
                return False
        except Undef:
            return False
        if i < 0 or whole[i:i + len(s)] != s:
            return False
        z = "0" * self.rnd.choice((0, 0, 0, 1)) if v >= 0 else ""
        self.leaf[l] = Str(whole[:i] + z + str(v) + whole[i + len(s):])
        return True

    def force_lin(self, l, op):
        c0, p = T.lin_parts(l)
        opts = []
        if len(p) == 1 and p[0][0].op == "fld" and p[0][0].args[0].op == "app" and base_name(p[0][0].args[0].args[0]) == "str::parse":
            k = p[0][1]
            v = -c0 // k if k < 0 or op == "eq0" else (-c0) // k
            if op == "le0" and k < 0:
                v = -(-c0 // -k) if c0 % k else c0 // -k
            if k * v + c0 == 0 or op == "le0" and k * v + c0 <= 0:
                return self.force_number(p[0][0], v)
            return False
        for x, k in p:
            try:
                y = self.stable(lambda: self.g_raw_int(x))
            except Undef:
                continue
            if y is not None:
                opts.append((x, k, y))
        self.rnd.shuffle(opts)
        for x, k, y in opts:
            try:
                rest = c0 + sum(q * self.stable(lambda: self.num(z)) for z, q in p if z is not x)
            except Undef:
                continue
            if op == "eq0":
                if rest % k:
                    continue
                v = -rest // k
            else:
                # k*v + rest <= 0
                v = (-rest) // k if k > 0 else -((-rest) // (-k)) if rest % k == 0 else (rest // (-k)) + 1
                if k * v + rest > 0:
                    continue
            if y.ty is not None and y.ty[0] == "int" and y.ty[1] in T.INT_RANGES:
                lo, hi = T.INT_RANGES[y.ty[1]]
                if not lo <= v <= hi:
                    continue
            if y.op == "len" and not 0 <= v <= self.maxlen:
                continue
            try:
                if self.set_leaf(y, v):
                    return True
            except Undef:
                pass
        return False

    def g_raw_int(self, t):
        if t.op in ("lin", "mul", "rem", "div", "cast", "max0", "kx", "st"):
            return None
        if t.op == "len":
            x = self.g(t.args[0])
            if x.op in NOALIAS:
                return None
            return mk("len", x, ty=t.ty)
        if t.op == "fld":
            b = self.g(t.args[0])
            if b.op == "adt":
                return None
        if t.op == "head":
            return None
        na = tuple(self.ga(a) for a in t.args)
        x = t if na == t.args else mk(t.op, *na, ty=t.ty)
        return x if x in self.leaf else None

    def nudge(self, c):
        """changes one leaf that the condition depends on"""
        self.reset()
        self.touched = {}
        try:
            try:
                self.cond(c)
            except Undef:
                pass
            ts = self.touched
        finally:
            self.touched = None
            self.reset()
        ts = list(ts)
        if not ts:
            return False
        t = self.rnd.choice(ts)
        if t in self.other:
            del self.other[t]
            return True
        x = self.leaf.get(t)
        if x is None:
            if t in self.variant:
                del self.variant[t]
                return True
            return False
        if x.op == "lin":
            if t.op == "load":
                return self.set_leaf(t, self.rnd.choice((0, 1, 2, 3)))
            return self.set_leaf(t, self.pick_int(t))
        elif x.op == "bool":
            self.leaf[t] = neg(x)
        elif x.op == "str":
            self.leaf[t] = Str(self.pick_str())
        else:
            del self.leaf[t]
        return True


_packers = {}


def packer_tables(n):
    """the packed orientations of an orbit with n orientations: the first value of each orientation_mod, and the values"""
    r = _packers.get(n)
    if r is None:
        if not 1 <= n <= 107:
            raise Undef()
        pack, unpack = {}, []
        for m in range(256):
            f = m or n
            if n % f:
                continue
            pack[m] = len(unpack)
            unpack += [(o, m) for o in range(f)]
        r = _packers[n] = (pack, unpack)
    return r


# ------------------------------------------------------------------ operators
OPS = {}


def op(*names):
    def d(f):
        for n in names:
            OPS[n] = f
        return f
    return d


@op("lin")
def _(ev, t):
    r = t.args[0]
    for x, k in t.args[1]:
        r += k * ev.num(x)
    return I(r)


@op("mul")
def _(ev, t):
    r = 1
    for x in t.args:
        r *= ev.num(x)
    return I(r)


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


@op("rem", "div")
def _(ev, t):
    a, b = ev.num(t.args[0]), ev.num(t.args[1])
    if b == 0:
        raise Undef()
    return I(tdiv(a, b) if t.op == "div" else a - b * tdiv(a, b))


@op("cast")
def _(ev, t):
    if t.args[0] not in T.INT_RANGES:
        raise Undef()
    lo, hi = T.INT_RANGES[t.args[0]]
    x = ev.num(t.args[1])
    return I((x - lo) % (hi - lo + 1) + lo)


@op("max0")
def _(ev, t):
    return I(max(0, ev.num(t.args[0])))


@op("bitAnd", "bitOr", "bitXor")
def _(ev, t):
    a, b = ev.num(t.args[0]), ev.num(t.args[1])
    return I(a & b if t.op == "bitAnd" else a | b if t.op == "bitOr" else a ^ b)


@op("bitnot")
def _(ev, t):
    x = ev.num(t.args[0])
    if t.ty is None or t.ty[0] != "int" or t.ty[1] not in T.INT_RANGES:
        raise Undef()
    lo, hi = T.INT_RANGES[t.ty[1]]
    return I(hi - x if lo == 0 else -1 - x)


@op("Shr", "Shl")
def _(ev, t):
    a, b = ev.num(t.args[0]), ev.num(t.args[1])
    if not 0 <= b < 64:
        raise Undef()
    if t.op == "Shr":
        return I(a >> b)
    if t.ty is not None and t.ty[0] == "int":
        lo, hi = T.INT_RANGES[t.ty[1]]
        return I(((a << b) - lo) % (hi - lo + 1) + lo)
    raise Undef()


@op("bool", "str", "bytes", "fn")
def _(ev, t):
    return t


@op("le0")
def _(ev, t):
    return B(ev.num(t.args[0]) <= 0)


@op("eq0")
def _(ev, t):
    return B(ev.num(t.args[0]) == 0)


@op("not")
def _(ev, t):
    return B(not ev.truth(t.args[0]))


@op("and")
def _(ev, t):
    und = False
    for x in t.args:
        try:
            if not ev.truth(x):
                return FALSE
        except Undef:
            und = True
    if und:
        raise Undef()
    return TRUE


@op("eq")
def _(ev, t):
    return B(ev.same(ev.g(t.args[0]), ev.g(t.args[1])))


@op("is")
def _(ev, t):
    x = ev.g(t.args[0])
    if x.op in ("str", "bool", "lin", "list"):
        raise Undef()
    return B(ev.variant_of(x, t.args[1]) == t.args[2])


@op("hin")
def _(ev, t):
    s = ev.as_str(ev.g(t.args[0]))
    c = ord(s[0]) if s else -1
    return B(any(a <= c <= b for a, b in t.args[1]))


@op("head")
def _(ev, t):
    s = ev.as_str(ev.g(t.args[0]))
    return I(ord(s[0]) if s else -1)


def skip_set(s, cs):
    i = 0
    while i < len(s) and any(a <= ord(s[i]) <= b for a, b in cs):
        i += 1
    return i


@op("after", "span")
def _(ev, t):
    s = ev.as_str(ev.g(t.args[0]))
    i = skip_set(s, t.args[1])
    return Str(s[i:] if t.op == "after" else s[:i])


@op("adv")
def _(ev, t):
    s = ev.as_str(ev.g(t.args[0]))
    n = t.args[1]
    n = ev.num(n) if isinstance(n, T.Term) else n
    if n > len(s):
        raise Undef()
    return Str(s[n:])


@op("cat")
def _(ev, t):
    return Str("".join(ev.as_str(ev.g(x)) for x in t.args))


@op("adt")
def _(ev, t):
    if str(t.args[0]).startswith("closure"):
        return adt(t.args[0], t.args[1], [(n, ev.g(v)) for n, v in t.args[2]])
    return adt(t.args[0], t.args[1], [(n, ev.g(v)) for n, v in t.args[2]])


@op("fld")
def _(ev, t):
    b = ev.g(t.args[0])
    if b.op == "adt":
        f = fields_of(b)
        if t.args[2] in f and b.args[1] == t.args[1]:
            return f[t.args[2]]
        raise Undef()
    if b.op in NOALIAS:
        raise Undef()
    return ev.resolve(mk("fld", b, *t.args[1:], ty=t.ty))


def value_list(ev, xs):
    """a list of values"""
    if len(xs) < 40:
        return mk("list", *[("e", x) for x in xs])
    # not shared with others: long arrays are updated often
    t = T.Term()
    t.op, t.args, t.id, t.ty, t.taint, t.lvl = "list", tuple([("e", x) for x in xs]), -1 - len(ev.arrays), None, False, 0
    t._h = hash(("list", id(t)))
    ev.arrays[t] = t
    return t


@op("list")
def _(ev, t):
    if t in ev.arrays:
        return t
    out = []
    for s in t.args:
        if s[0] == "e":
            out.append(("e", ev.g(s[1])))
        else:
            out += [("e", x) for x in ev.as_list(ev.g(s[1]))]
        if len(out) > 600:
            raise Undef()
    return mk("list", *out)


@op("seq")
def _(ev, t):
    """what an iterator goes over"""
    k = t.args[0]
    if k in ("list", "copied", "ref", "rev", "enum"):
        x = ev.g(t.args[1])
        if x.op == "seq":
            raise Undef()
        if k in ("list", "copied", "ref"):
            return x
        l = ev.as_list(x)
        if k == "rev":
            return mk("list", *[("e", y) for y in reversed(l)])
        return mk("list", *[("e", tup(I(i), y)) for i, y in enumerate(l)])
    if k == "range":
        lo, n = ev.num(t.args[1]), ev.num(t.args[2])
        if n > 600:
            raise Undef()
        return mk("list", *[("e", I(lo + i)) for i in range(max(0, n))])
    if k in ("skip", "take"):
        l, n = ev.as_list(ev.g(t.args[1])), ev.num(t.args[2])
        return mk("list", *[("e", y) for y in (l[n:] if k == "skip" else l[:n])])
    if k in ("chunks", "chunks_exact", "windows", "step"):
        l, n = ev.as_list(ev.g(t.args[1])), ev.num(t.args[2])
        if n < 1:
            raise Undef()
        if k == "step":
            return mk("list", *[("e", y) for y in l[::n]])
        out = [l[i:i + n] for i in range(0, len(l), 1 if k == "windows" else n)]
        if k != "chunks":
            out = [y for y in out if len(y) == n]
        return mk("list", *[("e", mk("list", *[("e", z) for z in y])) for y in out])
    if k in ("zip", "chain"):
        a, b = ev.as_list(ev.g(t.args[1])), ev.as_list(ev.g(t.args[2]))
        return mk("list", *[("e", tup(x, y)) for x, y in zip(a, b)] if k == "zip" else [("e", x) for x in a + b])
    if k == "opaque" or k in ("map", "set", "mapents", "chars") and len(t.args) == 2:
        na = tuple(ev.ga(a) for a in t.args)
        if k == "chars" and na[1].op == "str":
            return ls([I(ord(c)) for c in na[1].args[0]])
        if k == "opaque" and na[1].op == "list":
            return na[1]
        x = t if na == t.args else mk("seq", *na, ty=t.ty)
        return ev.resolve(x)
    raise Undef()


@op("fam")
def _(ev, t):
    n = ev.num(t.args[0])
    if n > 300:
        raise Undef()
    b = t.args[1]
    bv = mk("bv", b.lvl)
    out = []
    for i in range(max(0, n)):
        out.append(("e", ev.g(subst(b, lambda x: I(i) if x is bv else None))))
    return mk("list", *out)


@op("concat")
def _(ev, t):
    out = []
    for x in ev.as_list(ev.g(t.args[0])):
        out += ev.as_list(x)
    return mk("list", *[("e", x) for x in out])


@op("join")
def _(ev, t):
    return Str("".join(ev.as_str(x) for x in ev.as_list(ev.g(t.args[0]))))


@op("len")
def _(ev, t):
    x = ev.g(t.args[0])
    if x.op == "str":
        return I(len(x.args[0].encode("utf-8", "surrogatepass")))
    if x.op in ("list", "bytes"):
        return I(len(x.args) if x.op == "list" else len(x.args[0]))
    if x.op in NOALIAS:
        raise Undef()
    if x.op in ("app", "call", "post", "unk"):
        ev.check_free(x)
    return ev.resolve(mk("len", x, ty=t.ty))


@op("at")
def _(ev, t):
    x = ev.g(t.args[0])
    i = ev.num(t.args[1])
    if x.op in ("list", "bytes"):
        xs = ev.as_list(x)
        if not 0 <= i < len(xs):
            raise Undef()
        return xs[i]
    if x.op in NOALIAS:
        raise Undef()
    if x.op == "ents":
        xs = ev.as_list(x)
        if not 0 <= i < len(xs):
            raise Undef()
        return xs[i]
    return ev.resolve(mk("at", x, I(i), ty=t.ty or elem_ty(x.ty)))


@op("rep")
def _(ev, t):
    n = ev.num(t.args[1])
    if n > 600:
        raise Undef()
    return mk("list", *[("e", ev.g(t.args[0]))] * n)


@op("upd")
def _(ev, t):
    xs = list(ev.as_list(ev.g(t.args[0])))
    i = ev.num(t.args[1])
    if not 0 <= i < len(xs):
        raise Undef()
    xs[i] = ev.g(t.args[2])
    return value_list(ev, xs)


@op("slice")
def _(ev, t):
    xs = ev.as_list(ev.g(t.args[0]))
    lo, hi = ev.num(t.args[1]), ev.num(t.args[2])
    if not 0 <= lo <= hi <= len(xs):
        raise Undef()
    return mk("list", *[("e", x) for x in xs[lo:hi]])


@op("st")
def _(ev, t):
    rec = t.args[0]
    r = ev.run_loop(rec)
    k = ev.num(t.args[2])
    if not 0 <= k < len(r[2]):
        raise Undef()
    return r[2][k][t.args[1]]


@op("kx")
def _(ev, t):
    return I(ev.run_loop(t.args[0])[1])


@op("loop")
def _(ev, t):
    raise Undef()


@op("mem")
def _(ev, t):
    p, n, h = t.args
    n = ev.num(n)
    if not 0 <= n <= 64:
        raise Undef()
    return mk("list", *[("e", mem_byte(ev, p, I(i), h)) for i in range(n)])


def mem_byte(ev, p, i, h):
    p = ev.g(p) if p.op not in ("ptr", "ptrv") else p
    base, off = (p.args[0], p.args[1]) if p.op == "ptr" else (p, I(0))
    if p.op == "ptrv":
        # memory of a new allocation with what was written
        return heap_byte(ev, mk("str", "alloc"), I(ev.num(p.args[1]) + ev.num(i)), p.args[2], True)
    return heap_byte(ev, base, I(ev.num(off) + ev.num(i)), h, False)


def heap_byte(ev, base, i, h, fresh):
    n = const_of(i)
    w = None
    if h is not None:
        for e in ev.as_list(ev.g(h)):
            if e.op != "adt" or len(e.args[2]) != 2:
                raise Undef()
            if const_of(ev.g(e.args[2][0][1])) is None:
                raise Undef()
            if const_of(ev.g(e.args[2][0][1])) == n:
                w = e.args[2][1][1]
    if w is not None:
        return w
    if fresh:
        return mk("uninit", i)
    return first_byte(ev, ev.g(base), i)


def first_byte(ev, b, i, ty=None):
    """what a byte of memory was before: of a parameter, or of a new allocation that a function returned"""
    if b.op == "ptr":
        b, i = b.args[0], I(ev.num(b.args[1]) + const_of(i))
    if b.op == "ptrv":
        return heap_byte(ev, mk("str", "alloc"), I(ev.num(b.args[1]) + const_of(i)), b.args[2], True)
    return ev.resolve(mk("load", b, i, ty=ty))


@op("load")
def _(ev, t):
    if len(t.args) == 3:
        return mem_byte(ev, t.args[0], t.args[2], t.args[1])
    return first_byte(ev, ev.g(t.args[0]), I(ev.num(t.args[1])), t.ty)


@op("loadm")
def _(ev, t):
    base, off, h = t.args
    if base.op == "bool":
        return heap_byte(ev, base, I(ev.num(off)), h, True)
    return heap_byte(ev, base, I(ev.num(off)), h, False)


@op("has")
def _(ev, t):
    m, k = ev.g(t.args[0]), ev.g(t.args[1])
    if m.op == "list" or m in ev.ents:
        return B(find_entry(ev, m, k) is not None)
    if m.op == "adt" and m.args[0] == "map":
        return B(find_entry(ev, m, k) is not None)
    return ev.resolve(mk("has", m, k))


def find_entry(ev, m, k):
    es = ev.as_list(m) if m.op == "list" else ev.map_entries(m)
    for e in reversed(es):
        if ev.same(e.args[2][0][1], k):
            return e.args[2][1][1]
    return None


@op("mget")
def _(ev, t):
    m, k = ev.g(t.args[0]), ev.g(t.args[1])
    if m.op == "list" or m in ev.ents or (m.op == "adt" and m.args[0] == "map"):
        v = find_entry(ev, m, k)
        if v is None:
            raise Undef()
        return v
    return ev.resolve(mk("mget", m, k, ty=t.ty))


@op("ents")
def _(ev, t):
    m = ev.g(t.args[0])
    if m.op == "adt" and m.args[0] == "map":
        return m.args[2][0][1]
    return mk("ents", m)


@op("call")
def _(ev, t):
    args = tuple(ev.ga(a) for a in t.args[1:])
    r = ev.called(t.args[0], args)
    if r is not None:
        return r
    return ev.resolve(mk("call", t.args[0], *args, ty=t.ty))


@op("app")
def _(ev, t):
    n = base_name(t.args[0])
    if n.startswith("show:") and ev.summ is not None and len(t.args) == 2:
        x = ev.ga(t.args[1])
        r = ev.shown(str(t.args[0])[5:], x)
        if r is not None:
            return r
    f = INTERP.get(n)
    if f is not None:
        args = [ev.g(a) for a in t.args[1:]]
        r = f(ev, args, t)
        if r is not None:
            return r
        x = mk("app", t.args[0], *args, ty=t.ty)
        return ev.resolve(x)
    x = mk("app", t.args[0], *[ev.ga(a) for a in t.args[1:]], ty=t.ty)
    return ev.resolve(x)


@op("post")
def _(ev, t):
    n = base_name(t.args[0])
    f = POSTS.get(n)
    args = [ev.ga(a) for a in t.args[2:]]
    if f is not None and isinstance(t.args[1], int):
        r = f(ev, t.args[1], args, t)
        if r is not None:
            return r
    if ev.summ is not None and not isinstance(t.args[1], tuple):
        r = ev.call_post(t.args[0], t.args[1], tuple(args))
        if r is not None:
            return r
    x = mk("post", t.args[0], t.args[1], *args, ty=t.ty)
    ev.check_free(x)
    return ev.resolve(x)


# ------------------------------------------------------------------ the standard library
INTERP = {}
POSTS = {}
# predicates and functions of library values without a relation to anything else
FREE = {"Error::is_eof", "Error::is_syntax", "Error::is_io", "Error::is_data", "Error::line", "Error::column", "Error::classify"}
# what these do is up to the format: no law relates them to the other ways of writing a value
FREE |= {"Serializer::serialize_" + x for x in ("none unit some bool char bytes f32 f64 i8 i16 i32 i64 i128 u8 u16 u32 u64 u128".split())}


def lib(*names):
    def d(f):
        for n in names:
            INTERP[n] = f
        return f
    return d


def post(*names):
    def d(f):
        for n in names:
            POSTS[n] = f
        return f
    return d


def ls(xs):
    return mk("list", *[("e", x) for x in xs])


def opt(x):
    return NONE if x is None else some(x)


def char_pred(ev, p):
    """a pattern as a predicate on characters"""
    c = const_of(p)
    if c is not None:
        return lambda ch: ord(ch) == c
    if p.op == "list":
        cs = [const_of(x) for x in ev.as_list(p)]
        if None in cs:
            raise Undef()
        return lambda ch: ord(ch) in cs
    if p.op == "fn":
        n = str(p.args[0]).split("::")[-1]
        f = CHARS.get(n)
        if f is not None:
            return f
    raise Undef()


CHARS = {"is_whitespace": lambda c: c in WS, "is_alphabetic": lambda c: c.isalpha() or c in "ªº\u02b0\u0345", "is_numeric": lambda c: c.isnumeric() and not ("\u4e00" <= c <= "\u9fff"),
         "is_alphanumeric": lambda c: c.isalpha() or c.isnumeric(), "is_uppercase": lambda c: c.isupper(), "is_lowercase": lambda c: c.islower(),
         "is_control": lambda c: ord(c) < 32 or 127 <= ord(c) < 160, "is_ascii_digit": lambda c: "0" <= c <= "9", "is_ascii_whitespace": lambda c: c in " \t\n\r\x0c",
         "is_ascii_alphabetic": lambda c: c.isascii() and c.isalpha(), "is_ascii_alphanumeric": lambda c: c.isascii() and c.isalnum(),
         "is_ascii": lambda c: c.isascii(), "is_ascii_uppercase": lambda c: "A" <= c <= "Z", "is_ascii_lowercase": lambda c: "a" <= c <= "z",
         "is_ascii_punctuation": lambda c: c.isascii() and c.isprintable() and not c.isalnum() and c != " "}


def _mkchar(n):
    f = CHARS[n]

    def r(ev, a, t):
        c = const_of(a[0])
        if c is None or c < 0:
            raise Undef()
        return B(bool(f(chr(c))))
    return r


for _n in CHARS:
    INTERP["char::" + _n] = _mkchar(_n)


@lib("char::to_ascii_lowercase", "char::to_ascii_uppercase")
def _(ev, a, t):
    c = chr(ev.num(a[0]))
    return I(ord((c.lower() if "lower" in t.args[0] else c.upper()) if c.isascii() else c))


@lib("char::to_digit")
def _(ev, a, t):
    c, r = chr(ev.num(a[0])), ev.num(a[1])
    d = "0123456789abcdefghijklmnopqrstuvwxyz".find(c.lower()) if c.isascii() else -1
    return opt(I(d) if 0 <= d < r and c else None)


@lib("char::len_utf8")
def _(ev, a, t):
    return I(len(chr(ev.num(a[0])).encode()))


@lib("dec")
def _(ev, a, t):
    return Str(str(ev.num(a[0])))


@lib("chr")
def _(ev, a, t):
    c = ev.num(a[0])
    if c < 0 or 0xD800 <= c <= 0xDFFF:
        raise Undef()
    return Str(chr(c))


@lib("join")
def _(ev, a, t):
    return Str(ev.as_str(a[1]).join(ev.as_str(x) for x in ev.as_list(a[0])))


@lib("contains")
def _(ev, a, t):
    return B(ev.as_str(a[1]) in ev.as_str(a[0]))


@lib("contains_in")
def _(ev, a, t):
    return B(any(lo <= ord(c) <= hi for c in ev.as_str(a[0]) for lo, hi in a[1]))


@lib("find_in", "rfind_in")
def _(ev, a, t):
    s = ev.as_str(a[0])
    ix = [i for i, c in enumerate(s) if any(lo <= ord(c) <= hi for lo, hi in a[1])]
    if not ix:
        raise Undef()
    return I(len(s[:ix[0] if t.args[0] == "find_in" else ix[-1]].encode()))


@lib("find_str", "rfind_str")
def _(ev, a, t):
    s, p = ev.as_str(a[0]), ev.as_str(a[1])
    i = s.find(p) if t.args[0] == "find_str" else s.rfind(p)
    if i < 0:
        raise Undef()
    return I(len(s[:i].encode()))


@lib("has_prefix")
def _(ev, a, t):
    return B(ev.as_str(a[0]).startswith(ev.as_str(a[1])))


@lib("has_suffix")
def _(ev, a, t):
    return B(ev.as_str(a[0]).endswith(ev.as_str(a[1])))


@lib("strip_prefix", "strip_suffix")
def _(ev, a, t):
    s, p = ev.as_str(a[0]), ev.as_str(a[1])
    if t.args[0] == "strip_prefix":
        if not s.startswith(p):
            raise Undef()
        return Str(s[len(p):])
    if not s.endswith(p):
        raise Undef()
    return Str(s[:len(s) - len(p)])


@lib("str::trim", "str::trim_end", "str::trim_start", "str::trim_left", "str::trim_right", "str::trim_ascii", "str::trim_ascii_start", "str::trim_ascii_end")
def _(ev, a, t):
    n = base_name(t.args[0])
    ws = set(" \t\n\r\x0c") if "ascii" in n else WS
    return Str(trim(ev.as_str(a[0]), lambda c: c in ws, n))


def trim(s, f, n):
    if not n.endswith(("_end", "right", "end_matches", "right_matches")):
        while s and f(s[0]):
            s = s[1:]
    if not n.endswith(("_start", "left", "start_matches", "left_matches")):
        while s and f(s[-1]):
            s = s[:-1]
    return s


@lib("str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::trim_left_matches", "str::trim_right_matches")
def _(ev, a, t):
    n = base_name(t.args[0])
    s = ev.as_str(a[0])
    if a[1].op == "str":
        p = a[1].args[0]
        if not p:
            raise Undef()
        if "end" in n or "right" in n:
            while s.endswith(p):
                s = s[:-len(p)]
        else:
            while s.startswith(p):
                s = s[len(p):]
        return Str(s)
    return Str(trim(s, char_pred(ev, a[1]), n))


@lib("str::replace", "str::replacen")
def _(ev, a, t):
    s, r = ev.as_str(a[0]), ev.as_str(a[2])
    n = ev.num(a[3]) if len(a) > 3 else -1
    if a[1].op == "str":
        p = a[1].args[0]
        if p == "":
            raise Undef()
        return Str(s.replace(p, r, n))
    f = char_pred(ev, a[1])
    out, k = [], 0
    for ch in s:
        if f(ch) and (n < 0 or k < n):
            out.append(r)
            k += 1
        else:
            out.append(ch)
    return Str("".join(out))


@lib("str::starts_with", "str::ends_with", "str::contains")
def _(ev, a, t):
    s = ev.as_str(a[0])
    n = base_name(t.args[0])
    if a[1].op == "str":
        p = a[1].args[0]
        return B(s.startswith(p) if "starts" in n else s.endswith(p) if "ends" in n else p in s)
    f = char_pred(ev, a[1])
    if not s:
        return FALSE
    return B(f(s[0]) if "starts" in n else f(s[-1]) if "ends" in n else any(f(c) for c in s))


@lib("str::find", "str::rfind")
def _(ev, a, t):
    s = ev.as_str(a[0])
    r = "rfind" in t.args[0]
    if a[1].op == "str":
        i = s.rfind(a[1].args[0]) if r else s.find(a[1].args[0])
    else:
        f = char_pred(ev, a[1])
        ix = [i for i, c in enumerate(s) if f(c)]
        i = -1 if not ix else ix[-1] if r else ix[0]
    return opt(None if i < 0 else I(len(s[:i].encode())))


@lib("str::len", "String::len")
def _(ev, a, t):
    return I(len(ev.as_str(a[0]).encode()))


@lib("str::is_empty", "String::is_empty")
def _(ev, a, t):
    return B(ev.as_str(a[0]) == "")


@lib("str::lines")
def _(ev, a, t):
    s = ev.as_str(a[0])
    xs = s.split("\n")
    if xs and xs[-1] == "":
        xs.pop()
    return ls([Str(x[:-1] if x.endswith("\r") else x) for x in xs])


@lib("str::split_whitespace")
def _(ev, a, t):
    s = "".join(" " if c in WS else c for c in ev.as_str(a[0]))
    return ls([Str(x) for x in s.split(" ") if x])


@lib("str::split_ascii_whitespace")
def _(ev, a, t):
    s = "".join(" " if c in " \t\n\r\x0c" else c for c in ev.as_str(a[0]))
    return ls([Str(x) for x in s.split(" ") if x])


@lib("str::split", "str::rsplit", "str::split_terminator")
def _(ev, a, t):
    s = ev.as_str(a[0])
    if a[1].op == "str":
        if not a[1].args[0]:
            raise Undef()
        xs = s.split(a[1].args[0])
    else:
        f = char_pred(ev, a[1])
        xs = [""]
        for ch in s:
            if f(ch):
                xs.append("")
            else:
                xs[-1] += ch
    if "terminator" in t.args[0] and xs[-1] == "":
        xs.pop()
    return ls([Str(x) for x in (xs[::-1] if "rsplit" in t.args[0] else xs)])


@lib("str::split_once", "str::rsplit_once")
def _(ev, a, t):
    s = ev.as_str(a[0])
    p = a[1].args[0] if a[1].op == "str" else chr(ev.num(a[1])) if const_of(a[1]) is not None else None
    if not p:
        raise Undef()
    i = s.rfind(p) if "rsplit" in t.args[0] else s.find(p)
    return NONE if i < 0 else some(tup(Str(s[:i]), Str(s[i + len(p):])))


@lib("str::chars")
def _(ev, a, t):
    return ls([I(ord(c)) for c in ev.as_str(a[0])])


@lib("str::char_indices")
def _(ev, a, t):
    out, n = [], 0
    for c in ev.as_str(a[0]):
        out.append(tup(I(n), I(ord(c))))
        n += len(c.encode("utf-8", "surrogatepass"))
    return ls(out)


@lib("item")
def _(ev, a, t):
    if a[0].op not in ("list", "bytes"):
        return None
    xs, i = ev.as_list(a[0]), ev.num(a[1])
    if not 0 <= i < len(xs):
        raise Undef()
    return xs[i]


@lib("str::bytes", "str::as_bytes", "String::as_bytes", "String::into_bytes")
def _(ev, a, t):
    return ls([I(c) for c in ev.as_str(a[0]).encode()])


@lib("str::to_lowercase", "str::to_ascii_lowercase")
def _(ev, a, t):
    s = ev.as_str(a[0])
    return Str(s.lower() if "ascii" not in t.args[0] else "".join(c.lower() if c.isascii() else c for c in s))


@lib("str::to_uppercase", "str::to_ascii_uppercase")
def _(ev, a, t):
    s = ev.as_str(a[0])
    return Str(s.upper() if "ascii" not in t.args[0] else "".join(c.upper() if c.isascii() else c for c in s))


@lib("str::eq_ignore_ascii_case")
def _(ev, a, t):
    f = lambda s: "".join(c.lower() if c.isascii() else c for c in s)
    return B(f(ev.as_str(a[0])) == f(ev.as_str(a[1])))


@lib("str::is_ascii")
def _(ev, a, t):
    return B(ev.as_str(a[0]).isascii())


@lib("str::repeat")
def _(ev, a, t):
    n = ev.num(a[1])
    if n > 20:
        raise Undef()
    return Str(ev.as_str(a[0]) * n)


@lib("str_slice")
def _(ev, a, t):
    s = ev.as_str(a[0]).encode()
    lo, hi = ev.num(a[1]), ev.num(a[2])
    try:
        return Str(s[lo:hi].decode())
    except UnicodeDecodeError:
        raise Undef()


@lib("str_slice_ok", "str::is_char_boundary")
def _(ev, a, t):
    s = ev.as_str(a[0]).encode()
    if len(a) == 2:
        i = ev.num(a[1])
        return B(i == len(s) or 0 <= i < len(s) and not 0x80 <= s[i] < 0xC0)
    lo, hi = ev.num(a[1]), ev.num(a[2])

    def cb(i):
        return i == len(s) or 0 <= i < len(s) and not 0x80 <= s[i] < 0xC0
    return B(0 <= lo <= hi <= len(s) and cb(lo) and cb(hi))


def parse_int(s, ty):
    lo, hi = T.INT_RANGES[ty]
    b = s[1:] if s[:1] == "+" or (lo < 0 and s[:1] == "-") else s
    if not b or not (b.isascii() and b.isdigit()):
        return None
    v = int(s)
    return v if lo <= v <= hi else None


for _ty in [k for k in T.INT_RANGES if k != "char"]:
    def _f(ev, a, t, ty=_ty):
        v = parse_int(ev.as_str(a[0]), ty)
        if v is None:
            return adt(RES, "Err", [("0", mk("app", "ParseIntError"))])
        return adt(RES, "Ok", [("0", I(v))])
    INTERP["parse<%s>" % _ty] = _f


@lib("parse")
def _(ev, a, t):
    n = str(t.args[0])
    f = INTERP.get(n)
    return f(ev, a, t) if f is not None else None


@lib("Layout::array", "Layout::from_size_align")
def _(ev, a, t):
    if ev.num(a[0]) > 2 ** 40:
        raise Undef()
    return adt(RES, "Ok", [("0", mk("app", "layout", a[0]))])


@lib("Layout::size")
def _(ev, a, t):
    if a[0].op == "app" and a[0].args[0] == "layout":
        return a[0].args[1]
    if a[0].op == "fld" and a[0].args[2] == "layout":
        return I(max(1, ev.num(mk("fld", a[0].args[0], "", "num_bytes", 4))))
    raise Undef()


@lib("is_null")
def _(ev, a, t):
    return FALSE    # allocations do not fail


@lib("HashMap::is_empty", "HashSet::is_empty", "BTreeMap::is_empty", "BTreeSet::is_empty")
def _(ev, a, t):
    return B(map_len(ev, a[0]) == 0)


@lib("HashMap::len", "HashSet::len", "BTreeMap::len", "BTreeSet::len")
def _(ev, a, t):
    return I(map_len(ev, a[0]))


def map_len(ev, m):
    if m.op == "post" and m.ty is None:
        # what a function left behind: free
        pass
    ks = []
    for e in ev.map_entries(m):
        k = e.args[2][0][1]
        if not any(ev.same(k, q) for q in ks):
            ks.append(k)
    return len(ks)


@lib("sethas")
def _(ev, a, t):
    try:
        return B(any(ev.same(e.args[2][0][1], a[1]) for e in ev.as_list(a[0])))
    except Undef:
        return None


@lib("Iterator::next", "Iterator::nth", "DoubleEndedIterator::next_back")
def _(ev, a, t):
    xs = ev.as_list(a[0])
    i = ev.num(a[1]) if len(a) > 1 else -1 if "next_back" in t.args[0] else 0
    if i >= len(xs) or not xs:
        return NONE
    return some(xs[i])


@post("Iterator::next", "Iterator::nth", "DoubleEndedIterator::next_back")
def _(ev, i, a, t):
    xs = ev.as_list(a[0])
    if "next_back" in t.args[0]:
        return ls(xs[:-1])
    n = ev.num(a[1]) + 1 if len(a) > 1 else 1
    return ls(xs[n:])


@lib("Iterator::rev", "DoubleEndedIterator::rev")
def _(ev, a, t):
    return ls(ev.as_list(a[0])[::-1])


@lib("Iterator::count")
def _(ev, a, t):
    return I(len(ev.as_list(a[0])))


@lib("Iterator::collect")
def _(ev, a, t):
    if is_str_ty(t.ty):
        return Str("".join(chr(const_of(x)) if const_of(x) is not None else ev.as_str(x) for x in ev.as_list(a[0])))
    raise Undef()


@lib("slice_contains")
def _(ev, a, t):
    return B(any(ev.same(x, a[1]) for x in ev.as_list(a[0])))


@lib("slice::starts_with", "slice::ends_with")
def _(ev, a, t):
    x, y = ev.as_list(a[0]), ev.as_list(a[1])
    if len(y) > len(x):
        return FALSE
    x = x[:len(y)] if "starts" in t.args[0] else x[len(x) - len(y):]
    return B(all(ev.same(p, q) for p, q in zip(x, y)))


@post("slice::rotate_right", "slice::rotate_left")
def _(ev, i, a, t):
    xs = ev.as_list(a[0])
    n = ev.num(a[1])
    if n > len(xs):
        raise Undef()
    n = n if "left" in t.args[0] else len(xs) - n
    return ls(xs[n:] + xs[:n])


@post("slice::swap")
def _(ev, i, a, t):
    xs = list(ev.as_list(a[0]))
    p, q = ev.num(a[1]), ev.num(a[2])
    if p >= len(xs) or q >= len(xs):
        raise Undef()
    xs[p], xs[q] = xs[q], xs[p]
    return ls(xs)


@post("slice::fill")
def _(ev, i, a, t):
    return ls([a[1]] * len(ev.as_list(a[0])))


@post("slice::copy_from_slice", "slice::clone_from_slice")
def _(ev, i, a, t):
    x, y = ev.as_list(a[0]), ev.as_list(a[1])
    if len(x) != len(y):
        raise Undef()
    return ls(y) if i == 0 else None


@post("slice::reverse")
def _(ev, i, a, t):
    return ls(ev.as_list(a[0])[::-1])


@post("Vec::dedup")
def _(ev, i, a, t):
    out = []
    for x in ev.as_list(a[0]):
        if not out or not ev.same(out[-1], x):
            out.append(x)
    return ls(out)


@post("slice::sort", "slice::sort_unstable")
def _(ev, i, a, t):
    xs = ev.as_list(a[0])
    return ls(sorted(xs, key=lambda x: sort_key(ev, x)))


def sort_key(ev, x):
    if x.op == "str":
        return x.args[0].encode()
    c = const_of(x)
    if c is None:
        raise Undef()
    return c


@post("Vec::insert")
def _(ev, i, a, t):
    xs = list(ev.as_list(a[0]))
    n = ev.num(a[1])
    if n > len(xs):
        raise Undef()
    xs.insert(n, a[2])
    return ls(xs)


@lib("Vec::remove", "Vec::swap_remove")
def _(ev, a, t):
    xs = ev.as_list(a[0])
    n = ev.num(a[1])
    if n >= len(xs):
        raise Undef()
    return xs[n]


@post("Vec::remove")
def _(ev, i, a, t):
    xs = list(ev.as_list(a[0]))
    n = ev.num(a[1])
    if n >= len(xs):
        raise Undef()
    del xs[n]
    return ls(xs)


@post("Vec::swap_remove")
def _(ev, i, a, t):
    xs = list(ev.as_list(a[0]))
    n = ev.num(a[1])
    if n >= len(xs):
        raise Undef()
    xs[n] = xs[-1]
    xs.pop()
    return ls(xs)


@post("Vec::truncate")
def _(ev, i, a, t):
    return ls(ev.as_list(a[0])[:ev.num(a[1])])


@post("Vec::resize")
def _(ev, i, a, t):
    xs = ev.as_list(a[0])
    n = ev.num(a[1])
    if n > 300:
        raise Undef()
    return ls((xs + [a[2]] * n)[:n])


@lib("slice::to_vec", "slice::iter", "Iterator::cloned", "Iterator::copied")
def _(ev, a, t):
    return ls(ev.as_list(a[0]))


@lib("int::rem_euclid", "int::div_euclid")
def _(ev, a, t):
    x, y = ev.num(a[0]), ev.num(a[1])
    if y == 0:
        raise Undef()
    r = x % abs(y)
    return I(r if "rem" in t.args[0] else (x - r) // y)


@lib("int::pow")
def _(ev, a, t):
    x, y = ev.num(a[0]), ev.num(a[1])
    if y > 64:
        raise Undef()
    v = x ** y
    if t.ty is not None and t.ty[0] == "int":
        lo, hi = T.INT_RANGES[t.ty[1]]
        if not lo <= v <= hi:
            raise Undef()
    return I(v)


@lib("int::next_multiple_of", "int::div_ceil")
def _(ev, a, t):
    x, y = ev.num(a[0]), ev.num(a[1])
    if x < 0 or y <= 0:
        raise Undef()
    r = -(-x // y)
    return I(r if t.args[0].endswith("div_ceil") else r * y)


@lib("int::ilog2", "int::isqrt", "int::next_power_of_two")
def _(ev, a, t):
    x = ev.num(a[0])
    if x <= 0:
        raise Undef()
    n = str(t.args[0])
    if n.endswith("ilog2"):
        return I(x.bit_length() - 1)
    if n.endswith("isqrt"):
        return I(math.isqrt(x))
    return I(1 << (x - 1).bit_length())


@lib("int::is_power_of_two")
def _(ev, a, t):
    x = ev.num(a[0])
    return B(x > 0 and x & (x - 1) == 0)


@lib("int::count_ones")
def _(ev, a, t):
    return I(bin(ev.num(a[0])).count("1"))


@lib("int::leading_zeros", "int::trailing_zeros")
def _(ev, a, t):
    raise Undef()


@post("String::truncate")
def _(ev, i, a, t):
    s = ev.as_str(a[0]).encode()
    n = ev.num(a[1])
    try:
        return Str(s[:n].decode())
    except UnicodeDecodeError:
        raise Undef()


@post("String::pop")
def _(ev, i, a, t):
    return Str(ev.as_str(a[0])[:-1])


@lib("String::pop")
def _(ev, a, t):
    s = ev.as_str(a[0])
    return opt(I(ord(s[-1])) if s else None)


@post("String::insert", "String::insert_str")
def _(ev, i, a, t):
    s = ev.as_str(a[0]).encode()
    n = ev.num(a[1])
    x = a[2].args[0] if a[2].op == "str" else chr(ev.num(a[2]))
    try:
        return Str(s[:n].decode() + x + s[n:].decode())
    except UnicodeDecodeError:
        raise Undef()


# ------------------------------------------------------------------ parsers
def apply_fn(ev, f, x):
    """a function value applied to a value"""
    if f.op == "fn":
        r = ev.called(f.args[0], (x,))
        if r is not None:
            return r
        n = base_name(f.args[0])
        if n.split("::")[-1] in CHARS and T.intlike(x):
            return B(bool(CHARS[n.split("::")[-1]](chr(ev.num(x)))))
    raise Undef()


def run_parser(ev, p, s):
    """(what is left, value) or None"""
    ev.tick()
    if p.op == "fn":
        r = ev.called(p.args[0], (Str(s),))
        if r is None or r.op != "adt":
            raise Undef()
        if r.args[1] != "Ok":
            return None
        x = fields_of(r)["0"]
        if x.op != "adt" or len(x.args[2]) != 2:
            raise Undef()
        return ev.as_str(x.args[2][0][1]), x.args[2][1][1]
    if p.op != "adt" or not str(p.args[0]).startswith("nom:"):
        raise Undef()
    n = p.args[0][4:]
    a = [v for _, v in p.args[2]]
    if n == "tag":
        x = ev.as_str(a[0])
        return (s[len(x):], Str(x)) if s.startswith(x) else None
    if n in ("one_of", "none_of", "char"):
        if a[0].op == "str":
            cs = a[0].args[0]
        elif const_of(a[0]) is not None:
            cs = chr(const_of(a[0]))
        else:
            cs = "".join(chr(ev.num(x)) for x in ev.as_list(a[0]))
        if not s or (s[0] in cs) == (n == "none_of"):
            return None
        return s[1:], I(ord(s[0]))
    if n in ("take_while1", "take_while", "take_till", "take_till1", "is_a", "is_not", "satisfy"):
        if n in ("is_a", "is_not"):
            cs = ev.as_str(a[0])

            def ok(c):
                return (c in cs) == (n == "is_a")
        else:
            def ok(c):
                return ev.truth(apply_fn(ev, a[0], I(ord(c)))) == (not n.startswith("take_till"))
        if n == "satisfy":
            return (s[1:], I(ord(s[0]))) if s and ok(s[0]) else None
        i = 0
        while i < len(s) and ok(s[i]):
            i += 1
        if i == 0 and n in ("take_while1", "take_till1", "is_a", "is_not"):
            return None
        return s[i:], Str(s[:i])
    if n in ("many0", "many1"):
        out = []
        while True:
            r = run_parser(ev, a[0], s)
            if r is None:
                break
            if r[0] == s:
                return None
            s = r[0]
            out.append(r[1])
            if len(out) > 40:
                raise Undef()
        if n == "many1" and not out:
            return None
        return s, ls(out)
    if n == "opt":
        r = run_parser(ev, a[0], s)
        return (s, NONE) if r is None else (r[0], some(r[1]))
    if n == "alt":
        if a[0].op != "adt":
            raise Undef()
        for _, q in a[0].args[2]:
            r = run_parser(ev, q, s)
            if r is not None:
                return r
        return None
    if n in ("pair", "preceded", "terminated", "delimited", "tuple", "separated_pair"):
        ps = a
        if n == "tuple":
            if a[0].op != "adt":
                raise Undef()
            ps = [v for _, v in a[0].args[2]]
        vs = []
        for q in ps:
            r = run_parser(ev, q, s)
            if r is None:
                return None
            s = r[0]
            vs.append(r[1])
        v = {"preceded": lambda: vs[1], "terminated": lambda: vs[0], "delimited": lambda: vs[1], "separated_pair": lambda: tup(vs[0], vs[2])}.get(n, lambda: tup(*vs))()
        return s, v
    if n in ("recognize", "peek", "all_consuming"):
        r = run_parser(ev, a[0], s)
        if r is None or n == "all_consuming" and r[0]:
            return None
        return (r[0], Str(s[:len(s) - len(r[0])])) if n == "recognize" else (s, r[1]) if n == "peek" else r
    if n == "not":
        return (s, UNIT) if run_parser(ev, a[0], s) is None else None
    if n == "value":
        r = run_parser(ev, a[1], s)
        return None if r is None else (r[0], a[0])
    raise Undef()


@lib("parses", "parse_rest", "parse_value")
def _(ev, a, t):
    if ev.summ is None:
        return None
    r = run_parser(ev, a[0], ev.as_str(a[1]))
    if t.args[0] == "parses":
        return B(r is not None)
    if r is None:
        raise Undef()
    return Str(r[0]) if t.args[0] == "parse_rest" else r[1]


# ------------------------------------------------------------------ looking for an interpretation
def constants(ts, ints, strs):
    seen = set()
    for t in ts:
        T.subterms(t, seen)
    for x in seen:
        if x.op == "lin":
            for d in (-1, 0, 1):
                for v in (x.args[0] + d, -x.args[0] + d):
                    if v not in ints and len(ints) < 80:
                        ints.append(v)
        elif x.op == "str":
            s = x.args[0]
            if s and len(s) <= 16 and len(strs) < 60:
                for v in (s, s + " ", " " + s, s + "\n", "a" + s, s + s, s + "b"):
                    if v not in strs:
                        strs.append(v)
        elif x.op == "cast":
            for v in (255, 256, 257, 65536, -256):
                if v not in ints:
                    ints.append(v)


def text_lengths(ts):
    """numbers that lengths of texts are compared with"""
    seen = set()
    for t in ts:
        if isinstance(t, T.Term):
            T.subterms(t, seen)
    r = set()
    for x in seen:
        if x.op == "lin" and 12 < abs(x.args[0]) <= 1500 and any(text_length(y) for y in T.subterms(x) if y is not x):
            r.add(abs(x.args[0]))
    return sorted(r)[:4]


def text_length(t):
    return t.op == "app" and str(t.args[0]).startswith("str::len") or t.op == "len" and (is_str_ty(t.args[0].ty) or t.args[0].op in ("span", "adv"))


def first_puzzle(ts):
    seen = set()
    for t in ts:
        T.subterms(t, seen)
    ps = [x for x in seen if x.ty is not None and is_puzzle_ty(x.ty) and not T.contains(x, "open", lambda y: y.op in ("k", "sv", "bv"))]
    return min(ps, key=lambda x: x.id) if ps else None


_deep = {}


def deep_call(t):
    """does it depend on functions that are interpreted?"""
    if not isinstance(t, T.Term):
        return False
    r = _deep.get(t)
    if r is None:
        r = _deep[t] = any(x.op in ("call", "post") or x.op == "app" and str(x.args[0]).startswith(("show:", "parse")) for x in T.subterms(t))
    return r


ALGS = ["R", "R2'", "3-4Rw2", "R U", "R' U2 // x\nF", "[R, U]", "[R: U]2", "(R U)3'", "(3, -4)", "/", "R++", "UR1+", "[R: [U, F]]'", "(R)", "// a", ". R", "R\nU", "RU", "R.", ".R",
        "[U: (3, 0)]", "10Rw", "U_SQ_2 D_SQ_", "R  U", "(R U) F", "(R)(U)", "R [U: F]", "[R: U][F, L]", "//\n\nR", "U // b", " R ", "(// x\nR)2", "R)", "[R", "U0", "R10'", "x y", "//  a  b ", "R //\tx // y", "//a\n\n//b\nR", "\n", ". . R", "[R, U] .", "12-3Ab_c", "R2''", "((R U)2 F)'", "[[R: U], F]", "R'' ", "R2 2", "-R", "2-R", "r\tU", "R\r\nU",
        "(R U)99", "R4294967297", "99999999999R", "_SLASH_", "U_PLUS_2", "R_PLUSPLUS_'", "BIG_PLUS_", "/2", "R++2", "U1-", "(0, 0) /", "(1,2)", "( R )", "[R,U]", "[R:U]", "()", "[, ]", "é", "Ré", "é" * 70, "(" + "é" * 70, "R70000", "300Rw", "(R U)70000'", "70000-70001R2", "[R, U]0", "(R)0'", "[R: U]0'", "R0'",
        "R1234567890", "1234567890Rw", "R0000000002", "(R)0000000003'", "R2147483647", "R2147483648", "R2147483648'", "0R", "0-0R", "3-2R", "1-1R", "R00", "007R", "[[R, U], F]2'", "(((R)))", "(R U R' U')6 // sexy\n[F: [R, U]]", "[R U : F' D]", "[ R, U ]",
        "(1, 0)/(0,-3)", "( 1, 0 )", "(1, 0)'", "(-0, 5)", "(+1, 2)", "(1 , 2)", "(1,  2)", "(12345678901, 0)", "UL2-", "ALL5+", "U6+", "u", "U+", "U+2", "R+", "R--", "D++'", "R++ D-- U'", "R++3'", "//", "// ", "///", "R // é\n", "R//x", "(R // x\n)", "[R // x\n, U]", "[R, U // x\n]", "R/", "/R", "//R\n/", "/ /", "//x\n.",
        ".'", "..", ".2", "\n\n", "\nR", "R\n", "R \nU", "R\n U", "R \t U", "R, U", "R: U", "(R", "[R, ]", "[, U]", "[: U]", "[R, U, F]", "[R: U: F]", "(R)2(U)", "(R)2 (U)", "R(U)", "[R]", "[]", "( )", "R' '", "R'2", "R-2", "R 2", "2", "'", "_", "_R", "R_", "R__", "a_b_c", "Rw2'", "2-3rw3'", "M E S", "x2 y' z", "BR FL'", "R\u00a0U", "\ufeffR", "Я", "R²", "R’", "U_SQ_", "D_SQ_3'", "U_SQ_0"]


def has_text(t):
    return T.contains(t, "text", lambda y: y.op == "sym" and is_str_ty(y.ty))


def refute(conds, pair, universe, allowed, seconds=3.0, clock=None, seed=11, why=None, summ=None):
    """an interpretation under which the conditions hold and the pair (None: nothing) differs"""
    t0 = time.process_time()
    ints = [0, 1, 2, 3, 5, -1, -2, 7]
    strs = ["", "a", "R", " a", "a ", " ", "a\n", "\n", "a\nb", "\na", "  ", "a  b", "é", "1", "12", "a1", "(R)", "aé", "Ab", "_", "é\n", "R2'", "a b", "//x", "\ta", "2R", "R'", "."]
    src = list(conds) + (list(pair) if pair else [])
    constants([x for x in src if isinstance(x, T.Term)], ints, strs)
    if summ is not None:
        strs += [x for x in ALGS if x not in strs]
    rnd = random.Random(seed)
    found = 0
    puz = first_puzzle(src)
    longs = text_lengths(src)
    texts = ALGS + [x for x in strs if x not in ALGS] + long_texts(longs) if summ is not None and any(deep_call(c) for c in src) else []
    for attempt in range(400 + len(texts)):
        if time.process_time() - t0 > seconds:
            break
        if clock is not None:
            clock()
        ev = Ev(rnd, ints, strs, universe, allowed)
        ev.summ = summ
        ev.longs = longs
        given = attempt < len(texts)
        if given:
            ev.first = texts[attempt]
        if puz is not None:
            try:
                ev.stable(lambda: ev.g(puz))
            except (Undef, RecursionError):
                pass
        ok = False
        undef = 0
        for step in range(60):
            if time.process_time() - t0 > seconds:
                break
            failed = None
            ev.budget = 60000 if summ is None else 150000
            try:
                for c in by_cost(conds):
                    failed = c
                    if not ev.cond(c):
                        break
                    failed = None
            except Undef:
                undef += 1
                if undef > 12:
                    break
            except BROKEN:
                break
            if failed is None:
                ok = True
                break
            if given and deep_call(failed):
                break
            try:
                if rnd.random() < 0.75 and ev.force(failed):
                    ev.reset()
                    continue
                if not ev.nudge(failed):
                    break
            except Undef:
                pass
            except BROKEN:
                break
            ev.reset()
        if not ok:
            if attempt > 60 + len(texts) and found == 0:
                break
            continue
        found += 1
        if pair is None:
            return ev
        try:
            ev.budget = 200000

            def both():
                if len(pair) == 3:
                    return ev.same_writes(*pair)
                return ev.same(ev.g(pair[0]), ev.g(pair[1]))
            r = ev.stable(both)
            # the conditions must still hold
            if r is False and all(ev.cond(c) for c in conds):
                if ev.stable(both) is False:
                    return ev
        except Undef:
            pass
        except BROKEN:
            pass
        if found > 60 and not given:
            break
    if why is not None:
        why.append("%d interpretations" % found if found else "no interpretation in which the conditions hold")
    return None


def joint(oa, ob, universe, allowed, seconds, clock=None, summ=None, seed=5, debug_panics=False, why=None, panics=False):
    """an interpretation under which the two sides have different outcomes: (what, source, reference) or None. The
    interpretations are not made for particular outcomes, but so that most of the data fits together."""
    t0 = time.process_time()
    ints = [0, 1, 2, 3, 5, -1, -2, 7]
    strs = ["", "a", "R", " a", "b", "a\nb", "1", "(R)"]
    src = [x for o in oa + ob for x in o.conds]
    src += [o.value for o in oa + ob if isinstance(o.value, T.Term)]
    constants(src, ints, strs)
    if summ is not None:
        strs += [x for x in ALGS if x not in strs]
    puz = first_puzzle(src)
    longs = text_lengths(src)
    texts = list(ALGS) + long_texts(longs) if summ is not None and any(has_text(c) for c in src) else []
    rnd = random.Random(seed)
    random.Random(7).shuffle(texts)
    tried = held = 0
    bigs = 0.0

    def which(ev, outs):
        for o in outs:
            try:
                if ev.stable(lambda: ev.all_true(o.conds, lambda x: x)):
                    return o
            except Undef:
                if ev.budget <= 0:
                    raise
        raise Undef()

    def groups(ev, effects):
        d = {}
        for b, v in effects:
            k = ev.g(b) if isinstance(b, T.Term) else b
            d.setdefault(k, []).append(v)
        return d

    def compare(ev, a, b):
        if a.kind != b.kind:
            return "the outcome", Str(a.kind), Str(b.kind)
        if a.kind == "panic":
            return None
        if a.kind == "exit":
            if isinstance(a.value, T.Term) and isinstance(b.value, T.Term):
                return ("exit code", a.value, b.value) if ev.same(ev.g(a.value), ev.g(b.value)) is False else None
            return ("exit code", Str(str(a.value)), Str(str(b.value))) if a.value != b.value else None
        und = False
        ps = [("result", a.value, b.value)] if isinstance(a.value, T.Term) and isinstance(b.value, T.Term) else []
        if [i for i, _ in a.posts] == [i for i, _ in b.posts]:
            ps += [("argument %s after the call" % i, x, y) for (i, x), (_, y) in zip(a.posts, b.posts)]
        else:
            und = True
        for what, x, y in ps:
            try:
                if ev.same(ev.g(x), ev.g(y)) is False:
                    return what, x, y
            except Undef:
                if ev.budget <= 0:
                    raise
                und = True
        ga, gb = groups(ev, a.effects), groups(ev, b.effects)
        for k in list(ga) + [k for k in gb if k not in ga]:
            x, y = ga.get(k, [mk("list")]), gb.get(k, [mk("list")])
            if len(x) != len(y):
                und = True
                continue
            for p, q in zip(x, y):
                try:
                    if ev.same_writes(k, p, q) is False:
                        return "output" if k == "io" else "memory written", p, q
                except Undef:
                    und = True
        if und:
            raise Undef()
        return None
    while time.process_time() - t0 < seconds and tried < 2500:
        tried += 1
        if tried == 60 and held < 2:
            break
        if clock is not None:
            clock()
        ev = Ev(rnd, ints, strs, universe, allowed)
        ev.summ = summ
        ev.longs = longs
        ev.common = rnd.choice((1, 1, 2, 2, 3, 0, None))
        ev.limit = t0 + seconds
        if tried <= len(texts):
            ev.first = texts[tried - 1]
        ev.budget = 100000
        big0 = time.process_time()
        if tried % 12 == 5 and tried < 500 or tried % 3 == 2 and bigs < 0.4 * (big0 - t0):
            ev.common = rnd.choice((13, 33, 65, 128, 200, 255))
            ev.big, ev.maxlen, ev.maxiter, ev.budget = True, 300, 300, 3000000
            ev.limit = min(ev.limit, time.process_time() + 2.0)
        try:
            if puz is not None:
                ev.stable(lambda: ev.g(puz))
            a, b = which(ev, oa), which(ev, ob)
            held += 1
            if a.kind == "panic" and b.kind != "panic" and debug_panics or panics and (a.kind != "panic" or b.kind == "panic"):
                continue
            r = ev.stable(lambda: compare(ev, a, b))
            if r is None:
                continue
            ev.reset()
            # and again, with everything decided
            if which(ev, oa) is a and which(ev, ob) is b and ev.stable(lambda: compare(ev, a, b)) is not None:
                return r
        except (Undef,) + BROKEN:
            pass
        finally:
            if ev.big:
                bigs += time.process_time() - big0
    if why is not None:
        why.append("%d of %d interpretations" % (held, tried))
    return None
