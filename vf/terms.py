"""Hash-consed value terms (a Herbrand domain with linear integer arithmetic) and path facts.

Facts combine several classic non-relational and relational abstract domains: sets of possible enum
variants, sets of possible characters at an input position, equalities with constants, boolean atoms and
linear inequalities over integer terms (a small polyhedra domain with Fourier-Motzkin elimination).
"""
from fractions import Fraction

_table = {}


class Term:
    __slots__ = ("op", "args", "id", "ty", "taint", "lvl", "_h")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __lt__(self, o):
        return self.id < o.id


def _max_lvl(args):
    m = 0
    for a in args:
        if isinstance(a, Term):
            if a.lvl > m:
                m = a.lvl
        elif isinstance(a, tuple):
            x = _max_lvl(a)
            if x > m:
                m = x
    return m


def _taint(args):
    for a in args:
        if isinstance(a, Term):
            if a.taint:
                return True
        elif isinstance(a, tuple):
            if _taint(a):
                return True
    return False


def mk(op, *args, ty=None, taint=False):
    key = (op, args)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args = op, args
        t.id = len(_table)
        t._h = hash((op, t.id))
        t.ty = ty
        t.taint = taint or _taint(args)
        t.lvl = _max_lvl(args)
        if op == "fam":
            t.lvl += 1
        elif op == "bv":
            t.lvl = 0
        _table[key] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


# ---- integers ----------------------------------------------------------------------------------
def I(n):
    return mk("lin", n, ())


def lin_parts(t):
    if t.op == "lin":
        return t.args[0], t.args[1]
    return 0, ((t, 1),)


def mk_lin(c, d):
    items = tuple(sorted(((t, k) for t, k in d.items() if k != 0), key=lambda x: x[0].id))
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def add(a, b, kb=1):
    ca, pa = lin_parts(a)
    cb, pb = lin_parts(b)
    d = dict(pa)
    for t, k in pb:
        d[t] = d.get(t, 0) + k * kb
    return mk_lin(ca + cb * kb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    c, p = lin_parts(a)
    return mk_lin(c * k, {t: q * k for t, q in p})


def const_of(t):
    if t.op == "lin" and not t.args[1]:
        return t.args[0]
    return None


def is_int(t):
    return t.op == "lin" and not t.args[1]


def mul(a, b):
    ca, cb = const_of(a), const_of(b)
    if ca is not None:
        return scale(b, ca)
    if cb is not None:
        return scale(a, cb)
    # distribute over sums so that the order of factors does not matter
    fa, fb = _factors(a), _factors(b)
    if a.op == "lin" or b.op == "lin":
        c0, p0 = lin_parts(a)
        c1, p1 = lin_parts(b)
        r = I(c0 * c1)
        for t, k in p1:
            r = add(r, scale(t, k * c0))
        for t, k in p0:
            r = add(r, scale(t, k * c1))
        for t, k in p0:
            for u, l in p1:
                r = add(r, scale(mul(t, u), k * l))
        return r
    return mk("mul", *sorted(fa + fb, key=lambda x: x.id))


def _factors(t):
    return list(t.args) if t.op == "mul" else [t]


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("adt", "tuple", "", ())


def B(b):
    return TRUE if b else FALSE


def Str(s):
    return mk("str", s)


INT_RANGES = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    INT_RANGES["u" + _n] = (0, 2 ** _b - 1)
    INT_RANGES["i" + _n] = (-2 ** (_b - 1), 2 ** (_b - 1) - 1)
INT_RANGES["char"] = (0, 0x10FFFF)


# ---- character sets: sorted tuples of closed intervals; -1 is the end of the input --------------
UNIVERSE = ((-1, 0x10FFFF),)
EOF_SET = ((-1, -1),)


def cs_norm(iv):
    out = []
    for lo, hi in sorted(iv):
        if lo > hi:
            continue
        if out and lo <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def cs_of(chars):
    return cs_norm([(ord(c), ord(c)) for c in chars])


def cs_union(a, b):
    return cs_norm(list(a) + list(b))


def cs_not(a):
    out = []
    cur = -1
    for lo, hi in a:
        if lo > cur:
            out.append((cur, lo - 1))
        cur = hi + 1
    if cur <= 0x10FFFF:
        out.append((cur, 0x10FFFF))
    return tuple(out)


def cs_and(a, b):
    return cs_not(cs_union(cs_not(a), cs_not(b)))


def cs_char(a):
    """without the end of the input"""
    return cs_and(a, ((0, 0x10FFFF),))


# ---- structural helpers ---------------------------------------------------------------------------
def adt(key, variant, fields):
    fields = tuple(fields)
    if fields:
        b = None
        for n, v in fields:
            if v.op == "fld" and v.args[1] == variant and v.args[2] == n and (b is None or v.args[0] is b) and v.args[3] == len(fields):
                b = v.args[0]
            else:
                b = None
                break
        if b is not None:
            return b
    return mk("adt", key, variant, fields)


def fields_of(t):
    return dict(t.args[2])


def tup(*xs):
    return adt("tuple", "", [(str(i), x) for i, x in enumerate(xs)])


def fld(base, variant, name, n, ty=None):
    """n: the number of fields of the variant (used to recognise rebuilt values)"""
    if base.op == "adt":
        f = fields_of(base)
        if name in f:
            return f[name]
    return mk("fld", base, variant, name, n, ty=ty)


def app(name, *args, ty=None):
    return mk("app", name, *args, ty=ty)


def unknown(name, *args, ty=None):
    return mk("unk", name, *args, ty=ty, taint=True)


# ---- lists and strings -------------------------------------------------------------------------------
def lst(*segs):
    """segments: ('e', x) one element, ('s', xs) a spliced list, ('f', fam)"""
    out = []
    for s in segs:
        if s[0] == "s" and s[1].op == "list":
            out.extend(s[1].args)
        else:
            out.append(s)
    if len(out) == 1 and out[0][0] == "s":
        return out[0][1]
    return mk("list", *out)


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args
        elif p.op == "str" and p.args[0] == "":
            ps = ()
        else:
            ps = (p,)
        for q in ps:
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = Str(out[-1].args[0] + q.args[0])
            else:
                out.append(q)
    if not out:
        return Str("")
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)


# ---- substitution ---------------------------------------------------------------------------------------
def rebuild(op, args, ty, old):
    if op == "lin":
        r = I(args[0])
        for t, k in args[1]:
            r = add(r, scale(t, k))
        return r
    if op == "mul":
        r = I(1)
        for a in args:
            r = mul(r, a)
        return r
    if op == "fld":
        return fld(args[0], args[1], args[2], args[3], ty)
    if op == "adt":
        return adt(*args)
    if op == "list":
        return lst(*args)
    if op == "cat":
        return cat(*args)
    if op == "not":
        return neg(args[0])
    if op in ("le0", "eq0"):
        return (le0 if op == "le0" else eq0)(args[0])
    return mk(op, *args, ty=ty, taint=old.op == "unk")


def subst(t, f, memo=None):
    """f: Term -> Term or None; applied top-down"""
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, f, memo) for x in t)
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    r = f(t)
    if r is None:
        na = tuple(subst(a, f, memo) for a in t.args)
        r = t if na == t.args else rebuild(t.op, na, t.ty, t)
    memo[t] = r
    return r


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        for x in t:
            subterms(x, seen)
    elif isinstance(t, Term) and t not in seen:
        seen.add(t)
        for a in t.args:
            subterms(a, seen)
    return seen


_contains_memo = {}


def contains(t, pred_key, pred):
    """memoised search; pred_key identifies pred"""
    k = (t, pred_key)
    r = _contains_memo.get(k)
    if r is None:
        if pred(t):
            r = True
        else:
            r = False
            st = list(t.args)
            while st and not r:
                a = st.pop()
                if isinstance(a, tuple):
                    st.extend(a)
                elif isinstance(a, Term):
                    r = contains(a, pred_key, pred)
        _contains_memo[k] = r
    return r


# ---- conditions ------------------------------------------------------------------------------------------
def neg(c):
    if c.op == "bool":
        return B(not c.args[0])
    if c.op == "not":
        return c.args[0]
    if c.op == "le0":  # l <= 0  ->  1 - l <= 0
        return le0(sub(I(1), c.args[0]))
    if c.op == "hin":
        return mk("hin", c.args[0], cs_not(c.args[1]))
    return mk("not", c)


def _norm_lin(l):
    from math import gcd
    c, p = lin_parts(l)
    g = 0
    for _, k in p:
        g = gcd(g, abs(k))
    return c, p, g


def le0(l):
    c, p, g = _norm_lin(l)
    if not p:
        return B(c <= 0)
    if g > 1:
        # c + g*x <= 0  <=>  x <= floor(-c/g)
        q = -((-c) // g)
        l = mk_lin(q, {t: k // g for t, k in p})
    return mk("le0", l)


def eq0(l):
    c, p, g = _norm_lin(l)
    if not p:
        return B(c == 0)
    if c % g:
        return FALSE
    s = 1 if p[0][1] > 0 else -1
    l = mk_lin(s * c // g, {t: s * k // g for t, k in p})
    # a comparison of one input character with a constant
    c, p = lin_parts(l)
    if len(p) == 1 and p[0][1] == 1 and p[0][0].op == "head":
        return mk("hin", p[0][0].args[0], ((-c, -c),))
    return mk("eq0", l)


def lt(a, b):
    return le0(add(sub(a, b), I(1)))


def le(a, b):
    return le0(sub(a, b))


def eq(a, b):
    """generic equality as a condition"""
    if a is b:
        return TRUE
    if intlike(a) and intlike(b):
        return eq0(sub(a, b))
    return eq_val(a, b)


def intlike(t):
    if t.op in ("lin", "len", "mul", "rem", "div", "head", "k", "kx", "num", "load", "sumfam", "cnt"):
        return True
    return t.ty is not None and t.ty[0] in ("int", "char")


def eq_val(a, b):
    if a is b:
        return TRUE
    if a.op == "bool":
        return b if a.args[0] else neg(b)
    if b.op == "bool":
        return a if b.args[0] else neg(a)
    if a.op == "str" and b.op == "str":
        return B(a.args[0] == b.args[0])
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        fa, fb = fields_of(a), fields_of(b)
        cs = [eq(fa[n], fb[n]) for n in fa]
        return conj(cs)
    for x, y in ((a, b), (b, a)):
        # comparing with a constructor of an enum or struct: split into the variant and the fields
        if x.op == "adt" and y.op not in ("adt",):
            n = len(x.args[2])
            cs = []
            if x.args[1]:
                cs.append(mk("is", y, x.args[0], x.args[1]))
            for nm, v in x.args[2]:
                cs.append(eq(fld(y, x.args[1], nm, n, v.ty), v) if not intlike(v) else eq0(sub(fld(y, x.args[1], nm, n, v.ty), v)))
            return conj(cs)
    if a.op == "str" or (b.op != "str" and a.id > b.id):
        a, b = b, a
    return mk("eq", a, b)


def conj(cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is not TRUE and c not in out:
            if c.op == "and":
                out.extend(x for x in c.args if x not in out)
            else:
                out.append(c)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def disj(cs):
    return neg(conj([neg(c) for c in cs]))


# ---- facts ---------------------------------------------------------------------------------------------------
class Facts:
    """What is known on a path. `decide` is sound: an answer is implied by the facts."""

    def __init__(self, universe):
        self.universe = universe  # adt key -> tuple of variants
        self.variants = {}   # term -> frozenset
        self.heads = {}      # pos -> charset
        self.atoms = {}      # term -> bool
        self.lins = []       # linear terms known to be <= 0
        self.neqs = set()    # linear terms known to be != 0
        self.bottom = False
        self.hook = None     # extra facts for terms: f(term) -> iterable of conditions
        self._hooked = set()

    def copy(self):
        f = Facts.__new__(Facts)
        f.universe = self.universe
        f.variants = dict(self.variants)
        f.heads = dict(self.heads)
        f.atoms = dict(self.atoms)
        f.lins = list(self.lins)
        f.neqs = set(self.neqs)
        f.bottom = self.bottom
        f.hook = self.hook
        f._hooked = set(self._hooked)
        return f

    # ---- adding
    def add(self, c, val=True):
        if self.bottom:
            return
        if not val:
            c = neg(c)
        d = self.decide(c)
        if d is True:
            return
        if d is False:
            self.bottom = True
            return
        op = c.op
        if op == "and":
            for x in c.args:
                self.add(x)
            return
        if op == "le0":
            self.lins.append(c.args[0])
            return
        if op == "eq0":
            self.lins.append(c.args[0])
            self.lins.append(scale(c.args[0], -1))
            return
        if op == "hin":
            p, s = c.args
            self.heads[p] = cs_and(self.heads.get(p, UNIVERSE), s)
            return
        if op == "is":
            t, key, v = c.args
            self.variants[t] = frozenset([v])
            return
        if op == "not":
            x = c.args[0]
            if x.op == "eq0":
                self.neqs.add(x.args[0])
                return
            if x.op == "is":
                t, key, v = x.args
                u = self.variants.get(t, frozenset(self.universe(key)))
                self.variants[t] = u - {v}
                return
            self.atoms[x] = False
            return
        self.atoms[c] = True
        if op == "eq" and c.args[1].op == "str":
            pass

    # ---- deciding
    def decide(self, c):
        op = c.op
        if op == "bool":
            return c.args[0]
        if op == "not":
            r = self.decide(c.args[0])
            return None if r is None else not r
        if op == "and":
            res = True
            for x in c.args:
                r = self.decide(x)
                if r is False:
                    return False
                if r is None:
                    res = None
            if res is None:
                # known not to hold as a whole?
                if self.atoms.get(c) is not None:
                    return self.atoms[c]
                # all but one conjunct hold and the negation of a smaller conjunction is known
                open_ = [x for x in c.args if self.decide(x) is None]
                for a, v in list(self.atoms.items()):
                    if a.op == "and" and v is False and all(x in open_ or self.decide(x) for x in a.args) and len([x for x in a.args if x in open_]) <= len(open_):
                        if all(self.decide(x) or x in c.args for x in a.args):
                            return False
            return res
        if op == "hin":
            p, s = c.args
            h = self.heads.get(p, self._head_default(p))
            if not cs_and(h, s):
                return False
            if not cs_and(h, cs_not(s)):
                return True
            return None
        if op == "is":
            t, key, v = c.args
            if t.op == "adt":
                return t.args[1] == v
            u = self.variants.get(t)
            if u is None:
                u = frozenset(self.universe(key))
            if v not in u:
                return False
            if len(u) == 1:
                return True
            return None
        if op == "le0":
            if self._entails_le(c.args[0]):
                return True
            if self._entails_le(sub(I(1), c.args[0])):
                return False
            return None
        if op == "eq0":
            l = c.args[0]
            if l in self.neqs or scale(l, -1) in self.neqs:
                return False
            if self._entails_le(add(l, I(1))) or self._entails_le(sub(I(1), l)):
                return False
            if self._entails_le(l) and self._entails_le(scale(l, -1)):
                return True
            # parity and similar: a multiple of a term plus a known remainder
            return None
        a = self.atoms.get(c)
        if a is not None:
            return a
        if op == "eq":
            x, y = c.args
            # equal to a different constant
            if y.op == "str":
                for a, v in self.atoms.items():
                    if v and a.op == "eq" and a.args[0] is x and a.args[1].op == "str" and a.args[1] is not y:
                        return False
            if x.op == "adt" and not x.args[2] and y.op == "adt":
                return x is y
            nx, ny = self.norm(x), self.norm(y)
            if nx is not x or ny is not y:
                return self.decide(eq(nx, ny))
        return None

    def _head_default(self, p):
        if p.op == "after":
            return cs_not(p.args[1])
        return UNIVERSE

    # ---- linear reasoning
    def _bounds(self, t):
        """constraints (linear terms <= 0) that hold for an integer term by itself"""
        out = []
        if t.ty is not None and t.ty[0] == "int" and t.ty[1] in INT_RANGES:
            lo, hi = INT_RANGES[t.ty[1]]
            out.append(sub(I(lo), t))
            out.append(sub(t, I(hi)))
        if t.op in ("len", "k", "kx", "cnt"):
            out.append(scale(t, -1))
        if t.op == "head":
            h = self.heads.get(t.args[0], self._head_default(t.args[0]))
            if h:
                out.append(sub(I(h[0][0]), t))
                out.append(sub(t, I(h[-1][1])))
        if t.op == "rem":
            a, b = t.args
            cb = const_of(b)
            if cb is not None and cb > 0:
                out.append(sub(t, I(cb - 1)))
                out.append(sub(I(-(cb - 1)), t))
                if self._quick_nonneg(a):
                    out.append(scale(t, -1))
                # a = b * div(a, b) + rem(a, b)
                q = mk("div", a, b)
                e = sub(sub(a, scale(q, cb)), t)
                out.append(e)
                out.append(scale(e, -1))
            elif self._quick_nonneg(a) and self._quick_pos(b):
                out.append(scale(t, -1))
                out.append(add(sub(t, b), I(1)))
                out.append(sub(t, a))
        if t.op == "div":
            a, b = t.args
            cb = const_of(b)
            if cb is not None and cb > 0 and self._quick_nonneg(a):
                out.append(sub(scale(t, cb), a))
                out.append(sub(a, add(scale(t, cb), I(cb - 1))))
                out.append(scale(t, -1))
        if t.op == "mul" and all(self._quick_nonneg(x) for x in t.args):
            out.append(scale(t, -1))
        if self.hook is not None:
            for c in self.hook(t):
                if c.op == "le0":
                    out.append(c.args[0])
        return out

    def _quick_nonneg(self, t):
        c = const_of(t)
        if c is not None:
            return c >= 0
        if t.op in ("len", "k", "kx", "cnt"):
            return True
        if t.ty is not None and t.ty[0] == "int" and t.ty[1].startswith("u"):
            return True
        if t.op == "lin":
            if t.args[0] >= 0 and all(k > 0 and self._quick_nonneg(x) for x, k in t.args[1]):
                return True
            return self._simple_entails(scale(t, -1))
        return self._simple_entails(scale(t, -1))

    def _quick_pos(self, t):
        return self._simple_entails(sub(I(1), t))

    def _simple_entails(self, l):
        """l <= 0 from the recorded facts only, without looking into terms"""
        c, p = lin_parts(l)
        if not p:
            return c <= 0
        return self._fm(l, deep=False)

    def _entails_le(self, l):
        c, p = lin_parts(l)
        if not p:
            return c <= 0
        return self._fm(l, deep=True)

    def _fm(self, l, deep):
        """is l <= 0 implied?  refute 1 - l <= 0"""
        cons = [sub(I(1), l)]
        for x in self.lins:
            cons.append(x)
        # terms connected to the query
        rel = set(t for t, _ in lin_parts(l)[1])
        used = []
        pending = cons[1:]
        done = set()
        order = list(rel)
        if deep:
            pass
        changed = True
        pool = list(pending)
        chosen = []
        i = 0
        while changed:
            changed = False
            for t in list(rel):
                if t not in done:
                    done.add(t)
                    if deep:
                        for b in self._bounds(t):
                            pool.append(b)
                    else:
                        if t.ty is not None and t.ty[0] == "int" and t.ty[1] in INT_RANGES:
                            lo, hi = INT_RANGES[t.ty[1]]
                            pool.append(sub(I(lo), t))
                            pool.append(sub(t, I(hi)))
                        if t.op in ("len", "k", "kx", "cnt"):
                            pool.append(scale(t, -1))
                    changed = True
            rest = []
            for x in pool:
                ts = [t for t, _ in lin_parts(x)[1]]
                if any(t in rel for t in ts):
                    chosen.append(x)
                    for t in ts:
                        if t not in rel:
                            rel.add(t)
                            changed = True
                else:
                    rest.append(x)
            pool = rest
            if len(rel) > 24:
                break
        rows = [cons[0]] + chosen
        # neqs sharpen bounds: x <= 0 and x != 0 gives x + 1 <= 0
        if self.neqs:
            extra = []
            for x in rows:
                if x in self.neqs or scale(x, -1) in self.neqs:
                    extra.append(add(x, I(1)))
                c, p = lin_parts(x)
            rows += extra
        return _infeasible(rows)

    def norm(self, t):
        """rewrites a term with what is known"""
        memo = {}

        def f(x):
            if x.op == "rem":
                a, b = self.norm(x.args[0]), self.norm(x.args[1])
                return simp_rem(self, a, b, x.ty)
            if x.op == "div":
                a, b = self.norm(x.args[0]), self.norm(x.args[1])
                ca, cb = const_of(a), const_of(b)
                if ca is not None and cb:
                    q = abs(ca) // abs(cb)
                    return I(q if (ca < 0) == (cb < 0) else -q)
                return mk("div", a, b, ty=x.ty)
            if intlike(x) and x.op != "lin":
                e = self._eq_const(x)
                if e is not None:
                    return I(e)
            if x.op in ("is", "eq", "hin", "le0", "eq0", "not", "and"):
                d = self.decide(x)
                if d is not None:
                    return B(d)
            if x.op in ("adv", "after", "sym") and x in self.heads and cs_and(self.heads[x], self._head_default(x)) == ((-1, -1),):
                return Str("")     # nothing is left
            if x.op == "span":
                y = mk("after", x.args[0], x.args[1])
                if y in self.heads and cs_and(self.heads[y], self._head_default(y)) == ((-1, -1),):
                    return self.norm(x.args[0])     # all of it
            if x.op == "fld" or x.op == "sym" or x.op == "app" or x.op == "call":
                for a, v in self.atoms.items():
                    if v and a.op == "eq" and a.args[0] is x and a.args[1].op == "str":
                        return a.args[1]
            return None
        return subst(t, f, memo)

    def _eq_const(self, x):
        lo = hi = None
        for l in self.lins:
            c, p = lin_parts(l)
            if len(p) == 1 and p[0][0] is x:
                k = p[0][1]
                if k == 1:
                    hi = -c if hi is None else min(hi, -c)
                elif k == -1:
                    lo = c if lo is None else max(lo, c)
        if lo is not None and lo == hi:
            return lo
        if x.op == "head":
            h = self.heads.get(x.args[0])
            if h and len(h) == 1 and h[0][0] == h[0][1]:
                return h[0][0]
        return None


def simp_rem(facts, a, b, ty=None):
    ca, cb = const_of(a), const_of(b)
    if ca is not None and cb is not None and cb != 0:
        r = abs(ca) % abs(cb)
        return I(r if ca >= 0 else -r)
    if cb == 1:
        return I(0)
    # a multiple of b
    c, p = lin_parts(a)
    if b.op != "lin" and c == 0 and len(p) == 1 and p[0][0] is b:
        return I(0)
    # (x mod b + y) mod b
    if facts is not None and any(t.op == "rem" and t.args[1] is b and k == 1 for t, k in p):
        na = I(c)
        for t, k in p:
            if t.op == "rem" and t.args[1] is b and k == 1 and facts._quick_nonneg(t.args[0]) and facts._quick_nonneg(a):
                na = add(na, t.args[0])
            else:
                na = add(na, scale(t, k))
        if na is not a:
            return simp_rem(facts, na, b, ty)
    if facts is not None:
        if facts._entails_le(scale(a, -1)) and facts._entails_le(sub(I(1), b)):
            if facts._entails_le(add(sub(a, b), I(1))):
                return a
            if facts._entails_le(sub(b, a)) and facts._entails_le(add(sub(a, scale(b, 2)), I(1))):
                return sub(a, b)
    return mk("rem", a, b, ty=ty)


_inf_memo = {}


def _infeasible(rows):
    key = frozenset(rows)
    r = _inf_memo.get(key)
    if r is None:
        r = _infeasible0(rows)
        _inf_memo[key] = r
    return r


def _infeasible0(rows):
    sysm = []
    seen = set()
    for l in rows:
        c, p = lin_parts(l)
        if not p:
            if c > 0:
                return True
            continue
        v = (c, p)
        if v not in seen:
            seen.add(v)
            sysm.append((c, dict(p)))
    for _ in range(40):
        vs = {}
        for c, d in sysm:
            for t, k in d.items():
                e = vs.setdefault(t, [0, 0])
                e[0 if k > 0 else 1] += 1
        if not vs:
            return False
        # eliminate the cheapest variable
        t = min(vs, key=lambda x: (vs[x][0] * vs[x][1], x.id))
        pos, negv, rest = [], [], []
        for c, d in sysm:
            k = d.get(t, 0)
            (pos if k > 0 else negv if k < 0 else rest).append((c, d))
        if len(pos) * len(negv) > 400:
            return False
        new = rest
        keys = set()
        for c, d in rest:
            keys.add((c, tuple(sorted(d.items(), key=lambda x: x[0].id))))
        for cp, dp in pos:
            for cn, dn in negv:
                kp, kn = dp[t], -dn[t]
                c = cp * kn + cn * kp
                d = {}
                for x, k in dp.items():
                    d[x] = k * kn
                for x, k in dn.items():
                    d[x] = d.get(x, 0) + k * kp
                d = {x: k for x, k in d.items() if k != 0}
                if not d:
                    if c > 0:
                        return True
                    continue
                from math import gcd
                g = 0
                for k in d.values():
                    g = gcd(g, abs(k))
                if g > 1:
                    c = -((-c) // g)
                    d = {x: k // g for x, k in d.items()}
                kk = (c, tuple(sorted(d.items(), key=lambda x: x[0].id)))
                if kk not in keys:
                    keys.add(kk)
                    new.append((c, d))
        sysm = new
        if len(sysm) > 600:
            return False
    return False


# ---- printing ---------------------------------------------------------------------------------------------
def cs_show(s):
    out = []
    for lo, hi in s:
        def ch(x):
            return "EOF" if x < 0 else (chr(x) if 32 < x < 127 else "\\u%x" % x)
        out.append(ch(lo) if lo == hi else "%s-%s" % (ch(lo), ch(hi)))
    return "{" + " ".join(out) + "}"


def show(t, depth=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 9:
        return "…"
    d = depth + 1
    o, a = t.op, t.args
    if o == "lin":
        s = []
        for x, k in a[1]:
            s.append(("" if k == 1 else "-" if k == -1 else "%d*" % k) + show(x, d))
        if a[0] or not s:
            s.append(str(a[0]))
        return " + ".join(s).replace("+ -", "- ")
    if o == "bool":
        return str(a[0]).lower()
    if o == "str":
        return repr(a[0])
    if o == "sym":
        return a[0]
    if o == "fld":
        return "%s.%s" % (show(a[0], d), a[2] if not a[1] else "%s.%s" % (a[1], a[2]))
    if o == "adt":
        nm = a[1] or a[0].split("::")[-1]
        if a[0] == "tuple":
            return "(" + ", ".join(show(v, d) for _, v in a[2]) + ")"
        return "%s{%s}" % (nm, ", ".join("%s: %s" % (n, show(v, d)) for n, v in a[2]))
    if o == "le0":
        return "%s <= 0" % show(a[0], d)
    if o == "eq0":
        return "%s == 0" % show(a[0], d)
    if o == "not":
        return "!(%s)" % show(a[0], d)
    if o == "is":
        return "%s is %s" % (show(a[0], d), a[2])
    if o == "hin":
        return "head(%s) in %s" % (show(a[0], d), cs_show(a[1]))
    if o in ("after", "span"):
        return "%s(%s, %s)" % (o, show(a[0], d), cs_show(a[1]))
    if o == "list":
        return "[" + ", ".join({"e": "", "s": "..", "f": "..", }.get(s[0], s[0]) + show(s[1], d) for s in a) + "]"
    if o in ("app", "call", "unk"):
        return "%s(%s)" % (str(a[0]).split("::")[-1] if o != "unk" else "?" + str(a[0]), ", ".join(show(x, d) for x in a[1:]))
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))
