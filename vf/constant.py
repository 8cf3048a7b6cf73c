"""Constant evaluation of the values and conditions of functions whose parameters are numbers.

Values are Python integers, truth values, strings, tuples (arrays) and ("adt", type, variant, {field: value})."""
import time

import terms as T
from terms import Term


class Undef(Exception):
    pass


INT = {"le0", "eq0", "lin", "mul", "rem", "div", "cast", "max0"}
LIMIT = 1000    # iterations of one loop


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class Const:
    free_of = {}

    def __init__(self, params, deadline):
        self.params = params      # symbol -> value
        self.deadline = deadline
        self.env = {}
        self.ver = {}
        self.count = 0
        self.memo = {}
        self.vmemo = {}

    @classmethod
    def free(cls, t):
        """the loops whose iteration a term depends on"""
        if not isinstance(t, Term):
            if isinstance(t, tuple):
                r = frozenset()
                for x in t:
                    r |= cls.free(x)
                return r
            return frozenset()
        r = cls.free_of.get(t)
        if r is None:
            if t.op in ("sv", "k"):
                r = frozenset((t.args[0],))
            elif t.op == "loop":
                r = cls.free(t.args[1]) | (cls.free(t.args[2:]) - {t.args[0]})
            else:
                r = cls.free(t.args)
            cls.free_of[t] = r
        return r

    def ev(self, t):
        f = self.free(t)
        if f:
            try:
                key = (t,) + tuple(self.ver[x] for x in sorted(f))
            except KeyError:
                raise Undef()
            m = self.vmemo
        else:
            key, m = t, self.memo
        r = m.get(key)
        if r is None:
            self.count += 1
            if self.count % 1024 == 0 and time.process_time() > self.deadline:
                raise Timeout()
            r = self.ev0(t)
            m[key] = r
        return r

    def num(self, t):
        x = self.ev(t)
        if not isinstance(x, int) or isinstance(x, bool):
            raise Undef()
        return x

    def truth(self, t):
        x = self.ev(t)
        if not isinstance(x, bool):
            raise Undef()
        return x

    def seq(self, t):
        x = self.ev(t)
        if not isinstance(x, tuple) or x[:1] == ("adt",):
            raise Undef()
        return x

    def ev0(self, t):
        o, a = t.op, t.args
        if o == "lin":
            r = a[0]
            for x, k in a[1]:
                r += self.num(x) * k
            return r
        if o in ("sym",):
            if t in self.params:
                return self.params[t]
            raise Undef()
        if o == "sv":
            return self.env[a]
        if o == "k":
            return self.env[a[0]]
        if o == "bool" or o == "str":
            return a[0]
        if o == "mul":
            r = 1
            for x in a:
                r *= self.num(x)
            return r
        if o in ("rem", "div"):
            x, y = self.num(a[0]), self.num(a[1])
            if y == 0:
                raise Undef()
            return tdiv(x, y) if o == "div" else x - y * tdiv(x, y)
        if o == "cast":
            if a[0] not in T.INT_RANGES:
                raise Undef()
            lo, hi = T.INT_RANGES[a[0]]
            return (self.num(a[1]) - lo) % (hi - lo + 1) + lo
        if o == "max0":
            return max(0, self.num(a[0]))
        if o in ("bitAnd", "bitOr", "bitXor"):
            x, y = self.num(a[0]), self.num(a[1])
            return x & y if o == "bitAnd" else x | y if o == "bitOr" else x ^ y
        if o == "le0":
            return self.num(a[0]) <= 0
        if o == "eq0":
            return self.num(a[0]) == 0
        if o == "not":
            return not self.truth(a[0])
        if o == "and":
            return self.all(a)
        if o == "adt":
            return ("adt", a[0], a[1], tuple((n, self.ev(v)) for n, v in a[2]))
        if o == "fld":
            x = self.ev(a[0])
            if isinstance(x, tuple) and x[:1] == ("adt",) and x[2] == a[1]:
                for n, v in x[3]:
                    if n == a[2]:
                        return v
            raise Undef()
        if o == "is":
            x = self.ev(a[0])
            if isinstance(x, tuple) and x[:1] == ("adt",):
                return x[2] == a[2]
            raise Undef()
        if o == "eq":
            x, y = self.ev(a[0]), self.ev(a[1])
            return x == y
        if o == "list":
            out = []
            for s in a:
                if s[0] == "e":
                    out.append(self.ev(s[1]))
                else:
                    out += self.seq(s[1])
            return tuple(out)
        if o == "rep":
            n = self.num(a[1])
            if not 0 <= n <= 70000:
                raise Undef()
            return (self.ev(a[0]),) * n
        if o == "upd":
            xs, i = self.seq(a[0]), self.num(a[1])
            if not 0 <= i < len(xs):
                raise Undef()
            return xs[:i] + (self.ev(a[2]),) + xs[i + 1:]
        if o == "at":
            xs, i = self.seq(a[0]), self.num(a[1])
            if not 0 <= i < len(xs):
                raise Undef()
            return xs[i]
        if o == "len":
            return len(self.seq(a[0]))
        if o == "slice":
            xs = self.seq(a[0])
            lo, hi = self.num(a[1]), self.num(a[2])
            if not 0 <= lo <= hi <= len(xs):
                raise Undef()
            return xs[lo:hi]
        if o == "loop":
            return self.loop(t)
        if o == "kx":
            return self.ev(a[0])[1]
        if o == "st":
            r = self.ev(a[0])
            k = self.num(a[2])
            if not 0 <= k < len(r[2]):
                raise Undef()
            return r[2][k][a[1]]
        raise Undef()

    order = {}
    has_loop = {}

    @classmethod
    def loops_in(cls, t):
        if isinstance(t, tuple):
            return any(cls.loops_in(x) for x in t)
        if not isinstance(t, Term):
            return False
        r = cls.has_loop.get(t)
        if r is None:
            r = cls.has_loop[t] = t.op == "loop" or cls.loops_in(t.args)
        return r

    def by_cost(self, cs):
        """what needs no loop first"""
        k = id(cs)
        r = self.order.get(k)
        if r is None or r[0] is not cs:
            r = self.order[k] = cs, sorted(cs, key=self.loops_in)
        return r[1]

    def all(self, cs):
        und = False
        for c in self.by_cost(cs):
            try:
                if not self.truth(c):
                    return False
            except Undef:
                und = True
        if und:
            raise Undef()
        return True

    def loop(self, t):
        lvl, inits, backs, exits, divs = t.args
        vals = tuple(self.ev(x) for x in inits)
        states = [vals]
        old = self.ver.get(lvl), {k: v for k, v in self.env.items() if k == lvl or isinstance(k, tuple) and k[0] == lvl}
        try:
            for it in range(LIMIT):
                self.count += 1
                self.ver[lvl] = self.count
                self.env[lvl] = it
                for i, v in enumerate(vals):
                    self.env[(lvl, i)] = v
                hit = None
                for kind, alts in (("exit", exits), ("back", backs), ("div", divs)):
                    for alt in alts:
                        try:
                            if self.all(alt[0] if kind == "back" else alt):
                                hit = kind, alt
                                break
                        except Undef:
                            pass
                    if hit:
                        break
                if hit is None:
                    raise Undef()
                if hit[0] != "back":
                    return ("run", it, states)
                vals = tuple(self.ev(v) for v in hit[1][1])
                states.append(vals)
                if len(self.vmemo) > 300000:
                    self.vmemo.clear()
            raise Undef()
        finally:
            for k in [k for k in self.env if k == lvl or isinstance(k, tuple) and k[0] == lvl]:
                del self.env[k]
            self.env.update(old[1])
            if old[0] is None:
                self.ver.pop(lvl, None)
            else:
                self.ver[lvl] = old[0]


class Timeout(Exception):
    pass


def outcome(outs, params, deadline):
    c = Const(params, deadline)
    for o in outs:
        try:
            if c.all(o.conds):
                if o.effects:
                    raise Undef()
                return o.kind, c.ev(o.value) if o.kind == "ret" else None
        except Undef:
            pass
    raise Undef()


def text(r):
    kind, v = r
    s = kind if kind != "ret" else str(v)
    return s if len(s) < 200 else s[:200] + "…"


def constants(outs, acc, seen):
    st = [x for o in outs for x in list(o.conds) + [o.value] if x is not None]
    while st:
        t = st.pop()
        if isinstance(t, tuple):
            st.extend(t)
        elif isinstance(t, Term) and t not in seen:
            seen.add(t)
            if t.op == "lin":
                acc.add(abs(t.args[0]))
            st.extend(t.args)


def differ(oa, ob, params, seconds):
    """Arguments for which both sides certainly have a result and the results differ, or None"""
    import random
    t0 = time.process_time()
    cs = set()
    seen = set()
    constants(oa, cs, seen)
    constants(ob, cs, seen)
    ranges = []
    for p in params:
        if p.ty[0] == "bool":
            ranges.append((False, True))
        else:
            lo, hi = T.INT_RANGES[p.ty[1]]
            base = [1, 2, 3, 4, 6, 0, 5, 8, 9, 12, 107] + sorted(c + d for c in cs if c < 300 for d in (0, 1, -1)) + [-1, -2, 16, 24, 7, 30, 60, lo, hi]
            ranges.append(tuple(x for i, x in enumerate(base) if lo <= x <= hi and x not in base[:i]))
    if len(params) == 1:
        todo = [(x,) for x in ranges[0]]
    else:
        rnd = random.Random(7)
        todo = [tuple(rnd.choice(r) for r in ranges) for _ in range(200)]
    tried = 0
    for args in todo:
        if time.process_time() - t0 > seconds:
            break
        am = dict(zip(params, args))
        try:
            a = outcome(oa, am, t0 + seconds)
            b = outcome(ob, am, t0 + seconds)
            tried += 1
            if a != b:
                return args, text(a), text(b)
        except (Undef, RecursionError, OverflowError, ValueError, MemoryError):
            pass
        except Timeout:
            break
    return None
