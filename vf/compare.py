"""Comparison of two descriptions of the same function: the analysed source and the reference model.

Both sides are given as path outcomes of the value-flow analysis. For every pair of paths whose conditions can
hold together the kinds, results, writes and effects must be the same terms. A difference is reported only when
it is definite: the terms use nothing the reference does not use, and an assignment of numbers to the integer
terms shows that they are not two spellings of one value.
"""
import itertools
import signal
import time
import traceback

import constant
import evalt
import interp as IP
import terms as T
from interp import Interp, Abort, skey
from terms import mk, I, const_of, eq0, sub, subst, fields_of

TIME_LIMIT = 40.0
REFUTE_LIMIT = 14.0
JOINT_LIMIT = 9.0

_sizes = {}


def term_size(t):
    """the size of a term, up to a limit"""
    r = _sizes.get(t)
    if r is None:
        r = 1
        st = list(t.args)
        while st:
            a = st.pop()
            if isinstance(a, tuple):
                st.extend(a)
            elif isinstance(a, T.Term):
                r += term_size(a)
        r = min(r, 100000)
        _sizes[t] = r
    return r


class Diff:
    __slots__ = ("what", "a", "b", "conds", "definite", "why", "facts", "pair", "possible", "values", "calls")

    def __init__(self, what, a, b, conds=(), possible=False, facts=None, pair=None, why=""):
        self.what, self.a, self.b, self.conds, self.definite, self.why = what, a, b, list(conds), False, why
        self.possible, self.facts, self.pair = possible, facts, pair
        self.calls = None     # does it depend on functions that are called?
        self.values = None    # for writes: (where, source, reference)

    def text(self):
        s = "%s: source %s, reference %s" % (self.what, clip(show(self.a)), clip(show(self.b)))
        if self.conds:
            s += " when " + " and ".join(clip(T.show(c), 160) for c in self.conds[:8])
        return s


def show(t):
    if t is None:
        return "-"
    if isinstance(t, T.Term):
        return T.show(t)
    return str(t)


def clip(s, n=400):
    return s if len(s) <= n else s[:n] + "…"


UNCERTAIN = {("app", x + "from_utf8") for x in ("", "str::", "String::", "std::str::", "core::str::", "core::str::converts::", "std::string::String::", "alloc::string::String::")}
VOCAB_OPS = ("app", "call", "unk", "post", "fn", "uninit", "loadm", "load", "bitnot", "bitAnd", "bitOr", "bitXor", "concat", "join", "addr", "ptreq")


def vocab(t, out):
    """uninterpreted names used by a term"""
    for x in T.subterms(t):
        o = x.op
        if o == "app" and x.args[0] == "ptr_addr":
            continue        # any number
        if o in ("app", "call", "unk", "post", "fn"):
            out.add((o if o != "post" else "call", str(x.args[0])))
        elif o == "loop":
            out.add(("loop", x))
        elif o == "adt" and str(x.args[0]).startswith("closure:"):
            out.add(("closure", x.args[0]))
        elif o in VOCAB_OPS:
            out.add((o, ""))
        elif o in ("lin", "adt", "fld", "at", "len", "list", "cat", "str", "bool", "sym", "fam", "bv", "le0", "eq0", "eq", "is", "hin", "head",
                   "after", "span", "not", "and", "mul", "rem", "div", "cast", "k", "kx", "st", "sv"):
            pass
        else:
            out.add((o, ""))


# ------------------------------------------------------------------ loops
def depth(t, memo={}):
    r = memo.get(t)
    if r is None:
        r = 1 + max([depth(x) for x in T.subterms(t.args) if x.op == "loop"] or [0])
        memo[t] = r
    return r


def loops_of(outs):
    s = set()
    for o in outs:
        for t in terms_of(o):
            for x in T.subterms(t):
                if x.op == "loop":
                    s.add(x)
    return s


def terms_of(o):
    r = list(o.conds)
    if o.value is not None and isinstance(o.value, T.Term):
        r.append(o.value)
    r += [v for _, v in o.posts]
    for b, v in o.effects:
        if isinstance(b, T.Term):
            r.append(b)
        r.append(v)
    return r


class Mapping:
    """replaces loops of the source by matching loops of the reference"""

    def __init__(self):
        self.m = {}       # rec -> (rec, perm)
        self.memo = {}

    def put(self, ra, rb, perm):
        self.m[ra] = (rb, perm)
        self.memo = {}

    def __call__(self, t):
        if not self.m:
            return t
        return subst(t, self.f, self.memo)

    def f(self, x):
        if x.op == "loop":
            r = self.m.get(x)
            return r[0] if r else None
        if x.op == "st" and x.args[0] in self.m:
            rb, perm = self.m[x.args[0]]
            return mk("st", rb, perm[x.args[1]], self(x.args[2]), ty=x.ty)
        return None


def match_loops(oa, ob, cmp, guess=True):
    """pairs the loops of both sides; returns the mapping and the differences of the loops that do not match"""
    la, lb = loops_of(oa), loops_of(ob)
    mp = Mapping()
    left_b = [x for x in lb if x not in la]
    diffs = []
    todo = sorted((x for x in la if x not in lb), key=lambda x: (depth(x), x.id))
    matched_b = set()
    unmatched = []
    for ra in todo:
        r2 = mp(ra)
        if r2 in lb:
            mp.put(ra, r2, list(range(len(r2.args[1]))))
            matched_b.add(r2)
            continue
        done = False
        cands = [rb for rb in left_b if rb not in matched_b and len(rb.args[1]) == len(r2.args[1])]
        for rb in cands:
            for perm in perms(r2, rb):
                if not bisim(r2, rb, perm, cmp):
                    mp.put(ra, rb, perm)
                    matched_b.add(rb)
                    done = True
                    break
            if done:
                break
        if not done:
            unmatched.append((ra, r2))
    rest_b = [rb for rb in left_b if rb not in matched_b]
    # exactly one loop of the same form is left on both sides: they are the same loop, written differently
    for d in sorted({depth(x) for x in rest_b} if guess else ()):
        ua = [x for x in unmatched if depth(x[0]) == d]
        ub = [x for x in rest_b if depth(x) == d]
        if len(ua) == 1 and len(ub) == 1 and len(la) == len(lb):
            r2, rb = mp(ua[0][0]), ub[0]
            if len(r2.args[1]) == len(rb.args[1]):
                best = None
                for perm in perms(r2, rb):
                    ds = bisim(r2, rb, perm, cmp, False)
                    if best is None or len(ds) < len(best[1]):
                        best = (perm, ds)
                if best is not None:
                    # deeper loops that contain it are compared as if it were the same
                    if not best[1]:
                        pass
                    diffs += best[1]
                    mp.put(ua[0][0], rb, best[0])
                    if r2 is not ua[0][0]:
                        mp.put(r2, rb, best[0])
    return mp, diffs


def perms(ra, rb):
    """renamings of the slots of ra that give the slots of rb the same initial values"""
    ia, ib = ra.args[1], rb.args[1]
    n = len(ia)
    if n > 5:
        return [list(range(n))] if list(ia) == list(ib) else []
    out = []
    for p in itertools.permutations(range(n)):
        if all(ia[i] is ib[p[i]] for i in range(n)):
            out.append(list(p))
    return out


def renumbered(r):
    lvl = r.args[0]

    def f(x):
        if x.op == "loop" and x.args[0] == lvl:
            return x
        if x.op in ("k", "sv") and x.args[0] == lvl:
            return mk(x.op, 1000, *x.args[1:], ty=x.ty)
        return None
    memo = {}
    return mk("loop", 1000, r.args[1], *(subst(x, f, memo) for x in r.args[2:]))


def bisim(ra, rb, perm, cmp, first=True):
    """differences between the iterations of two loops"""
    lvl = ra.args[0]
    if rb.args[0] != lvl:
        ra, rb = renumbered(ra), renumbered(rb)
        lvl = ra.args[0]
    ren = {mk("sv", lvl, i): mk("sv", lvl, perm[i]) for i in range(len(perm)) if perm[i] != i}

    def rn(t):
        if not ren:
            return t
        tmp = subst(t, lambda x: x if x.op == "loop" and x.args[0] == lvl else mk("svtmp", ren[x].args[1]) if x in ren else None)
        return subst(tmp, lambda x: mk("sv", lvl, x.args[0]) if x.op == "svtmp" else None)
    alts_a = [("back", rn(c), rn(v)) for c, v in ra.args[2]] + [("exit", rn(c), None) for c in ra.args[3]] + [("panic", rn(c), None) for c in ra.args[4]]
    alts_b = [("back", c, v) for c, v in rb.args[2]] + [("exit", c, None) for c in rb.args[3]] + [("panic", c, None) for c in rb.args[4]]
    diffs = []
    for ka, ca, va in alts_a:
        for kb, cb, vb in alts_b:
            cmp.tick()
            f = cmp.joint([T.le0(T.scale(mk("k", lvl), -1))] + list(ca) + list(cb))
            if f is None:
                continue
            if ka != kb:
                cs = list(ca) + list(cb)
                diffs.append(Diff("an iteration ends differently", mk("str", ka), mk("str", kb), cs, cmp.new_vocab(cs) is None, f))
                if first:
                    return diffs
                continue
            if ka == "back":
                for i in range(len(va)):
                    x, y = va[i], vb[perm[i]]
                    cmp.cmp_term("value carried by the loop", x, y, f, list(ca) + list(cb), diffs)
                    if first and diffs:
                        return diffs
    return diffs


# ------------------------------------------------------------------ the comparison
class Timeout(Exception):
    pass


class Comparer:
    def __init__(self, universe, vocab_b=None, limit=TIME_LIMIT):
        self.universe = universe
        self.t0 = time.process_time()
        self.limit = limit
        self.vocab_b = vocab_b
        self.pairs = 0
        self.summ = None
        self.debug_panics = False   # new panics may come from debug assertions

    def tick(self):
        if time.process_time() - self.t0 > self.limit:
            raise Timeout()

    def joint(self, conds):
        f = T.Facts(self.universe)
        for c in conds:
            f.add(c)
            if f.bottom:
                return None
        # a second round: facts found later may contradict earlier conditions
        for c in conds:
            n = f.norm(c)
            if n.op == "bool":
                if not n.args[0]:
                    return None
                continue
            if f.decide(n) is False:
                return None
        return f

    def compare(self, oa, ob, guess=True):
        """[] if the same, otherwise the differences"""
        diffs = []
        vb = set()
        for o in ob:
            for t in terms_of(o):
                vocab(t, vb)
        self.vocab_b = vb
        mp, ld = match_loops(oa, ob, self, guess)
        self.loops_differ = bool(ld)
        diffs += ld
        amapped = []
        for o in oa:
            amapped.append((o, [mp(c) for c in o.conds], mp(o.value) if isinstance(o.value, T.Term) else o.value,
                            [(i, mp(v)) for i, v in o.posts], [(mp(b) if isinstance(b, T.Term) else b, mp(v)) for b, v in o.effects]))
        covered_b = set()
        for o, ca, va, pa, ea in amapped:
            base = self.joint(ca)
            if base is None:
                continue
            cset = set(ca)
            for ib, p in enumerate(ob):
                self.tick()
                # quick contradiction
                if any(T.neg(c) in cset for c in p.conds):
                    continue
                f = self.joint(list(ca) + [c for c in p.conds if c not in cset])
                if f is None:
                    continue
                self.pairs += 1
                conds = list(ca) + [c for c in p.conds if c not in cset]
                if o.kind == "panic" and p.kind != "panic" and self.debug_panics:
                    continue
                if o.kind != p.kind:
                    diffs.append(Diff("the outcome", mk("str", o.kind), mk("str", p.kind), conds, self.new_vocab(conds) is None, f))
                    continue
                if o.kind == "panic":
                    continue
                if o.kind == "exit":
                    if isinstance(va, T.Term) and isinstance(p.value, T.Term):
                        self.cmp_term("exit code", va, p.value, f, conds, diffs)
                    elif va != p.value:
                        diffs.append(Diff("exit code", mk("str", str(va)), mk("str", str(p.value)), conds, self.new_vocab(conds) is None, f))
                else:
                    self.cmp_term("result", va, p.value, f, conds, diffs)
                    if [i for i, _ in pa] != [i for i, _ in p.posts]:
                        diffs.append(Diff("written arguments", mk("str", str([i for i, _ in pa])), mk("str", str([i for i, _ in p.posts])), conds))
                    else:
                        for (i, x), (_, y) in zip(pa, p.posts):
                            self.cmp_term("argument %s after the call" % i, x, y, f, conds, diffs)
                self.cmp_effects(ea, p.effects, f, conds, diffs)
                if len(diffs) > 40:
                    return diffs
        return diffs

    def cmp_effects(self, ea, eb, f, conds, diffs):
        da, db = {}, {}
        for d, e in ((da, ea), (db, eb)):
            for b, v in e:
                k = f.norm(b) if isinstance(b, T.Term) else b
                d.setdefault(k, []).append(v)
        for k in sorted(set(da) | set(db), key=lambda x: skey(x) if isinstance(x, T.Term) else str(x)):
            x, y = da.get(k), db.get(k)
            what = "output" if k == "io" else "memory written"
            if x is None or y is None:
                # writing nothing in a loop that does not run
                a, b = mk("list") if x is None else x[0], mk("list") if y is None else y[0]
                d = Diff(what, a, b, conds, self.new_vocab([c for c in conds] + (x or [])) is None, f)
                d.values = ("io" if k == "io" else k, a, b)
                diffs.append(d)
                continue
            if len(x) != len(y):
                diffs.append(Diff(what, mk("str", str(len(x))), mk("str", str(len(y))), conds))
                continue
            for p, q in zip(x, y):
                n = len(diffs)
                self.cmp_term(what, p, q, f, conds, diffs)
                if len(diffs) > n and k != "io":
                    diffs[-1].values = (k, p, q)

    def new_vocab(self, ts):
        if self.vocab_b is None:
            return None
        v = set()
        for t in ts:
            if isinstance(t, T.Term):
                vocab(t, v)
        n = v - self.vocab_b
        return n or None

    # ---- values
    def cmp_term(self, what, x, y, f, conds, diffs):
        if x is y:
            return
        nx, ny = f.norm(x), f.norm(y)
        bad = []
        self.eqv(nx, ny, f, bad)
        if not bad:
            return
        p, q = bad[0]
        d = Diff(what, p, q, conds, pair=(nx, ny))
        new = self.new_vocab([t for t in (p, q) if isinstance(t, T.Term)] + list(conds))
        if new is None and not p.taint and not q.taint:
            d.possible, d.facts, d.pair = True, f, (nx, ny)
        else:
            d.why = "uses " + ", ".join(sorted(clip("%s %s" % (a, b if not isinstance(b, T.Term) else ""), 60) for a, b in (new or {("unknown", "")})))
        diffs.append(d)

    def eqv(self, x, y, f, bad):
        """appends pairs of subterms that are not known to be equal"""
        if x is y:
            return
        if T.intlike(x) and T.intlike(y):
            d = f.decide(eq0(sub(x, y)))
            if d is not True:
                bad.append((x, y))
            return
        if x.op == "bool" or y.op == "bool" or x.op in ("is", "hin", "le0", "eq0", "not", "and", "eq"):
            if x.op in ("is", "hin", "le0", "eq0", "not", "and", "eq", "bool") and y.op in ("is", "hin", "le0", "eq0", "not", "and", "eq", "bool"):
                for v in (True, False):
                    g = f.copy()
                    g.add(x, v)
                    if g.bottom:
                        continue
                    if g.decide(y) is not v:
                        bad.append((x, y))
                        return
                return
            bad.append((x, y))
            return
        if x.op == "adt" and y.op == "adt":
            if x.args[0] != y.args[0] or x.args[1] != y.args[1] or len(x.args[2]) != len(y.args[2]):
                bad.append((x, y))
                return
            free = is_error(x.args[0])
            for (n, p), (m, q) in zip(x.args[2], y.args[2]):
                if n != m:
                    bad.append((x, y))
                    return
                if free and n == "description":
                    continue
                self.eqv(p, q, f, bad)
            return
        for p, q, sw in ((x, y, False), (y, x, True)):
            if p.op == "adt" and q.op != "adt":
                if p.args[1] and not str(p.args[0]).startswith("closure") and p.args[0] != "tuple":
                    try:
                        d = f.decide(mk("is", q, p.args[0], p.args[1]))
                    except Abort:
                        d = None
                    if d is not True:
                        bad.append((x, y))
                        return
                n = len(p.args[2])
                free = is_error(p.args[0])
                for nm, v in p.args[2]:
                    if free and nm == "description":
                        continue
                    w = f.norm(T.fld(q, p.args[1], nm, n, v.ty))
                    if sw:
                        self.eqv(w, v, f, bad)
                    else:
                        self.eqv(v, w, f, bad)
                    if bad:
                        return
                return
        if x.op == y.op and x.op == "list" and len(x.args) == len(y.args) and all(a[0] == b[0] for a, b in zip(x.args, y.args)):
            k = len(bad)
            for a, b in zip(x.args, y.args):
                self.eqv(a[1], b[1], f, bad)
                if len(bad) > k:
                    del bad[k:]
                    bad.append((x, y))
                    return
            return
        if x.op == y.op and x.op == "cat" and len(x.args) == len(y.args):
            k = len(bad)
            for a, b in zip(x.args, y.args):
                self.eqv(a, b, f, bad)
                if len(bad) > k:
                    del bad[k:]
                    bad.append((x, y))
                    return
            return
        if x.op == y.op and x.op not in ("lin", "sym", "str", "bool", "loop") and len(x.args) == len(y.args):
            # the same constructor or function: compare the arguments
            k = len(bad)
            if self.eq_args(x.args, y.args, f, bad):
                return
            del bad[k:]
            bad.append((x, y))
            return
        bad.append((x, y))

    def eq_args(self, a, b, f, bad):
        for p, q in zip(a, b):
            if isinstance(p, T.Term) and isinstance(q, T.Term):
                k = len(bad)
                self.eqv(p, q, f, bad)
                if len(bad) > k:
                    return False
            elif isinstance(p, tuple) and isinstance(q, tuple):
                if len(p) != len(q) or not self.eq_args(p, q, f, bad):
                    return False
            elif p != q:
                return False
        return True

    def confirm(self, diffs):
        """looks for a difference that is definite: an interpretation under which the two sides differ"""
        t0 = time.process_time()
        todo = [d for d in diffs if d.pair is not None or d.values is not None or d.what == "the outcome"]
        todo.sort(key=lambda d: sum(term_size(c) for c in d.conds) + sum(term_size(x) for x in (d.pair or ())))

        def left():
            return REFUTE_LIMIT - (time.process_time() - t0)

        def refute(d, seconds, summ, why):
            v = self.vocab_b
            if v is not None and d.pair is None and d.values is None and "source 'panic'" in d.text()[:60]:
                # whether given bytes are UTF-8 is nothing that the source can rely on
                v = set(v) | UNCERTAIN
            return left() > 0.1 and evalt.refute(d.conds, d.values if d.values is not None else d.pair, self.universe, v, min(left(), seconds), self.tick,
                                                 seed=int(seconds * 10), why=why, summ=summ) is not None
        for seconds, ds in ((0.6, todo[:24]), (4.0, todo[:14])):
            for d in ds:
                if left() < 0.1:
                    return
                why = []
                if d.calls is None:
                    d.calls = self.calls_in(d)
                if d.calls != "only":
                    # functions that are not looked into may do anything
                    if refute(d, seconds, None, why):
                        if not d.calls:
                            d.definite = True
                            d.why = "interpreted"
                            return
                        # they do what the reference does
                        d.calls = "only"
                        if refute(d, 2.5, self.summ, why):
                            d.definite = True
                            d.why = "interpreted with the functions that are called"
                            return
                    elif d.calls and refute(d, seconds / 2, self.summ, why):
                        d.definite = True
                        d.why = "interpreted with the functions that are called"
                        return
                elif refute(d, seconds, self.summ, why):
                    d.definite = True
                    d.why = "interpreted with the functions that are called"
                    return
                if why:
                    d.why = d.why.split("; ")[0] + "; " + why[-1]

    def calls_in(self, d):
        """does it depend on what functions do that were not looked into?"""
        if self.summ is None:
            return ""
        seen = set()
        for t in list(d.conds) + list(d.pair or ()) + list(d.values or ()):
            if isinstance(t, (T.Term, tuple)):
                T.subterms(t, seen)
        for x in seen:
            n = str(x.args[0]) if x.args else ""
            if x.op == "call" and self.summ.get(n, len(x.args) - 1) is not None:
                return "some"
            if x.op == "post" and self.summ.get(n, len(x.args) - 2) is not None:
                return "some"
            if x.op == "app" and (n.startswith("show:") and self.summ.display(n[5:]) is not None or n in ("parses", "parse_rest", "parse_value")):
                return "some"
        return ""


def is_error(key):
    return str(key).split("::")[-1].endswith("Error")


def big_table(v):
    """a structure with tables of all packed values"""
    return isinstance(v, T.Term) and v.op == "adt" and str(v.args[0]).split("::")[-1] == "OrientationPacker"


class Summaries:
    """what the functions of the reference do, for interpreting calls"""

    def __init__(self, N, universe, *cuts):
        self.N, self.universe, self.cuts = N, universe, cuts
        self.outs = {}
        self.params = {}
        self.shows = {}
        self.cache = {}
        self.vocab = set()    # what these functions use
        for c, f in N.by_cid.items():
            if f.kind == "method" and f.name == "fmt" and (f.trait or "").split("::")[-1] == "Display" and f.selfty is not None:
                self.shows[N.ty(f.selfty)] = c

    def display(self, ty):
        n = self.shows.get(ty)
        return n if n is not None and self.get(n, 2) is not None else None

    def get(self, name, nargs):
        name = str(name)
        if name not in self.outs:
            self.outs[name] = None
            f = self.N.by_cid.get(name)
            if f is not None and f.kind in ("fn", "method") and not f.generics:
                outs = None
                for cut in self.cuts:
                    try:
                        it, outs = analyse(self.N, f, cut, self.universe)
                        if not any(o.effects for o in outs):
                            break
                    except Abort as e:
                        if "out of time" in str(e):
                            del self.outs[name]
                            raise
                    except RecursionError:
                        pass
                if outs is not None and any(big_table(o.value) for o in outs):
                    # (it would be filled for every number of orientations)
                    outs = None
                if outs is not None and not any(o.effects for o in outs) and len(outs) <= 200:
                    ps = []
                    for i in range(f.body.argc):
                        ty = f.body.locals[1 + i]
                        ps.append(it.sym_value("a%d" % i, ty[2] if ty[0] == "ref" and ty[1] else ty))
                    self.params[name] = ps
                    for o in outs:
                        for t in terms_of(o):
                            vocab(t, self.vocab)
                    self.outs[name] = outs
        r = self.outs[name]
        return r if r is not None and len(self.params[name]) == nargs else None

    def bind(self, name, args):
        return {p: a for p, a in zip(self.params[str(name)], args) if p.op == "sym"}


# ------------------------------------------------------------------ functions
def analyse(N, fn, cut, universe, opts=None):
    it = Interp(N, cut, universe, opts or {})
    outs = it.analyse(fn)
    return it, outs


def numbers(b, it):
    """the parameters, if all of them are numbers or truth values"""
    ts = b.locals[1:b.argc + 1]
    if ts and all(t is not None and (t[0] == "bool" or t[0] == "int" and t[1] in T.INT_RANGES) for t in ts):
        return [it.sym_value("a%d" % i, t) for i, t in enumerate(ts)]
    return None


def compare_functions(NA, NB, fa, fb, cut, uni_a, uni_b, opts=None, limit=TIME_LIMIT, debug_panics=False, summ=None):
    """('equal' | 'diff' | 'unknown', detail, info)"""
    info = {"paths_source": 0, "paths_reference": 0, "pairs": 0}
    # no analysis takes longer than its share of the time
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit, 2.0)
    try:
        return _compare_functions(NA, NB, fa, fb, cut, uni_a, uni_b, opts, info, limit, debug_panics, summ)
    except Abort as e:
        return "unknown", [Diff("analysis", mk("str", str(e)), None)], info
    except MemoryError:
        return "unknown", [Diff("analysis", mk("str", "out of memory"), None)], info
    except RecursionError:
        return "unknown", [Diff("analysis", mk("str", "nesting"), None)], info
    except Exception as e:
        # (an alarm in the middle of something leads to any kind of error)
        signal.setitimer(signal.ITIMER_PROF, 0)
        traceback.print_exc()
        return "unknown", [Diff("analysis", mk("str", "internal error: %r" % (e,)), None)], info
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)


def strict(NA, NB, fa, fb, cut, uni_a, uni_b, summ, limit=20.0):
    """an interpretation in which the source's arithmetic does not fit its type (a panic with overflow checks) and
    the reference returns, or None; None as well where neither function's arithmetic can"""
    old = signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit, 2.0)
    try:
        _, oa = analyse(NA, fa, cut, uni_a, {"strict": True})
        if not any(o.kind == "panic" for o in oa) and not any(r.args[4] for r in loops_of(oa)):
            return None
        _, ob = analyse(NB, fb, cut, uni_b, {"strict": True})

        def uni(k):
            try:
                return uni_a(k)
            except Abort:
                return uni_b(k)
        v = set()
        for o in ob:
            for t in terms_of(o):
                vocab(t, v)
        x = evalt.joint(oa, ob, uni, v, min(6.0, limit / 2), None, summ, panics=True)
    except (Abort, MemoryError, RecursionError):
        return None
    except Exception:
        signal.setitimer(signal.ITIMER_PROF, 0)
        traceback.print_exc()
        return None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, old)
    if x is None:
        return None
    d = Diff("the outcome with overflow checks", *x[1:])
    d.definite, d.why = True, "interpreted as a whole"
    return d


def _alarm(*_):
    raise Abort("out of time")


def _compare_functions(NA, NB, fa, fb, cut, uni_a, uni_b, opts, info, limit, debug_panics, summ):
    t0 = time.process_time()
    try:
        ia, oa = analyse(NA, fa, cut, uni_a, opts)
        ib, ob = analyse(NB, fb, cut, uni_b, opts)
    except Abort as e:
        return "unknown", [Diff("analysis", mk("str", str(e)), None)], info
    except RecursionError:
        return "unknown", [Diff("analysis", mk("str", "nesting"), None)], info
    info["paths_source"], info["paths_reference"] = len(oa), len(ob)
    info["used"] = sorted(ia.used)
    info["cuts"] = sorted(set(ia.cuts))

    def uni(k):
        try:
            return uni_a(k)
        except Abort:
            return uni_b(k)
    ps = numbers(fb.body, ib)
    if ps:
        x = constant.differ(oa, ob, ps, min(20.0, limit / 2))
        if x is not None:
            d = Diff("the result for the arguments (%s)" % ", ".join(str(v) for v in x[0]), mk("str", x[1]), mk("str", x[2]), ())
            d.definite, d.why = True, "constant arguments"
            return "diff", [d], info
    c = Comparer(uni, limit=limit)
    c.debug_panics = debug_panics
    c.summ = summ
    try:
        ds = c.compare(oa, ob)
        c.confirm(ds)
        if c.loops_differ and not any(d.definite for d in ds):
            # the outcomes, not the iterations
            ds2 = c.compare(oa, ob, False)
            c.confirm(ds2)
            ds = ds + [d for d in ds2 if d.definite]
    except Timeout:
        ds = [Diff("comparison", mk("str", "too many paths"), None)]
    except Abort as e:
        ds = [Diff("comparison", mk("str", str(e)), None)]
    if ds and not any(d.definite for d in ds) and c.vocab_b is not None:
        why = []
        signal.setitimer(signal.ITIMER_PROF, JOINT_LIMIT + 2.0, 2.0)
        try:
            x = evalt.joint(oa, ob, uni, c.vocab_b, JOINT_LIMIT, None, c.summ, debug_panics=debug_panics, why=why)
        except Abort:
            x = None
        if x is not None:
            d = Diff(*x)
            d.definite, d.why = True, "interpreted as a whole"
            ds = ds + [d]
        elif why:
            ds[0].why = "%s; %s as a whole" % (ds[0].why, why[0])
    info["pairs"] = c.pairs
    info["seconds"] = round(time.process_time() - t0, 2)
    info["outs"] = (oa, ob)
    if not ds:
        return "equal", [], info
    defs = [d for d in ds if d.definite]
    if defs:
        return "diff", defs, info
    return "unknown", ds, info
