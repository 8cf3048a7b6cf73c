"""Compares every function of the analysed source with the reference model."""
import collections
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

import build
import compare
import interp
import ir
import names
import shape
from ir import cfg


def make_universe(N):
    def universe(key):
        a = N.adt_by_ckey.get(key)
        if a is None:
            if key == interp.OPT:
                return ("None", "Some")
            raise interp.Abort("variants of %s" % key)
        return tuple(v[0] for v in a.variants)
    return universe


class Side:
    """one program with its units: a function together with its closures"""

    def __init__(self, d):
        self.P = ir.Program(d)
        self.N = names.Names(self.P)
        self.uni = make_universe(self.N)
        self.fp, self.callees = {}, {}
        self._br = {}
        self.unit_of = {}
        N = self.N
        for c, f in N.by_cid.items():
            h, calls = shape.fingerprint(N, f)
            self.fp[c] = h
            N.fp[c] = h
            self.callees[c] = {N.cid(self.P.fns[k]) for k in calls if k in self.P.fns}
        for c, f in N.by_cid.items():
            g = f
            while g.kind == "closure" and g.parent in self.P.fns:
                g = self.P.fns[g.parent]
            self.unit_of[c] = N.cid(g)
        self.members = {}
        for c, u in self.unit_of.items():
            self.members.setdefault(u, []).append(c)
        self.unit_fp = {}
        self.unit_calls = {}
        for u, ms in self.members.items():
            self.unit_fp[u] = tuple(sorted((m, self.fp[m]) for m in ms))
            cs = set()
            for m in ms:
                for k in self.callees[m]:
                    cs.add(self.unit_of[k])
            self.unit_calls[u] = cs
        self.callers = {}
        for u, cs in self.unit_calls.items():
            for c in cs:
                self.callers.setdefault(c, set()).add(u)

    def fn(self, c):
        return self.N.by_cid[c]

    def big(self, u):
        f = self.fn(u)
        if f.kind not in ("fn", "method"):
            return False
        b = f.body
        return bool(cfg(b).loops) or sum(1 for x in b.blocks if x) > 12 or self.recursive(u)

    def branching(self, u):
        f = self.fn(u)
        if f.kind not in ("fn", "method"):
            return False
        r = self._br.get(u)
        if r is None:
            self._br[u] = False
            b = f.body
            if b.locals[0][0] in ("ptr",):
                r = False   # the address a function computes is always looked into
            else:
                r = self.big(u) or any(self.branches(c) for c in self.closure([u]))
            self._br[u] = r
        return r

    def branches(self, u):
        f = self.fn(u)
        return f.kind in ("fn", "method", "closure") and any(x[1][0] in ("switch", "assert") for x in f.body.blocks if x)

    def checks(self, u):
        """how often each kind of overflow check is in the unit"""
        n = collections.Counter()
        for m in self.members.get(u, ()):
            b = self.fn(m).body
            if self.fn(m).kind not in ("fn", "method", "closure"):
                continue
            for st, t, _ in filter(None, b.blocks):
                for s in st:
                    if s[0] == "=" and s[2][0] == "bin" and s[2][1].endswith("WithOverflow"):
                        n[(s[2][1], str(s[2][2][1]) if s[2][2][0] == "const" else "", str(s[2][3][1]) if s[2][3][0] == "const" else "")] += 1
                if t[0] == "assert" and t[3][0] == "overflow_neg":
                    n["neg"] += 1
        return n

    def recursive(self, u):
        seen, st = set(), list(self.unit_calls.get(u, ()))
        while st:
            x = st.pop()
            if x == u:
                return True
            if x not in seen:
                seen.add(x)
                st.extend(self.unit_calls.get(x, ()))
        return False

    def closure(self, roots):
        seen, st = set(), [r for r in roots if r in self.unit_calls]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(self.unit_calls.get(x, ()))
        return seen

    def signature(self, u):
        f = self.fn(u)
        b = f.body
        return (tuple(self.N.ty(t) for t in b.locals[1:1 + b.argc]), self.N.ty(b.locals[0]), tuple(f.generics))


# functions that other code cannot name but whose behaviour users see directly
def is_root(f, c):
    if f.kind not in ("fn", "method"):
        return False
    if c.startswith("alg::main") or c.startswith("cubing_macros::parse_"):
        return True
    if f.trait is not None and "::" not in c.split(" as ")[0]:
        return f.reachable or True
    return bool(f.reachable)


class Equiv:
    def __init__(self, limit=400.0, plain=False):
        self.A = Side(build.dump(plain=plain))
        self.B = Side(build.dump_model(plain))
        self.plain_unknown = set()
        self.plain = plain
        self.debug_units = set()    # units with new code that only runs with debug assertions
        self.t0 = time.time()
        self.limit = limit
        A, B = self.A, self.B
        ua, ub = set(A.members), set(B.members)
        self.matched = {u for u in ua & ub if A.unit_fp[u] == B.unit_fp[u]}
        self.changed = {u for u in ua & ub if u not in self.matched}
        self.new = ua - ub
        self.lost = ub - ua
        self.status = {u: ("equal", "shape", []) for u in self.matched}
        self.log = []
        self.summ = compare.Summaries(B.N, B.uni, frozenset(u for u in B.members if B.branching(u)),
                                      frozenset(u for u in B.members if B.recursive(u)))
        # functions that may stay uninterpreted: the same on both sides
        self.cut = {u for u in self.matched if A.branching(u)}
        self.peers = {}
        self.open = set()      # private functions whose callers have to be looked at
        self.nanalysed = 0

    def time_left(self):
        return self.limit - (time.time() - self.t0)

    def cuts_for(self, u):
        # functions that call each other are compared under the assumption that the others agree
        peers = {c for c in self.peers.get(u, ()) if c in self.B.members and self.A.signature(c) == self.B.signature(c)}
        return frozenset(c for c in self.cut | peers if c != u and (c not in self.open or c in peers))

    def cycles(self):
        """groups of functions that call each other"""
        A = self.A
        reach = {u: A.closure(A.unit_calls.get(u, ())) for u in A.members}
        self.peers = {}
        for u in A.members:
            if u in reach[u]:
                self.peers[u] = frozenset(w for w in reach[u] if u in reach[w])

    def run(self, scope=None):
        """scope: the units that matter"""
        A, B = self.A, self.B
        todo = {u for u in self.changed if scope is None or u in scope}
        # callers of lost or changed functions that are themselves changed are in todo already
        order = self.order(todo)
        seen = set()
        rounds = {}
        self.cycles()
        while order:
            u = order.pop(0)
            if u in seen or rounds.get(u, 0) >= 3:
                continue
            seen.add(u)
            rounds[u] = rounds.get(u, 0) + 1
            v = self.one(u)
            self.status[u] = v
            if v[0] == "equal":
                if A.branching(u):
                    self.cut.add(u)
                continue
            f = A.fn(u)
            if f.kind in ("const", "static"):
                continue
            if is_root(f, u):
                continue
            if v[0] == "diff" and u in self.peers:
                # part of a recursion: the difference is there whenever the other parts agree
                self.cut.add(u)
                continue
            # private: its effect is judged where it is used
            cs = A.callers.get(u, set()) - {u}
            if v[0] == "diff" and cs and all(c in self.matched for c in cs):
                if self.invisible(u, cs):
                    self.status[u] = ("equal", "invisible to its callers", [])
                    if not A.branching(u):
                        continue
                self.cut.add(u)
                continue
            self.open.add(u)
            self.cut.discard(u)
            more = {c for c in (A.callers.get(u, set()) & set(B.members)) if c not in self.status or self.status[c][1] == "shape" or self.status[c][0] != "equal"}
            more = {c for c in more if c != u and c not in self.peers.get(u, ())}
            for c in more:
                seen.discard(c)
                if c not in order:
                    order.append(c)
                self.cut.discard(c)
            rest = self.order(set(order))
            order = rest
        self.settle()
        return self.verdicts(scope)

    def invisible(self, u, cs):
        """no caller of the private function can tell the difference"""
        A, B = self.A, self.B
        for c in sorted(cs):
            if c not in B.members or A.fn(c).kind not in ("fn", "method") or self.time_left() < 20:
                return False
            keep = frozenset(x for x in self.cuts_for(c) if x != u)
            v = compare.compare_functions(A.N, B.N, A.fn(c), B.fn(c), keep, A.uni, B.uni, limit=12.0, summ=self.summ)
            self.note(c, "caller of %s" % u, v)
            if v[0] != "equal":
                return False
        return True

    def order(self, us):
        """callees before callers"""
        A = self.A
        out, seen = [], set()

        def visit(u):
            if u in seen:
                return
            seen.add(u)
            for c in sorted(A.unit_calls.get(u, ())):
                visit(c)
            if u in us:
                out.append(u)
        sys.setrecursionlimit(20000)
        for u in sorted(us):
            visit(u)
        return out

    def settle(self):
        """a function that agrees only if another part of its recursion does is undecided when that part is not known to"""
        for u, ps in sorted(self.peers.items()):
            if self.status.get(u, ("x",))[0] == "equal" and any(self.status.get(p, ("x",))[0] == "unknown" for p in ps):
                self.status[u] = ("unknown", "depends on another part of the recursion", [])

    def one(self, u):
        A, B = self.A, self.B
        fa, fb = A.fn(u), B.fn(u)
        if fa.kind != fb.kind:
            return ("unknown", "kind", [])
        if fa.kind in ("const", "static"):
            return ("diff", "constant", []) if fa.kind == "const" else ("unknown", "static", [])
        if A.signature(u) != B.signature(u):
            return ("unknown", "signature", [])
        if self.time_left() < 5:
            return ("unknown", "time", [])
        self.nanalysed += 1
        best = None
        prev = None
        cut = self.cuts_for(u)
        for att, keep in ((1, cut), (2, frozenset(c for c in cut if A.big(c))), (3, frozenset(c for c in cut if A.recursive(c)))):
            if keep == prev:
                continue
            prev = keep
            if self.time_left() < 5:
                break
            lim = min((40.0 if att == 1 else 25.0) if best is None or best[0] != "diff" else 10.0, max(1.0, self.time_left()))
            v = compare.compare_functions(A.N, B.N, fa, fb, keep, A.uni, B.uni, limit=lim, debug_panics=bool(self.debug_units) and not self.debug_units.isdisjoint(A.closure([u])), summ=self.summ)
            self.note(u, att, v)
            if v[0] == "equal":
                d = self.overflow(u, keep)
                return ("diff", "value flow", [d]) if d is not None else ("equal", "value flow", [])
            if best is None or (best[0] != "diff" and v[0] == "diff"):
                best = v
        if best is not None and best[0] == "unknown":
            d = self.overflow(u, cut)
            if d is not None:
                best = ("diff", [d])
        return (best[0] if best else "unknown", "value flow", best[1] if best else [])

    def overflow(self, u, keep):
        """with overflow checks only: can the source's arithmetic leave its type where the reference's does not?"""
        A, B = self.A, self.B
        if self.plain or not self.arithmetic(u) or self.time_left() < 15:
            return None
        d = compare.strict(A.N, B.N, A.fn(u), B.fn(u), keep, A.uni, B.uni, self.summ, min(20.0, self.time_left()))
        if d is not None:
            self.note(u, "overflow", ("diff", [d], {}))
        return d

    def arithmetic(self, u):
        """the source has overflow checks that the reference does not have, here or in what is not compared on its own"""
        return bool(self.A.checks(u) - self.B.checks(u)) or any(self.A.checks(x) for x in self.new if x in self.A.closure([u]))

    def affected(self, scope):
        """the scope with everything that calls it"""
        A = self.A
        seen, st = set(), list(scope)
        while st:
            x = st.pop()
            if x not in seen:
                seen.add(x)
                st.extend(A.callers.get(x, ()))
        return seen

    def note(self, u, att, v):
        info = {k: x for k, x in v[2].items() if k not in ("outs", "used", "cuts")}
        self.log.append((u, att, v[0], info, [d.text() for d in v[1][:3]], [d.why for d in v[1][:3]]))

    def verdicts(self, scope=None):
        """[(unit, differences)] for what is definitely different"""
        A, B = self.A, self.B
        out = []
        for u in sorted(self.status):
            v = self.status[u]
            if v[0] != "diff" or (scope is not None and u not in scope):
                continue
            f = A.fn(u)
            if f.kind in ("const", "static"):
                continue
            if is_root(f, u):
                out.append((u, v[2]))
                continue
            if u in self.peers:
                out.append((u, v[2]))
                continue
            # a private function: what do its callers say?
            cs = A.callers.get(u, set()) - {u}
            plain = [c for c in cs if c in self.matched and self.status.get(c, ("equal", "shape"))[1] == "shape"]
            st = [self.status.get(c, ("unknown",))[0] for c in cs if c not in plain]
            if not cs:
                continue
            # unchanged callers cannot make up for it
            if any(s == "diff" for s in st) or len(plain) == len(cs):
                out.append((u, v[2]))
        return out


def verify(E, scope=None):
    """The differences with debug assertions and without. A debug assertion that was added is not judged: whether it can fire is
    not known, and the build without debug assertions does not have it."""
    t = E.limit
    F = Equiv(limit=t, plain=True)
    special = {u for u in F.changed | F.new if E.A.unit_fp.get(u) != F.A.unit_fp.get(u) or E.B.unit_fp.get(u) != F.B.unit_fp.get(u)}
    out = []
    if special:
        F.limit = t / 2
        E.debug_units = special
        for u, ds in F.run(scope):
            out.append((u, ds))
        E.limit = (time.time() - E.t0) + t / 2
        have = {u for u, _ in out}
        for u in sorted(F.status):
            if F.status[u][0] == "unknown":
                E.plain_unknown.add(u)
    else:
        have = set()
    for u, ds in E.run(scope):
        if u not in have:
            out.append((u, ds))
    E.nanalysed += F.nanalysed
    E.log = F.log + E.log
    return out
