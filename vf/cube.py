"""A geometric cube, independent of the tables in the repository: pieces are sets of stickers in space, a move turns
layers about an axis. Used to judge the definition tables of the built-in puzzles."""
import re

DIR = {"U": (0, 1, 0), "D": (0, -1, 0), "R": (1, 0, 0), "L": (-1, 0, 0), "F": (0, 0, 1), "B": (0, 0, -1)}
FACE = {v: k for k, v in DIR.items()}
EDGES = "UF UR UB UL DF DR DB DL FR FL BR BL".split()
CORNERS = "UFR URB UBL ULF DRF DFL DLB DBR".split()
CENTERS = "U L F R B D".split()
CENTER_REF = {"U": "B", "D": "F", "F": "U", "B": "U", "L": "U", "R": "U"}


def neg(v):
    return tuple(-x for x in v)


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def turn(v, axis):
    """a quarter turn clockwise seen from the tip of the axis"""
    c = cross(axis, v)
    par = tuple(dot(v, axis) * x for x in axis)
    return tuple(p - q for p, q in zip(par, c))


def clockwise(name):
    """corner stickers clockwise, starting with the first letter"""
    a, b, c = (DIR[x] for x in name)
    return dot(cross(a, b), c) < 0


def slots(orbit):
    """for every place: its position in space and the directions of its facelets in order of orientation"""
    out = []
    if orbit == "EDGES":
        for n in EDGES:
            a, b = DIR[n[0]], DIR[n[1]]
            out.append((tuple(x + y for x, y in zip(a, b)), [a, b]))
    elif orbit == "CORNERS":
        for n in CORNERS:
            s = [DIR[x] for x in n]
            if not clockwise(n):
                s = [s[0], s[2], s[1]]
            out.append((tuple(map(sum, zip(*s))), s))
    else:
        for n in CENTERS:
            # the four directions in the plane of the centre, clockwise seen from outside
            d, r = DIR[n], DIR[CENTER_REF[n]]
            ds = [r]
            for _ in range(3):
                ds.append(turn(ds[-1], d))
            out.append((d, ds))
    return out


ORBITS = {"EDGES": (12, 2), "CORNERS": (8, 3), "CENTERS": (6, 4)}


def layers(spec):
    """(axis, which layers turn: a set of -1, 0, 1 along the axis)"""
    m = re.fullmatch(r"(2?)([ULFRBD])(w|v|)", spec)
    if m:
        d = DIR[m.group(2)]
        if m.group(1):
            return (d, {0}) if not m.group(3) else None
        return d, {"": {1}, "w": {0, 1}, "v": {-1, 0, 1}}[m.group(3)]
    if re.fullmatch(r"[ulfrbd]", spec):
        return DIR[spec.upper()], {0, 1}
    if spec in ("x", "y", "z"):
        return DIR[{"x": "R", "y": "U", "z": "F"}[spec]], {-1, 0, 1}
    if spec in ("M", "E", "S"):
        return DIR[{"M": "L", "E": "D", "S": "F"}[spec]], {0}
    return None


def effect(spec, orbits, size):
    """{orbit: (permutation, delta)} of one clockwise turn"""
    ax, ls = layers(spec)
    out = {}
    for o in orbits:
        sl = slots(o)
        n = ORBITS[o][1]
        perm, delta = list(range(len(sl))), [0] * len(sl)
        where = {p: i for i, (p, _) in enumerate(sl)}
        for j, (p, ds) in enumerate(sl):
            if dot(p, ax) not in ls:
                continue
            q = turn(p, ax)
            i = where[q]
            # facelet 0 of place j comes to rest at this facelet of place i
            k = sl[i][1].index(turn(ds[0], ax))
            for t in range(n):
                assert sl[i][1][(k + t) % n] == turn(ds[t], ax)
            perm[i], delta[i] = j, k
        out[o] = (perm, delta)
    return out


# ---- small evaluator for the derived moves
def compose(a, b, orbits):
    out = {}
    for o in orbits:
        n = ORBITS[o][1]
        (pa, da), (pb, db) = a[o], b[o]
        out[o] = ([pa[pb[i]] for i in range(len(pa))], [(da[pb[i]] + db[i]) % n for i in range(len(pa))])
    return out


def inverse(a, orbits):
    out = {}
    for o in orbits:
        n = ORBITS[o][1]
        p, d = a[o]
        q, e = [0] * len(p), [0] * len(p)
        for i in range(len(p)):
            q[p[i]] = i
            e[p[i]] = (-d[i]) % n
        out[o] = (q, e)
    return out


def ident(orbits):
    return {o: (list(range(ORBITS[o][0])), [0] * ORBITS[o][0]) for o in orbits}


class BadAlg(Exception):
    pass


class Evaluator:
    def __init__(self, moves, derived, orbits):
        self.moves, self.derived, self.orbits = moves, derived, orbits
        self.busy = set()

    def power(self, t, n):
        if n < 0:
            t, n = inverse(t, self.orbits), -n
        r = ident(self.orbits)
        for _ in range(n):
            r = compose(r, t, self.orbits)
        return r

    def move(self, q, amount):
        if q in self.moves:
            return self.power(self.moves[q], amount)
        if q in self.derived:
            if q in self.busy:
                raise BadAlg("recursive " + q)
            self.busy.add(q)
            t = self.alg(self.derived[q])
            self.busy.discard(q)
            return self.power(t, amount)
        raise BadAlg("unknown move " + q)

    def alg(self, s):
        self.s, p = s, 0
        t, p = self.seq(s, 0, "")
        if p != len(s):
            raise BadAlg(s)
        return t

    def seq(self, s, p, stop):
        r = ident(self.orbits)
        while p < len(s) and s[p] not in stop:
            if s[p] in " \n":
                p += 1
                continue
            t, p = self.node(s, p)
            r = compose(r, t, self.orbits)
        return r, p

    def amount(self, s, p):
        m = re.compile(r"(\d*)('?)").match(s, p)
        n = int(m.group(1) or 1)
        return (-n if m.group(2) else n), m.end()

    def node(self, s, p):
        if s[p] == "(":
            t, p = self.seq(s, p + 1, ")")
            if p >= len(s):
                raise BadAlg(s)
            n, p = self.amount(s, p + 1)
            return self.power(t, n), p
        if s[p] == "[":
            a, p = self.seq(s, p + 1, ",:")
            if p >= len(s):
                raise BadAlg(s)
            sep = s[p]
            b, p = self.seq(s, p + 1, "]")
            if p >= len(s):
                raise BadAlg(s)
            ia = inverse(a, self.orbits)
            t = compose(compose(a, b, self.orbits), ia, self.orbits)
            if sep == ",":
                t = compose(t, inverse(b, self.orbits), self.orbits)
            return t, p + 1
        m = re.compile(r"(\d*)([A-Za-z]+)").match(s, p)
        if not m:
            raise BadAlg(s)
        n, p = self.amount(s, m.end())
        return self.move(m.group(1) + m.group(2), n), p


def check_puzzle(d, size):
    """[(key, message)] for the definition d (parsed JSON) of a size x size x size cube"""
    bad = []
    want = {2: ["CORNERS"], 3: ["EDGES", "CORNERS", "CENTERS"]}[size]
    orbits = {o.get("orbitName"): (o.get("numPieces"), o.get("numOrientations")) for o in d.get("orbits", [])}
    if set(orbits) != set(want) or len(d["orbits"]) != len(want):
        return [("orbits", "orbits are %s" % sorted(map(str, orbits)))], 0
    for o in want:
        if orbits[o] != ORBITS[o]:
            bad.append(("orbit:" + o, "%s has (pieces, orientations) %s, expected %s" % (o, orbits[o], ORBITS[o])))
    if bad:
        return bad, 0
    n = 0
    dp = d.get("defaultPattern", {})
    for o in want:
        np_, no = ORBITS[o]
        q = dp.get(o, {})
        mods = q.get("orientationMod")
        allowed = [None, [0] * np_] if o != "CENTERS" else [[1] * np_]
        if no > 1 and o != "CENTERS":
            allowed.append([no] * np_)
        if q.get("pieces") != list(range(np_)) or q.get("orientation") != [0] * np_ or mods not in allowed:
            bad.append(("default:" + o, "the default pattern of %s is not the solved state" % o))
        n += 1
    mv = {}
    for name, t in d.get("moves", {}).items():
        ok = True
        for o in want:
            np_, no = ORBITS[o]
            q = t.get(o, {})
            p, e = q.get("permutation"), q.get("orientationDelta")
            n += 1
            if not isinstance(p, list) or sorted(map(str, p)) != sorted(map(str, range(np_))):
                bad.append(("bijection:%s:%s" % (name, o), "%s is not a bijection on %s" % (name, o)))
                ok = False
            elif not isinstance(e, list) or len(e) != np_ or any(not isinstance(x, int) or not 0 <= x < no for x in e):
                bad.append(("delta:%s:%s" % (name, o), "%s has orientation deltas out of range on %s" % (name, o)))
                ok = False
            elif o != "CENTERS" and sum(e) % no:
                bad.append(("parity:%s:%s" % (name, o), "the orientation deltas of %s on %s sum to %d" % (name, o, sum(e))))
        if ok:
            mv[name] = {o: (t[o]["permutation"], t[o]["orientationDelta"]) for o in want}
    ev = Evaluator(mv, d.get("derivedMoves") or {}, want)
    for name in list(d.get("moves", {})) + list(d.get("derivedMoves") or {}):
        m = re.fullmatch(r"(2?[A-Za-z]+)(\d*'?)", name)
        spec = layers(name)
        if spec is None:
            continue
        n += 1
        try:
            ev.busy = set()
            got = mv[name] if name in mv else ev.move(name, 1) if name in ev.derived else None
        except BadAlg as e:
            bad.append(("derived:" + name, "the derived move %s cannot be evaluated: %s" % (name, e)))
            continue
        if got is None:
            continue
        exp = effect(name, want, size)
        if size == 2:
            pass
        for o in want:
            if tuple(map(list, got[o])) != tuple(map(list, exp[o])):
                bad.append(("turn:%s:%s" % (name, o), "%s acts on %s as %s, the rotation of the cube gives %s" % (name, o, got[o], exp[o])))
    return bad, n
