"""Structural fingerprints of bodies: equal fingerprints mean the same code, up to names of private items,
numbering, positions in the file and the text of panic messages."""
import hashlib


def op_s(N, fn, o, calls):
    if o[0] == "place":
        return ("m" if o[2] else "c") + place_s(N, o[1])
    if o[0] == "const":
        return const_s(N, fn, o[1], calls)
    return repr(o)


def place_s(N, p):
    out = ["_%d" % p[0]]
    for e in p[1]:
        if e[0] == "f":
            out.append(".%d" % e[1])
        else:
            out.append(repr(e))
    return "".join(out)


def const_s(N, fn, c, calls):
    if "promoted" in c:
        b = fn.promoted[c["promoted"]]
        return "promoted(%s)" % body_s(N, fn, b, calls)
    t = c["ty"]
    if t[0] == "fndef":
        r = t[1]
        key = r.res[1] if r.res else r.key
        if key in N.P.fns:
            calls.add(key)
        return "fn(%s)" % N.fnref(r)
    if t[0] == "closure" and t[1] in N.P.fns:
        calls.add(t[1])
    for k in ("int", "bool", "char", "str", "bytes"):
        if k in c:
            return "%s:%r:%s" % (k, c[k], N.ty(t))
    if "static" in c:
        f = N.P.fns.get(c["static"])
        if f is not None:
            calls.add(f.key)
            return "static(%s)" % N.cid(f)
        return "static(%s)" % c["static"]
    if "ref" in c:
        return "&" + const_s(N, fn, c["ref"], calls)
    if "agg" in c:
        return "%s/%s{%s}" % (N.ty(t), c.get("variant"), ",".join(const_s(N, fn, x, calls) for x in c["agg"]))
    if "zst" in c:
        return "zst:" + N.ty(t)
    return "opaque:%s:%s" % (N.ty(t), c.get("opaque"))


def rv_s(N, fn, r, calls):
    k = r[0]
    if k == "use":
        return op_s(N, fn, r[1], calls)
    if k in ("ref", "rawptr"):
        return "&%s %s" % (r[1], place_s(N, r[2]))
    if k == "cast":
        return "cast %s %s %s" % (r[1], op_s(N, fn, r[2], calls), N.ty(r[3]))
    if k == "bin":
        return "%s(%s,%s)" % (r[1], op_s(N, fn, r[2], calls), op_s(N, fn, r[3], calls))
    if k == "un":
        return "%s(%s)" % (r[1], op_s(N, fn, r[2], calls))
    if k == "discr":
        return "discr " + place_s(N, r[1])
    if k == "repeat":
        return "[%s;%s]" % (op_s(N, fn, r[1], calls), r[2])
    if k == "agg":
        info = r[2]
        if r[1] == "adt":
            a = N.P.adts.get(info[0][1])
            v = a.variants[info[1]][0] if a and info[1] < len(a.variants) else info[1]
            s = "%s/%s" % (N.ty(info[0]), v)
        elif r[1] == "closure":
            f = N.P.fns.get(info)
            if f is not None:
                calls.add(info)
            s = "closure " + (N.cid(f) if f else str(info))
        elif r[1] == "array":
            s = "array " + N.ty(info)
        else:
            s = r[1]
        return "%s{%s}" % (s, ",".join(op_s(N, fn, o, calls) for o in r[3]))
    return repr(r)


PANICS = ("assert_failed", "panic_fmt", "core::panicking::panic", "panic_const")


def is_panic_call(t):
    return t[0] == "call" and t[4] < 0


def body_s(N, fn, b, calls):
    # blocks that only prepare a panic are folded into one marker
    doomed = doomed_blocks(b)
    out = ["argc%d" % b.argc]
    used = set()
    order, seen, st = [], {0}, [0]
    from ir import succs
    while st:
        i = st.pop()
        order.append(i)
        if i in doomed:
            continue
        for s in succs(b.blocks[i][1]):
            if s not in seen and b.blocks[s] is not None:
                seen.add(s)
                st.append(s)
    num = {x: i for i, x in enumerate(order)}
    for i in order:
        if i in doomed:
            out.append("B%d: PANIC" % num[i])
            continue
        stm, t, _ = b.blocks[i]
        o = ["B%d:" % num[i]]
        for s in stm:
            if s[0] == "=":
                o.append("%s=%s" % (place_s(N, s[1]), rv_s(N, fn, s[2], calls)))
            else:
                o.append(repr(s))
        k = t[0]
        if k == "goto":
            o.append("goto %d" % num[t[1]])
        elif k == "switch":
            o.append("switch %s %s %s" % (op_s(N, fn, t[1], calls), [(v, num[x]) for v, x in t[2]], num.get(t[3])))
        elif k == "drop":
            o.append("drop %s %d" % (place_s(N, t[1]), num[t[2]]))
        elif k == "call":
            o.append("call %s=%s(%s) %s" % (place_s(N, t[3]), op_s(N, fn, t[1], calls), ",".join(op_s(N, fn, a, calls) for a in t[2]), num.get(t[4], -1)))
        elif k == "assert":
            m = t[3]
            o.append("assert %s %s %s %d" % (op_s(N, fn, t[1], calls), t[2], m[0], num[t[4]]))
        else:
            o.append(k)
        out.append(";".join(o))
    # types of locals matter for casts and drops
    out.append("L:" + "|".join(N.ty(t) for t in b.locals))
    return "\n".join(out)


def doomed_blocks(b):
    """blocks from which every path ends in a panic"""
    from ir import succs
    doom = set()
    ch = True
    while ch:
        ch = False
        for i, bl in enumerate(b.blocks):
            if bl is None or i in doom:
                continue
            t = bl[1]
            if t[0] == "call" and t[4] < 0 and not (t[1][0] == "const" and t[1][1]["ty"][0] == "fndef" and "exit" in t[1][1]["ty"][1].path):
                doom.add(i)
                ch = True
            elif t[0] in ("goto", "call", "drop", "assert"):
                if t[0] == "call":
                    # only message formatting may precede a panic
                    r = t[1][1]["ty"][1] if t[1][0] == "const" and t[1][1]["ty"][0] == "fndef" else None
                    if r is None or not ("fmt" in r.path or "panic" in r.path):
                        continue
                if t[0] in ("assert",):
                    continue
                ss = succs(t)
                if ss and all(s in doom for s in ss):
                    doom.add(i)
                    ch = True
    return doom


def fingerprint(N, fn):
    """(hash, set of local callee keys)"""
    calls = set()
    s = "%s %s %s\n" % (fn.kind, fn.generics, fn.unsafe) + body_s(N, fn, fn.body, calls)
    return hashlib.sha256(s.encode()).hexdigest(), calls
