"""What functions outside of the workspace mean to the value-flow analysis."""
import terms as T
import interp as E
from interp import (Abort, Diverge, Exit, Dead, Continue, some, NONE, ok, err, OK_UNIT, OPT, RES, CF, strip_refs, skey, Ty, Call)
from names import crate_of, LOCAL
from terms import (mk, I, B, Str, TRUE, FALSE, UNIT, adt, tup, fld, app, add, sub, mul, scale, const_of, lst, cat, eq, le, lt, le0, eq0, neg,
                   conj, disj, fields_of)

MODELS = {}
USIZE = Ty(("int", "usize"))
U8 = Ty(("int", "u8"))
CHAR = Ty(("char",))
STR = Ty(("str",))
NOMKEY = "nom::internal::Err"
NOMERR = adt(NOMKEY, "Error", [("0", mk("app", "nomerror"))])


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def vals(ip, c):
    return [ip.deref(a) for a in c.args]


# ------------------------------------------------------------------------------------------ tokens
def tokens(*segs):
    return adt("tokens", "", [("0", lst(*segs))])


def token(kind, name, *vs):
    return adt("tok:" + kind, name, [(str(i), v) for i, v in enumerate(vs)])


def tokens_of(v):
    return fields_of(v)["0"] if v.op == "adt" and v.args[0] == "tokens" else fld(v, "", "0", 1)


def push_tokens(ip, ref, *segs):
    ip.write_ref(ref, tokens(("s", tokens_of(ip.deref(ref))), *segs))
    return UNIT


def quote_model(ip, c):
    n = c.name
    if n.startswith("quote::__private::push_"):
        n = n[len("quote::__private::push_"):]
        a = [ip.deref(x) for x in c.args[1:]]
        if n.endswith("_spanned"):
            n, a = n[:-8], a[1:]
        if n == "group":
            return push_tokens(ip, c.args[0], ("e", token("group", "", a[0], tokens_of(a[1]))))
        return push_tokens(ip, c.args[0], ("e", token("lifetime" if n == "lifetime" else "ident" if n == "ident" else "punct", "" if a else n, *a)))
    if n == "ToTokens::to_tokens" and len(c.args) == 2:
        x = ip.deref(c.args[0])
        ty = strip_refs(c.tys[0]) if c.tys else None
        t = ip.N.ty(ty) if ty is not None else "?"
        if t == "TokenStream":
            return push_tokens(ip, c.args[1], ("s", tokens_of(x)))
        return push_tokens(ip, c.args[1], ("e", token("lit", "str" if t in ("str", "String") else t, x)))
    if n == "TokenStream::new":
        return tokens()
    return None


def default(ip, c):
    if c.name.startswith(("quote::", "ToTokens::", "TokenStream::")):
        r = quote_model(ip, c)
        if r is not None:
            return r
    gen = [ip.N.ty(a) for a in c.rargs if a[0] not in ("closure", "fndef")]
    gen = [g for g in gen if g not in ("Global", "RandomState", "const", "?")]
    return ip.opaque("app", c.name + ("<%s>" % ", ".join(gen) if gen else ""), c.args, c.tys, c.dty)


def drop(ip, fr, t):
    pass


# ------------------------------------------------------------------------------------------ options
def is_v(ip, v, key, name):
    if v.op == "adt":
        return v.args[1] == name
    return ip.branch(ip.is_(v, key, name))


def payload(ip, v, key, name, ty=None):
    if v.op == "adt":
        return v.args[2][0][1]
    return fld(v, name, "0", 1, strip_refs(ty))


def opt_ty(ty):
    ty = strip_refs(ty)
    if ty is not None and ty[0] == "adt" and ty[2]:
        return ty[2][0]
    return None


def res_ty(ty, i):
    ty = strip_refs(ty)
    if ty is not None and ty[0] == "adt" and len(ty[2]) > i:
        return ty[2][i]
    return None


def is_some(ip, v):
    return is_v(ip, v, OPT, "Some")


def is_ok(ip, v):
    return is_v(ip, v, RES, "Ok")


@model("Option::is_some")
def _(ip, c):
    v = ip.deref(c.args[0])
    return ip.is_(v, OPT, "Some")


@model("Option::is_none")
def _(ip, c):
    return neg(ip.is_(ip.deref(c.args[0]), OPT, "Some")) if ip.deref(c.args[0]).op != "adt" else B(ip.deref(c.args[0]).args[1] == "None")


@model("Result::is_ok")
def _(ip, c):
    return ip.is_(ip.deref(c.args[0]), RES, "Ok")


@model("Result::is_err")
def _(ip, c):
    v = ip.deref(c.args[0])
    return B(v.args[1] == "Err") if v.op == "adt" else neg(ip.is_(v, RES, "Ok"))


@model("Option::as_ref", "Result::as_ref", "Option::as_deref", "Option::cloned", "Option::copied", "Result::cloned", "Option::as_deref_mut", "Option::iter")
def _(ip, c):
    if c.name.endswith("::iter"):
        return None
    return ip.deref(c.args[0])


@model("Option::as_mut")
def _(ip, c):
    r = c.args[0]
    v = ip.deref(r)
    if not is_some(ip, v):
        return NONE
    if r.op != "ref":
        return some(payload(ip, v, OPT, "Some", opt_ty(c.tys[0])))
    s = ("f", "Some", "0", 1, opt_ty(c.tys[0]), OPT, ("0",))
    return some(mk("ref", r.args[0], r.args[1] + (s,)))


@model("Option::unwrap", "Option::expect", "Option::unwrap_unchecked")
def _(ip, c):
    v = ip.deref(c.args[0]) if c.args[0].op == "ref" else c.args[0]
    if is_some(ip, v):
        return payload(ip, v, OPT, "Some", c.dty)
    raise Diverge()


@model("Result::unwrap", "Result::expect")
def _(ip, c):
    v = c.args[0]
    if is_ok(ip, v):
        return payload(ip, v, RES, "Ok", c.dty)
    raise Diverge()


@model("Result::unwrap_err", "Result::expect_err")
def _(ip, c):
    v = c.args[0]
    if is_ok(ip, v):
        raise Diverge()
    return payload(ip, v, RES, "Err", c.dty)


@model("Option::unwrap_or", "Result::unwrap_or")
def _(ip, c):
    v = c.args[0]
    k, n = (OPT, "Some") if c.name.startswith("Option") else (RES, "Ok")
    return payload(ip, v, k, n, c.dty) if is_v(ip, v, k, n) else c.args[1]


@model("Option::unwrap_or_else", "Result::unwrap_or_else")
def _(ip, c):
    v = c.args[0]
    if c.name.startswith("Option"):
        return payload(ip, v, OPT, "Some", c.dty) if is_some(ip, v) else ip.call_value(c.args[1], [], [], c.dty)
    return payload(ip, v, RES, "Ok", c.dty) if is_ok(ip, v) else ip.call_value(c.args[1], [payload(ip, v, RES, "Err")], [None], c.dty)


@model("Option::unwrap_or_default", "Result::unwrap_or_default")
def _(ip, c):
    v = c.args[0]
    k, n = (OPT, "Some") if c.name.startswith("Option") else (RES, "Ok")
    return payload(ip, v, k, n, c.dty) if is_v(ip, v, k, n) else default_value(ip, c.dty)


@model("Option::map", "Option::and_then", "Option::filter", "Option::map_or", "Option::map_or_else", "Option::is_some_and", "Option::is_none_or")
def _(ip, c):
    v = c.args[0]
    m = c.name.split("::")[1]
    s = is_some(ip, v)
    pt = opt_ty(c.tys[0])
    if m in ("map", "and_then", "filter", "is_some_and", "is_none_or"):
        if not s:
            return B(m == "is_none_or") if m.startswith("is_") else NONE
        p = payload(ip, v, OPT, "Some", pt)
        r = ip.call_value(c.args[1], [p], [pt], opt_ty(c.dty) if m == "map" else c.dty)
        if m == "map":
            return some(r)
        if m == "filter":
            return some(p) if ip.branch(r) else NONE
        return r
    f = c.args[2]
    if s:
        return ip.call_value(f, [payload(ip, v, OPT, "Some", pt)], [pt], c.dty)
    return c.args[1] if m == "map_or" else ip.call_value(c.args[1], [], [], c.dty)


@model("Option::or", "Option::or_else", "Option::and", "Option::xor")
def _(ip, c):
    m = c.name.split("::")[1]
    s = is_some(ip, c.args[0])
    if m == "or":
        return c.args[0] if s else c.args[1]
    if m == "or_else":
        return c.args[0] if s else ip.call_value(c.args[1], [], [], c.dty)
    if m == "and":
        return c.args[1] if s else NONE
    return None


@model("Option::ok_or", "Option::ok_or_else")
def _(ip, c):
    if is_some(ip, c.args[0]):
        return ok(payload(ip, c.args[0], OPT, "Some", opt_ty(c.tys[0])))
    return err(c.args[1] if c.name.endswith("ok_or") else ip.call_value(c.args[1], [], [], None))


@model("Option::take")
def _(ip, c):
    v = ip.deref(c.args[0])
    ip.write_ref(c.args[0], NONE)
    return v


@model("Option::replace", "std::mem::replace", "core::mem::replace")
def _(ip, c):
    v = ip.deref1(c.args[0])
    ip.write_ref(c.args[0], some(c.args[1]) if c.name == "Option::replace" else c.args[1])
    return v


@model("std::mem::swap", "core::mem::swap", "std::ptr::swap", "core::ptr::swap")
def _(ip, c):
    a, b = ip.deref1(c.args[0]), ip.deref1(c.args[1])
    ip.write_ref(c.args[0], b)
    ip.write_ref(c.args[1], a)
    return UNIT


@model("std::mem::take", "core::mem::take")
def _(ip, c):
    v = ip.deref1(c.args[0])
    ip.write_ref(c.args[0], default_value(ip, c.dty))
    return v


@model("Result::ok", "Result::err")
def _(ip, c):
    o = is_ok(ip, c.args[0])
    if c.name == "Result::ok":
        return some(payload(ip, c.args[0], RES, "Ok", opt_ty(c.dty))) if o else NONE
    return NONE if o else some(payload(ip, c.args[0], RES, "Err", opt_ty(c.dty)))


@model("Result::map", "Result::and_then", "Result::map_err", "Result::or_else", "Result::map_or")
def _(ip, c):
    m = c.name.split("::")[1]
    v = c.args[0]
    o = is_ok(ip, v)
    t, e = res_ty(c.tys[0], 0), res_ty(c.tys[0], 1)
    if m in ("map", "and_then"):
        if not o:
            return err(err_payload(ip, v, e))
        r = ip.call_value(c.args[1], [payload(ip, v, RES, "Ok", t)], [t], res_ty(c.dty, 0) if m == "map" else c.dty)
        return ok(r) if m == "map" else r
    if m == "map_or":
        return ip.call_value(c.args[2], [payload(ip, v, RES, "Ok", t)], [t], c.dty) if o else c.args[1]
    if o:
        return ok(payload(ip, v, RES, "Ok", t))
    r = ip.call_value(c.args[1], [err_payload(ip, v, e)], [e], res_ty(c.dty, 1) if m == "map_err" else c.dty)
    return err(r) if m == "map_err" else r


def err_payload(ip, v, ty):
    if is_nom_err(ty):
        return NOMERR
    return payload(ip, v, RES, "Err", ty)


def is_nom_err(ty):
    ty = strip_refs(ty)
    return ty is not None and ty[0] == "adt" and ty[1] == NOMKEY


@model("Try::branch")
def _(ip, c):
    v = c.args[0]
    t = strip_refs(c.tys[0])
    if t is not None and t[0] == "adt" and t[1] == OPT:
        if is_some(ip, v):
            return adt(CF, "Continue", [("0", payload(ip, v, OPT, "Some", opt_ty(t)))])
        return adt(CF, "Break", [("0", NONE)])
    if is_ok(ip, v):
        return adt(CF, "Continue", [("0", payload(ip, v, RES, "Ok", res_ty(t, 0)))])
    return adt(CF, "Break", [("0", err(err_payload(ip, v, res_ty(t, 1))))])


@model("FromResidual::from_residual")
def _(ip, c):
    v = c.args[0]
    dst, src = strip_refs(c.rargs[0]), strip_refs(c.rargs[1]) if len(c.rargs) > 1 else None
    if dst[1] == OPT:
        return NONE
    if v.op != "adt":
        e = fld(v, "Err", "0", 1)
    else:
        e = v.args[2][0][1] if v.args[2] else UNIT
    if src is not None and dst[1] == RES and src[1] == RES:
        e = convert(ip, src[2][1], dst[2][1], e)
    return err(e)


@model("Try::from_output")
def _(ip, c):
    t = strip_refs(c.dty)
    return some(c.args[0]) if t[1] == OPT else ok(c.args[0])


# ------------------------------------------------------------------------------------------ conversions
STRINGS = ("alloc::string::String",)


def is_string(t):
    return t is not None and (t[0] == "str" or (t[0] == "adt" and t[1] in STRINGS))


def convert(ip, src, dst, x, env=None):
    """From/Into"""
    if dst == src:
        return x
    s, d = strip_refs(src), strip_refs(dst)
    # an impl in the workspace
    f = find_from(ip, src, dst)
    if f is not None:
        return ip.call_local(f, [x], {}, None, dst)
    if s == d:
        return x
    if is_string(s) and is_string(d):
        return x
    if d is not None and d[0] == "int":
        if s[0] in ("int", "char"):
            return x
        if s[0] == "bool":
            return I(1 if ip.branch(x) else 0)
    if d is not None and d[0] == "char":
        return x
    if d is not None and d[0] == "adt" and d[1] == OPT and not (s[0] == "adt" and s[1] == OPT):
        return some(x)
    if s is not None and s[0] == "param":
        dn = ip.N.ty(d)
        if dn in ("KPuzzle", "String", "KPuzzleDefinition"):
            return x
    return mk("app", "into:" + ip.N.ty(d), x, ty=d)


def find_from(ip, src, dst):
    for trait in ("std::convert::From", "core::convert::From"):
        for f in ip.P.methods.get((trait, "from"), []):
            if f.selfty == dst or (f.selfty is not None and dst[0] == "adt" and f.selfty[0] == "adt" and f.selfty[1] == dst[1]):
                if len(f.trait_args) > 1 and f.trait_args[1] == src:
                    return f
    for trait in ("std::convert::Into",):
        for f in ip.P.methods.get((trait, "into"), []):
            if f.selfty == src and len(f.trait_args) > 1 and f.trait_args[1] == dst:
                return f
    return None


@model("Into::into")
def _(ip, c):
    if len(c.rargs) < 2:
        return None
    return convert(ip, c.rargs[0], c.rargs[1], c.args[0])


@model("From::from")
def _(ip, c):
    if len(c.rargs) < 2:
        return None
    return convert(ip, c.rargs[1], c.rargs[0], c.args[0])


@model("TryInto::try_into", "TryFrom::try_from")
def _(ip, c):
    s, d = (c.rargs[0], c.rargs[1]) if c.name.startswith("TryInto") else (c.rargs[1], c.rargs[0])
    for f in ip.P.methods.get(("std::convert::TryFrom", "try_from"), []):
        if f.selfty == d and f.trait_args[1] == s:
            return ip.call_local(f, [c.args[0]], {}, None, c.dty)
    if d[0] == "int" and s[0] in ("int", "char"):
        lo, hi = T.INT_RANGES[d[1]]
        if ip.branch(le(I(lo), c.args[0])) and ip.branch(le(c.args[0], I(hi))):
            return ok(c.args[0])
        return err(mk("app", "TryFromIntError"))
    if find_from(ip, s, d) is not None:
        return ok(convert(ip, s, d, c.args[0]))
    return None


@model("str::parse")
def _(ip, c):
    return from_str(ip, c.rargs[0], c.args[0], c.dty)


@model("FromStr::from_str")
def _(ip, c):
    return from_str(ip, c.rargs[0], c.args[0], c.dty)


def from_str(ip, t, s, dty):
    for f in ip.P.methods.get(("std::str::FromStr", "from_str"), []):
        if f.selfty is not None and f.selfty[0] == "adt" and t[0] == "adt" and f.selfty[1] == t[1]:
            return ip.call_local(f, [s], {}, None, dty)
    return mk("app", "parse<%s>" % ip.N.ty(t), ip.deref(s), ty=strip_refs(dty))


def identity(ip, c):
    return c.args[0]


for _n in ("Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "ToOwned::to_owned", "Arc::new", "Box::new", "Rc::new", "Box::pin",
           "std::hint::must_use", "core::hint::must_use", "String::as_str", "Vec::as_slice", "Arc::as_ref", "Box::as_ref", "slice::to_vec",
           "slice::into_vec", "String::into_boxed_str", "Vec::into_boxed_slice", "std::convert::identity", "core::convert::identity", "str::to_owned",
           "AsMut::as_mut", "Vec::as_mut_slice", "String::from_str_identity", "std::hint::black_box", "str::to_string", "str::into_string", "Arc::clone", "Rc::clone",
           "String::into_string", "ptr::cast", "Path::new", "str::as_str", "String::as_mut_str", "Arguments::to_string_id"):
    MODELS[_n] = identity


@model("std::mem::drop", "core::mem::drop")
def _(ip, c):
    return UNIT


# ------------------------------------------------------------------------------------------ clone, eq, default
def has_raw(ip, t, seen=None):
    """does the type own raw memory?"""
    if t is None:
        return False
    seen = seen or set()
    if t in seen:
        return False
    seen = seen | {t}
    k = t[0]
    if k == "ptr":
        return True
    if k == "adt":
        if any(has_raw(ip, a, seen) for a in t[2]):
            return True
        if crate_of(t[1]) in LOCAL:
            a = ip.P.adts.get(t[1])
            if a is not None:
                return any(f[1] is not None and has_raw(ip, f[1], seen) for v in a.variants for f in v[2])
        return False
    if k in ("ref",):
        return has_raw(ip, t[2], seen)
    if k == "tuple":
        return any(has_raw(ip, a, seen) for a in t[1])
    if k in ("slice", "array"):
        return has_raw(ip, t[1], seen)
    return False


@model("Clone::clone")
def _(ip, c):
    return ip.deref(c.args[0])


@model("Clone::clone_from")
def _(ip, c):
    ip.write_ref(c.args[0], ip.deref(c.args[1]))
    return UNIT


def str_eq(ip, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "str" and x.args[0] == "" and y.op != "str":
            return is_empty_str(y)
    return T.eq(a, b)


def is_empty_str(s):
    if s.op == "str":
        return B(s.args[0] == "")
    if s.op == "cat":
        return conj([is_empty_str(x) for x in s.args])
    if s.op == "app" and s.args[0] in ("dec", "chr"):
        return FALSE
    return mk("hin", s, T.EOF_SET)


def values_eq(ip, t, a, b):
    a, b = ip.observe(ip.deref(a)), ip.observe(ip.deref(b))
    if is_string(strip_refs(t)) or a.op == "str" or b.op == "str":
        return str_eq(ip, a, b)
    return T.eq(a, b)


def local_impl(ip, trait, method, t, arg=None):
    t = strip_refs(t)
    if t is None or t[0] != "adt":
        return None
    for f in ip.P.methods.get((trait, method), []):
        if f.selfty is not None and f.selfty[0] == "adt" and f.selfty[1] == t[1]:
            if arg is None or len(f.trait_args) < 2 or strip_refs(f.trait_args[1]) == strip_refs(arg):
                return f
    return None


@model("PartialEq::eq", "PartialEq::ne")
def _(ip, c):
    f = local_impl(ip, "std::cmp::PartialEq", "eq", c.rargs[0], c.rargs[1] if len(c.rargs) > 1 else None)
    if f is not None and (not f.derived or has_raw(ip, strip_refs(c.rargs[0]))):
        r = ip.call_local(f, [ip.deref(a) for a in c.args], {}, c.tys, c.dty)
    else:
        r = values_eq(ip, c.rargs[0], c.args[0], c.args[1])
    return r if c.name.endswith("eq") else neg(r)


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "char"):
        return None
    a, b = vals(ip, c)
    m = c.name.split("::")[1]
    return {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[m]


ORD = "core::cmp::Ordering"


def cmp_value(ip, a, b):
    if ip.branch(lt(a, b)):
        return adt(ORD, "Less", [])
    if ip.branch(eq0(sub(a, b))):
        return adt(ORD, "Equal", [])
    return adt(ORD, "Greater", [])


@model("Ord::cmp")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "char"):
        return None
    return cmp_value(ip, *vals(ip, c))


@model("Ord::max", "Ord::min", "std::cmp::max", "std::cmp::min", "core::cmp::max", "core::cmp::min")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "char"):
        return None
    a, b = vals(ip, c)
    x = ip.branch(le(a, b))
    return (b if x else a) if c.name.endswith("max") else (a if x else b)


@model("Ord::clamp")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "char"):
        return None
    a, lo, hi = vals(ip, c)
    if not ip.branch(le(lo, hi)):
        raise Diverge()
    if ip.branch(lt(a, lo)):
        return lo
    return hi if ip.branch(lt(hi, a)) else a


def default_value(ip, t):
    t = strip_refs(t)
    if t[0] == "int":
        return I(0)
    if t[0] == "bool":
        return FALSE
    if is_string(t):
        return Str("")
    if t[0] == "tuple":
        return tup(*[default_value(ip, a) for a in t[1]])
    if t[0] == "adt":
        n = t[1].split("::")[-1]
        if t[1] == OPT:
            return NONE
        if t[1].startswith("alloc::vec"):
            return lst()
        if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
            return empty_map()
        f = local_impl(ip, "std::default::Default", "default", t)
        if f is not None:
            return ip.call_local(f, [], {}, [], t)
    return mk("app", "default:" + ip.N.ty(t), ty=t)


@model("Default::default")
def _(ip, c):
    return default_value(ip, c.rargs[0])


# ------------------------------------------------------------------------------------------ text
def buf_append(ip, r, s):
    v = ip.deref(r)
    if v.op == "adt" and v.args[0] == "Formatter":
        ip.write_ref(r, mk("adt", "Formatter", "", (("buf", cat(fields_of(v)["buf"], s)),)))
        return True
    return False


def decode_template(ip, b, args):
    b = bytes(b)
    out, i, n = [], 0, 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(Str(b[i + 1:i + 1 + x].decode("utf-8", "replace")))
            i += 1 + x
        elif x == 0x80:
            ln = b[i + 1] | b[i + 2] << 8
            out.append(Str(b[i + 3:i + 3 + ln].decode("utf-8", "replace")))
            i += 3 + ln
        elif x == 0xC0:
            out.append(("arg", n))
            n += 1
            i += 1
        else:
            # options: 1 = flags (4 bytes), 2 = width (2), 4 = precision (2), 8 = argument index (2)
            o = x & 0x3F
            spec = []
            j = i + 1
            for bit, ln in ((1, 4), (2, 2), (4, 2), (8, 2)):
                if o & bit:
                    spec.append((bit, b[j:j + ln]))
                    j += ln
            idx = n
            for bit, v in spec:
                if bit == 8:
                    idx = v[0] | v[1] << 8
            rest = tuple((bit, v.hex()) for bit, v in spec if bit != 8)
            out.append(("argspec", idx, repr((o & 0x37, rest))) if rest else ("arg", idx))
            n = idx + 1
            i = j
    return out


@model("Arguments::new")
def _(ip, c):
    t, a = ip.deref(c.args[0]), ip.deref(c.args[1])
    if t.op == "list":
        b = bytes(const_of(s[1]) for s in t.args)
    elif t.op == "bytes":
        b = t.args[0]
        if isinstance(b, str):
            raise Abort("template")
    else:
        raise Abort("template")
    args = [s[1] for s in a.args] if a.op == "list" else None
    if args is None:
        raise Abort("format arguments")
    parts = []
    for p in decode_template(ip, b, args):
        if isinstance(p, tuple):
            x = args[p[1]]
            f = fields_of(x)
            s = render(ip, f["how"].args[0], TYS[f["ty"].args[0]], f["x"])
            if p[0] == "argspec":
                s = mk("app", "fmtspec" + p[2], s)
            parts.append(s)
        else:
            parts.append(p)
    return cat(*parts)


TYS = {}


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_binary", "Argument::new_octal")
def _(ip, c):
    n = ip.N.ty(c.rargs[0])
    TYS[n] = c.rargs[0]
    return mk("adt", "fmtarg", "", (("how", Str(c.name.split("new_")[1])), ("ty", Str(n)), ("x", c.args[0])))


@model("Arguments::from_str", "Arguments::new_const", "Arguments::from_str_nonconst")
def _(ip, c):
    v = ip.deref(c.args[0])
    if v.op == "list":
        return cat(*[s[1] for s in v.args])
    return v


def render(ip, how, ty, x):
    ty = strip_refs(ty)
    x = ip.deref(x)
    if how == "display":
        return show(ip, ty, x)
    return mk("app", "fmt_" + how + ":" + ip.N.ty(ty), ip.observe(x))


def show(ip, ty, x):
    if is_string(ty):
        return x
    if ty is not None and ty[0] == "int":
        c = const_of(x)
        return Str(str(c)) if c is not None else mk("app", "dec", x)
    if ty is not None and ty[0] == "char":
        c = const_of(x)
        return Str(chr(c)) if c is not None else mk("app", "chr", x)
    if ty is not None and ty[0] == "bool":
        return Str("true" if ip.branch(x) else "false")
    if ty is not None and ty[0] == "adt" and ty[1] == "core::fmt::Arguments":
        return x
    f = local_impl(ip, "std::fmt::Display", "fmt", ty)
    if f is None:
        return mk("app", "show:" + ip.N.ty(ty), ip.observe(x))
    if ip.should_cut(f):
        ip.cuts.append(ip.N.cid(f))
        return mk("app", "show:" + ip.N.ty(ty), ip.observe(x))
    c = ip.new_cell(mk("adt", "Formatter", "", (("buf", Str("")),)))
    r = ip.run_fn(f, [x, mk("ref", c, ())], {})
    if not is_ok(ip, r):
        raise Diverge()
    return fields_of(ip.st.cells[c])["buf"]


@model("Formatter::write_str", "Formatter::pad", "Write::write_str")
def _(ip, c):
    if append_text(ip, c.args[0], ip.deref(c.args[1])):
        return OK_UNIT
    return None


def append_text(ip, r, s):
    v = ip.deref(r)
    if v.op == "adt" and v.args[0] == "Formatter":
        return buf_append(ip, r, s)
    if r.op == "ref" and (v.op in ("str", "cat") or is_string(v.ty) or v.op in ("sv", "svapp") or (v.op == "app")):
        ip.write_ref(r, cat(v, s))
        return True
    return False


@model("Formatter::write_char", "Write::write_char")
def _(ip, c):
    if append_text(ip, c.args[0], show(ip, CHAR, c.args[1])):
        return OK_UNIT
    return None


@model("Formatter::write_fmt", "Write::write_fmt")
def _(ip, c):
    if append_text(ip, c.args[0], ip.deref(c.args[1])):
        return OK_UNIT
    return None


@model("String::push_str", "String::push")
def _(ip, c):
    s = ip.deref(c.args[1])
    if c.name.endswith("push"):
        s = show(ip, CHAR, s)
    ip.write_ref(c.args[0], cat(ip.deref(c.args[0]), s))
    return UNIT


@model("Add::add")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if is_string(t):
        return cat(ip.deref(c.args[0]), ip.deref(c.args[1]))
    if t[0] == "int":
        a, b = vals(ip, c)
        ip.note_overflow(t, add(a, b))
        return add(a, b)
    return None


@model("AddAssign::add_assign")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if is_string(t):
        ip.write_ref(c.args[0], cat(ip.deref(c.args[0]), ip.deref(c.args[1])))
        return UNIT
    if t[0] == "int":
        v = add(ip.deref(c.args[0]), ip.deref(c.args[1]))
        ip.note_overflow(t, v)
        ip.write_ref(c.args[0], v)
        return UNIT
    return None


@model("Sub::sub", "Mul::mul", "Div::div", "Rem::rem")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] != "int":
        return None
    a, b = vals(ip, c)
    m = c.name.split("::")[1]
    if m in ("div", "rem") and ip.branch(eq0(b)):
        raise Diverge()
    if m == "sub":
        return sub(a, b)
    if m == "mul":
        return mul(a, b)
    if m == "div":
        return ip.div(a, b, t)
    return T.simp_rem(ip.st.facts, ip.norm(a), ip.norm(b), t)


def int_op(ip, c, a, b, t):
    m = c.name.split("::")[1].replace("_assign", "")
    op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem", "bitxor": "BitXor", "bitand": "BitAnd", "bitor": "BitOr", "shl": "Shl", "shr": "Shr"}[m]
    if op in ("Div", "Rem") and ip.branch(eq0(b)):
        raise Diverge()
    v = ip.binop(None, op, a, b, t)
    if op in ("Add", "Sub", "Mul"):
        ip.note_overflow(t, v)
    return v


@model("BitXor::bitxor", "BitAnd::bitand", "BitOr::bitor", "Shl::shl", "Shr::shr")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "bool"):
        return None
    a, b = vals(ip, c)
    return int_op(ip, c, a, b, t)


@model("SubAssign::sub_assign", "MulAssign::mul_assign", "DivAssign::div_assign", "RemAssign::rem_assign", "BitXorAssign::bitxor_assign", "BitAndAssign::bitand_assign",
       "BitOrAssign::bitor_assign", "ShlAssign::shl_assign", "ShrAssign::shr_assign")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if t[0] not in ("int", "bool"):
        return None
    ip.write_ref(c.args[0], int_op(ip, c, ip.deref(c.args[0]), ip.deref(c.args[1]), t))
    return UNIT


@model("Neg::neg")
def _(ip, c):
    if strip_refs(c.rargs[0])[0] != "int":
        return None
    return scale(ip.deref(c.args[0]), -1)


@model("Not::not")
def _(ip, c):
    if strip_refs(c.rargs[0])[0] != "bool":
        return None
    return neg(ip.deref(c.args[0]))


@model("std::fmt::format", "alloc::fmt::format", "std::fmt::format::format_inner")
def _(ip, c):
    return ip.deref(c.args[0])


@model("ToString::to_string")
def _(ip, c):
    return show(ip, strip_refs(c.rargs[0]), ip.deref(c.args[0]))


@model("Display::fmt")
def _(ip, c):
    t = strip_refs(c.rargs[0])
    if buf_append(ip, c.args[1], show(ip, t, ip.deref(c.args[0]))):
        return OK_UNIT
    return None


@model("String::new", "String::with_capacity")
def _(ip, c):
    return Str("")


@model("str::is_empty", "String::is_empty")
def _(ip, c):
    return is_empty_str(ip.deref(c.args[0]))


def has_prefix(ip, s, p):
    """does the text begin with a pattern?"""
    if p[0] == "c":
        if s.op == "str":
            return B(bool(s.args[0]) and bool(T.cs_and(p[1], T.cs_of(s.args[0][0]))))
        return mk("hin", s, p[1])
    x = p[1]
    if s.op == "str" and x.op == "str":
        return B(s.args[0].startswith(x.args[0]))
    if x.op == "str" and len(x.args[0]) <= 8 and s.op != "str":
        return conj([mk("hin", adv(s, j), T.cs_of(ch)) for j, ch in enumerate(x.args[0])])
    return mk("app", "has_prefix", s, x)


@model("str::strip_suffix", "str::strip_prefix")
def _(ip, c):
    s = ip.deref(c.args[0])
    m = c.name.split("_")[1]
    p = text_pattern(ip, c.args[1], c.tys[1])
    if p is None:
        return None
    if m == "prefix":
        if not ip.branch(has_prefix(ip, s, p)):
            return NONE
        x = p[1]
        if s.op == "str" and (p[0] == "c" or x.op == "str"):
            return some(Str(s.args[0][1 if p[0] == "c" else len(x.args[0]):]))
        if p[0] == "c" or (x.op == "str" and len(x.args[0]) <= 8 and s.op != "str"):
            return some(adv(s, 1 if p[0] == "c" else len(x.args[0])))
        return some(mk("app", "strip_prefix", s, x, ty=STR))
    if p[0] == "c":
        if cs_size(p[1]) != 1:
            return None
        x = Str(chr(p[1][0][0]))
    else:
        x = p[1]
    if s.op == "str" and x.op == "str":
        a, b = s.args[0], x.args[0]
        return some(Str(a[:len(a) - len(b)])) if a.endswith(b) else NONE
    if ip.branch(mk("app", "has_suffix", s, x)):
        return some(mk("app", "strip_suffix", s, x, ty=STR))
    return NONE


@model("str::starts_with", "str::ends_with")
def _(ip, c):
    s = ip.deref(c.args[0])
    p = text_pattern(ip, c.args[1], c.tys[1])
    if p is None:
        x = ip.deref(c.args[1])
        if not T.intlike(x):
            return None
        p = "s", show(ip, CHAR, x)
    if c.name.endswith("starts_with"):
        return has_prefix(ip, s, p)
    if p[0] == "c":
        if cs_size(p[1]) > 6:
            return None
        return disj([suffix(s, Str(chr(k))) for lo, hi in p[1] for k in range(lo, hi + 1)])
    return suffix(s, p[1])


def suffix(s, x):
    if s.op == "str" and x.op == "str":
        return B(s.args[0].endswith(x.args[0]))
    return mk("app", "has_suffix", s, x)


def text_pattern(ip, p, ty):
    """a pattern for text: ("s", text), ("c", characters) or None"""
    p = ip.deref(p)
    c = const_of(p)
    if c is not None:
        return "c", ((c, c),)
    if p.op == "str" and len(p.args[0]) == 1:
        return "c", T.cs_of(p.args[0])
    if p.op == "str" or is_string(strip_refs(ty)):
        return "s", p
    if p.op == "list":
        cs = [const_of(ip.deref(x[1])) if x[0] == "e" else None for x in p.args]
        if None in cs:
            return None
        return "c", T.cs_norm([(x, x) for x in cs])
    if p.op == "fn" or (p.op == "adt" and str(p.args[0]).startswith("closure:")):
        return "c", pset(ip, p)
    return None


def cs_size(cs):
    return sum(hi - lo + 1 for lo, hi in cs)


def has_char(ip, s, cs):
    """does the text contain one of the characters?"""
    if s.op == "str":
        return B(any(T.cs_and(cs, T.cs_of(ch)) for ch in s.args[0]))
    if not cs:
        return FALSE
    if s.op == "span" and not T.cs_and(s.args[1], cs):
        return FALSE
    if s.op == "cat":
        return mk("app", "contains_in", s, cs)
    o = not_in(cs)
    return disj([mk("hin", s, cs), conj([mk("hin", s, o), mk("hin", mk("after", s, o), cs)])])


def not_in(cs):
    return T.cs_char(T.cs_not(cs))


@model("str::contains")
def _(ip, c):
    s = ip.deref(c.args[0])
    p = text_pattern(ip, c.args[1], c.tys[1])
    if p is None:
        p = ip.deref(c.args[1])
        return mk("app", "contains", s, show(ip, CHAR, p)) if T.intlike(p) else None
    if p[0] == "c":
        return has_char(ip, s, p[1])
    if s.op == "str" and p[1].op == "str":
        return B(p[1].args[0] in s.args[0])
    return mk("app", "contains", s, p[1])


@model("str::find", "str::rfind")
def _(ip, c):
    s = ip.deref(c.args[0])
    p = text_pattern(ip, c.args[1], c.tys[1])
    if p is None:
        return None
    n = c.name.split("::")[1]
    if not ip.branch(has_char(ip, s, p[1]) if p[0] == "c" else mk("app", "contains", s, p[1])):
        return NONE
    return some(mk("app", n + "_in", s, p[1], ty=USIZE) if p[0] == "c" else mk("app", n + "_str", s, p[1], ty=USIZE))


@model("str::split_once")
def _(ip, c):
    s = ip.deref(c.args[0])
    p = text_pattern(ip, c.args[1], c.tys[1])
    if p is None or p[0] != "c":
        return None
    if not ip.branch(has_char(ip, s, p[1])):
        return NONE
    o = not_in(p[1])
    return some(tup(text_span(ip, s, o), adv(text_after(ip, s, o), 1)))


def text_span(ip, s, cs):
    """the longest prefix of these characters"""
    return mk("span", s, cs, ty=STR) if ip.branch(mk("hin", s, cs)) else Str("")


def text_after(ip, s, cs):
    return mk("after", s, cs) if ip.branch(mk("hin", s, cs)) else s


def str_len(s):
    return I(len(s.args[0].encode())) if s.op == "str" else mk("app", "str::len", s, ty=USIZE)


@model("str::len", "String::len")
def _(ip, c):
    return str_len(ip.deref(c.args[0]))


def text_slice(ip, s, lo, hi):
    """the text from one position to another; None if that is not possible"""
    n = str_len(s)
    if hi is n:
        if const_of(lo) == 0:
            return s
        if lo is n:
            return Str("")
        if lo.op == "app" and lo.args[0] == "find_in" and lo.args[1] is s:
            return text_after(ip, s, not_in(lo.args[2]))
        k = const_of(lo)
        if k is not None and 0 < k <= 8:
            ascii_ = ((0, 127),)
            hs = [ip.st.facts.heads.get(adv(s, j)) for j in range(k)]
            if all(h is not None and T.cs_and(h, ascii_) == h for h in hs):
                return adv(s, k)
    if const_of(lo) == 0 and hi.op == "app" and hi.args[0] == "find_in" and hi.args[1] is s:
        return text_span(ip, s, not_in(hi.args[2]))
    if s.op == "str" and const_of(lo) is not None and const_of(hi) is not None:
        b = s.args[0].encode()
        a, z = const_of(lo), const_of(hi)
        if not 0 <= a <= z <= len(b):
            return None
        try:
            return Str(b[a:z].decode())
        except UnicodeDecodeError:
            return None
    if not ip.branch(mk("app", "str_slice_ok", s, lo, hi)):
        return None
    return mk("app", "str_slice", s, lo, hi, ty=STR)


@model("str::get", "str::get_unchecked")
def _(ip, c):
    s, i = ip.deref(c.args[0]), ip.deref(c.args[1])
    if i.op != "adt":
        return None
    lo, hi = range_bounds(ip, i, str_len(s))
    if lo is None:
        return None
    v = text_slice(ip, s, lo, hi)
    if c.name.endswith("unchecked"):
        return v
    return NONE if v is None else some(v)


@model("str::split_at")
def _(ip, c):
    s, i = ip.deref(c.args[0]), ip.deref(c.args[1])
    a = text_slice(ip, s, I(0), i)
    b = text_slice(ip, s, i, str_len(s))
    if a is None or b is None:
        raise Diverge()
    return tup(a, b)


@model("bool::then", "bool::then_some")
def _(ip, c):
    if not ip.branch(ip.deref(c.args[0])):
        return NONE
    return some(c.args[1] if c.name.endswith("some") else ip.call_value(c.args[1], [], [], opt_ty(c.dty)))


@model("Option::zip")
def _(ip, c):
    a, b = c.args
    if not is_some(ip, a) or not is_some(ip, b):
        return NONE
    return some(tup(payload(ip, a, OPT, "Some", opt_ty(c.tys[0])), payload(ip, b, OPT, "Some", opt_ty(c.tys[1]))))


@model("Option::flatten")
def _(ip, c):
    return payload(ip, c.args[0], OPT, "Some", opt_ty(c.tys[0])) if is_some(ip, c.args[0]) else NONE


@model("Result::is_ok_and", "Result::is_err_and")
def _(ip, c):
    v = c.args[0]
    o = is_ok(ip, v)
    if o != c.name.endswith("ok_and"):
        return FALSE
    t = res_ty(c.tys[0], 0 if o else 1)
    p = payload(ip, v, RES, "Ok", t) if o else err_payload(ip, v, t)
    return ip.call_value(c.args[1], [p], [t], None)


# ------------------------------------------------------------------------------------------ characters and integers
def char_in(ip, ch, cs):
    c = const_of(ch)
    if c is not None:
        return B(bool(T.cs_and(cs, ((c, c),))))
    if ch.op == "head":
        return mk("hin", ch.args[0], cs)
    return disj([conj([le(I(lo), ch), le(ch, I(hi))]) for lo, hi in cs])


def asc(*r):
    return T.cs_norm([(ord(a), ord(b)) for a, b in r])


DIGIT = asc("09")
ALPHA = asc("AZ", "az")
CLASSES = {"is_ascii_digit": DIGIT, "is_ascii_alphabetic": ALPHA, "is_ascii_uppercase": asc("AZ"), "is_ascii_lowercase": asc("az"),
           "is_ascii_alphanumeric": T.cs_union(DIGIT, ALPHA), "is_ascii_hexdigit": asc("09", "AF", "af"),
           "is_ascii": ((0, 127),), "is_ascii_whitespace": T.cs_of(" \t\n\r\x0c"), "is_ascii_control": ((0, 31), (127, 127)),
           "is_ascii_punctuation": asc("!/", ":@", "[`", "{~"), "is_ascii_graphic": asc("!~")}
for _n, _cs in CLASSES.items():
    def _f(ip, c, cs=_cs):
        return char_in(ip, ip.deref(c.args[0]), cs)
    MODELS["char::" + _n] = _f
    MODELS["int::" + _n] = _f


@model("int::abs")
def _(ip, c):
    x = c.args[0]
    return scale(x, -1) if ip.branch(lt(x, I(0))) else x


@model("int::unsigned_abs")
def _(ip, c):
    x = c.args[0]
    return scale(x, -1) if ip.branch(lt(x, I(0))) else x


@model("int::signum")
def _(ip, c):
    x = c.args[0]
    if ip.branch(lt(x, I(0))):
        return I(-1)
    return I(0) if ip.branch(eq0(x)) else I(1)


@model("int::is_positive", "int::is_negative")
def _(ip, c):
    return lt(I(0), c.args[0]) if c.name.endswith("positive") else lt(c.args[0], I(0))


@model("int::rem_euclid", "int::div_euclid")
def _(ip, c):
    a, b = vals(ip, c)
    t = strip_refs(c.dty)
    if ip.branch(eq0(b)):
        raise Diverge()
    if not t[1].startswith("u"):
        na = ip.decide(le0(scale(a, -1)))
        if na is not True:
            return mk("app", c.name, a, b, ty=t)
    return T.simp_rem(ip.st.facts, ip.norm(a), ip.norm(b), t) if c.name.endswith("rem_euclid") else ip.div(a, b, t)


@model("int::is_multiple_of")
def _(ip, c):
    a, b = vals(ip, c)
    if ip.branch(eq0(b)):
        return eq0(a)
    return eq0(T.simp_rem(ip.st.facts, ip.norm(a), ip.norm(b), c.tys[0]))


def in_range(ip, t, v):
    lo, hi = T.INT_RANGES[t[1]]
    return ip.branch(le(I(lo), v)) and ip.branch(le(v, I(hi)))


@model("int::checked_add", "int::checked_sub", "int::checked_mul", "int::checked_neg", "int::checked_div", "int::checked_rem", "int::checked_abs")
def _(ip, c):
    t = strip_refs(c.tys[0])
    m = c.name.split("checked_")[1]
    a = c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    if m in ("div", "rem"):
        if ip.branch(eq0(b)):
            return NONE
        return some(ip.div(a, b, t) if m == "div" else T.simp_rem(ip.st.facts, ip.norm(a), ip.norm(b), t))
    if m == "abs":
        v = scale(a, -1) if ip.branch(lt(a, I(0))) else a
    elif m == "neg":
        v = scale(a, -1)
    else:
        v = {"add": add, "sub": sub, "mul": mul}[m](a, b)
    return some(v) if in_range(ip, t, v) else NONE


@model("int::wrapping_add", "int::wrapping_sub", "int::wrapping_mul", "int::wrapping_neg", "int::saturating_add", "int::saturating_sub", "int::saturating_mul")
def _(ip, c):
    t = strip_refs(c.tys[0])
    w, m = c.name.split("::")[1].split("_")
    a = c.args[0]
    b = c.args[1] if len(c.args) > 1 else None
    v = scale(a, -1) if m == "neg" else {"add": add, "sub": sub, "mul": mul}[m](a, b)
    lo, hi = T.INT_RANGES[t[1]]
    if w == "saturating":
        if ip.branch(lt(v, I(lo))):
            return I(lo)
        return I(hi) if ip.branch(lt(I(hi), v)) else v
    if ip.decide(le(I(lo), v)) is True and ip.decide(le(v, I(hi))) is True:
        return v
    return mk("cast", t[1], v, ty=t)


@model("int::abs_diff")
def _(ip, c):
    a, b = c.args
    return sub(b, a) if ip.branch(lt(a, b)) else sub(a, b)


@model("int::pow")
def _(ip, c):
    n = const_of(c.args[1])
    if n is None or n > 6:
        return None
    r = I(1)
    for _ in range(n):
        r = mul(r, c.args[0])
    return r


# ------------------------------------------------------------------------------------------ vectors and slices
@model("Vec::new", "Vec::with_capacity")
def _(ip, c):
    return lst()


@model("Vec::push", "VecDeque::push_back")
def _(ip, c):
    ip.write_ref(c.args[0], lst(("s", ip.deref(c.args[0])), ("e", c.args[1])))
    return UNIT


@model("Vec::append", "Vec::extend_from_slice")
def _(ip, c):
    x = ip.deref(c.args[1])
    ip.write_ref(c.args[0], lst(("s", ip.deref(c.args[0])), ("s", x)))
    if c.name.endswith("append"):
        ip.write_ref(c.args[1], lst())
    return UNIT


@model("Vec::reserve", "Vec::shrink_to_fit", "String::reserve", "HashMap::reserve")
def _(ip, c):
    return UNIT


@model("Vec::clear", "String::clear", "HashMap::clear")
def _(ip, c):
    ip.write_ref(c.args[0], lst() if c.name.startswith("Vec") else Str("") if c.name.startswith("Str") else empty_map())
    return UNIT


@model("Vec::len", "slice::len")
def _(ip, c):
    return ip.len(ip.deref(c.args[0]))


@model("Vec::is_empty", "slice::is_empty")
def _(ip, c):
    return eq0(ip.len(ip.deref(c.args[0])))


@model("Vec::pop")
def _(ip, c):
    xs = ip.deref(c.args[0])
    if xs.op == "list" and xs.args and xs.args[-1][0] == "e":
        ip.write_ref(c.args[0], lst(*xs.args[:-1]))
        return some(xs.args[-1][1])
    n = ip.len(xs)
    if ip.branch(eq0(n)):
        return NONE
    v = ip.at(xs, sub(n, I(1)), strip_refs(opt_ty(c.dty)))
    ip.write_ref(c.args[0], ip.slice(xs, I(0), sub(n, I(1))))
    return some(v)


@model("slice::last", "slice::first", "slice::get", "Vec::get")
def _(ip, c):
    xs = ip.deref(c.args[0])
    n = ip.len(xs)
    et = strip_refs(opt_ty(c.dty))
    m = c.name.split("::")[1]
    if m == "get":
        i = ip.deref(c.args[1])
        if i.op == "adt":
            return None
        return some(ip.at(xs, i, et)) if ip.branch(lt(i, n)) else NONE
    if ip.branch(eq0(n)):
        return NONE
    return some(ip.at(xs, I(0) if m == "first" else sub(n, I(1)), et))


@model("slice::last_mut", "slice::first_mut", "slice::get_mut")
def _(ip, c):
    r = c.args[0]
    while r.op == "ref" and ip.deref1(r).op == "ref":
        r = ip.deref1(r)
    if r.op != "ref":
        return None
    n = ip.len(ip.deref(r))
    m = c.name.split("::")[1]
    i = ip.deref(c.args[1]) if m == "get_mut" else I(0) if m == "first_mut" else sub(n, I(1))
    if i.op == "adt":
        return None
    if not ip.branch(lt(i, n) if m == "get_mut" else neg(eq0(n))):
        return NONE
    return some(mk("ref", r.args[0], r.args[1] + (("i", i, strip_refs(opt_ty(c.dty))),)))


@model("slice::split_first", "slice::split_last")
def _(ip, c):
    xs = ip.deref(c.args[0])
    n = ip.len(xs)
    if ip.branch(eq0(n)):
        return NONE
    if c.name.endswith("first"):
        return some(tup(ip.at(xs, I(0)), ip.slice(xs, I(1), n)))
    return some(tup(ip.at(xs, sub(n, I(1))), ip.slice(xs, I(0), sub(n, I(1)))))


@model("slice::strip_prefix", "slice::strip_suffix", "slice::starts_with", "slice::ends_with")
def _(ip, c):
    xs, p = ip.deref(c.args[0]), ip.deref(c.args[1])
    if p.op == "bytes":
        p = lst(*(("e", I(x)) for x in p.args[0]))
    if p.op != "list" or any(g[0] != "e" for g in p.args):
        return None
    n, k = ip.len(xs), len(p.args)
    m = c.name.split("::")[1]
    front = m in ("strip_prefix", "starts_with")
    hit = ip.branch(le(I(k), n))
    for i, g in enumerate(p.args):
        if not hit:
            break
        hit = ip.branch(T.eq(ip.at(xs, I(i) if front else add(sub(n, I(k)), I(i)), g[1].ty), g[1]))
    if not m.startswith("strip"):
        return B(hit)
    if not hit:
        return NONE
    return some(ip.slice(xs, I(k), n) if front else ip.slice(xs, I(0), sub(n, I(k))))


@model("slice::get_unchecked", "slice::get_unchecked_mut")
def _(ip, c):
    i = ip.deref(c.args[1])
    if i.op == "adt":
        return None
    return mk("app", "get_unchecked", ip.deref(c.args[0]), i, ty=strip_refs(c.dty))


@model("Index::index", "IndexMut::index_mut")
def _(ip, c):
    xs, i = ip.deref(c.args[0]), ip.deref(c.args[1])
    t = strip_refs(c.tys[0])
    n = t[1].split("::")[-1] if t is not None and t[0] == "adt" else ""
    if n in ("HashMap", "BTreeMap"):
        v = map_get(ip, xs, i, c.dty)
        if v is None:
            raise Diverge()
        return v
    if is_string(t):
        lo, hi = range_bounds(ip, i, str_len(xs)) if i.op == "adt" else (None, None)
        if lo is None or c.name.endswith("mut"):
            return None
        v = text_slice(ip, xs, lo, hi)
        if v is None:
            raise Diverge()
        return v
    ln = ip.len(xs)
    if i.op == "adt":
        lo, hi = range_bounds(ip, i, ln)
        if lo is None:
            return None
        if not ip.branch(le(lo, hi)) or not ip.branch(le(hi, ln)):
            raise Diverge()
        if c.name.endswith("mut"):
            return None
        return ip.slice(xs, lo, hi)
    if not ip.branch(lt(i, ln)):
        raise Diverge()
    if c.name.endswith("mut"):
        r = c.args[0]
        if r.op != "ref":
            return None
        return mk("ref", r.args[0], r.args[1] + (("i", i, strip_refs(c.dty)),))
    return ip.at(xs, i, strip_refs(c.dty))


def range_bounds(ip, r, n):
    k = r.args[0].split("::")[-1]
    f = fields_of(r)
    if k == "Range":
        return f["start"], f["end"]
    if k == "RangeFrom":
        return f["start"], n
    if k == "RangeTo":
        return I(0), f["end"]
    if k == "RangeFull":
        return I(0), n
    if k == "RangeInclusive":
        return f["start"], add(f["end"], I(1))
    if k == "RangeToInclusive":
        return I(0), add(f["end"], I(1))
    return None, None


@model("RangeInclusive::new")
def _(ip, c):
    return adt("core::ops::range::RangeInclusive", "", [("start", c.args[0]), ("end", c.args[1]), ("exhausted", FALSE)])


@model("RangeInclusive::contains", "Range::contains")
def _(ip, c):
    r, x = vals(ip, c)
    f = fields_of(r)
    hi = le(x, f["end"]) if c.name.startswith("RangeI") else lt(x, f["end"])
    return conj([le(f["start"], x), hi])


@model("Box::new_uninit", "Box::new_uninit_in")
def _(ip, c):
    ip.st.nframe += 1
    cell = ("t", ip.st.nframe)
    ip.st.cells[cell] = mk("undef")
    return mk("ref", cell, ())


@model("std::boxed::box_assume_init_into_vec_unsafe", "alloc::boxed::box_assume_init_into_vec_unsafe", "Box::assume_init")
def _(ip, c):
    return ip.deref(c.args[0])


@model("slice::join", "slice::concat")
def _(ip, c):
    xs = ip.deref(c.args[0])
    sep = ip.deref(c.args[1]) if len(c.args) > 1 else Str("")
    if xs.op == "list" and all(s[0] == "e" for s in xs.args):
        out = []
        for n, s in enumerate(xs.args):
            if n:
                out.append(sep)
            out.append(s[1])
        return cat(*out)
    if sep.op == "str" and sep.args[0] == "":
        if xs.op == "list" and len(xs.args) == 1 and xs.args[0][0] == "f":
            return mk("join", xs.args[0][1])
    return mk("app", "join", xs, sep, ty=STR)


def piece(xs, lo, hi, ip):
    """the elements lo..hi as a segment"""
    if lo is hi or ip.decide(eq0(sub(hi, lo))) is True:
        return []
    v = ip.slice(xs, lo, hi)
    return list(v.args) if v.op == "list" else [("s", v)]


@model("Vec::insert")
def _(ip, c):
    xs, i = ip.deref(c.args[0]), ip.deref(c.args[1])
    n = ip.len(xs)
    if not ip.branch(le(i, n)):
        raise Diverge()
    ip.write_ref(c.args[0], lst(*piece(xs, I(0), i, ip), ("e", c.args[2]), *piece(xs, i, n, ip)))
    return UNIT


@model("Vec::remove", "Vec::swap_remove")
def _(ip, c):
    xs, i = ip.deref(c.args[0]), ip.deref(c.args[1])
    n = ip.len(xs)
    if not ip.branch(lt(i, n)):
        raise Diverge()
    v = ip.at(xs, i, strip_refs(c.dty))
    if c.name.endswith("swap_remove"):
        last = ip.at(xs, sub(n, I(1)), strip_refs(c.dty))
        ip.write_ref(c.args[0], ip.slice(ip.update(xs, i, last), I(0), sub(n, I(1))))
    else:
        ip.write_ref(c.args[0], lst(*piece(xs, I(0), i, ip), *piece(xs, add(i, I(1)), n, ip)))
    return v


@model("Vec::truncate")
def _(ip, c):
    xs, k = ip.deref(c.args[0]), ip.deref(c.args[1])
    if ip.branch(lt(k, ip.len(xs))):
        ip.write_ref(c.args[0], ip.slice(xs, I(0), k))
    return UNIT


@model("Vec::split_off")
def _(ip, c):
    xs, k = ip.deref(c.args[0]), ip.deref(c.args[1])
    n = ip.len(xs)
    if not ip.branch(le(k, n)):
        raise Diverge()
    ip.write_ref(c.args[0], ip.slice(xs, I(0), k))
    return ip.slice(xs, k, n)


@model("slice::swap")
def _(ip, c):
    xs, i, j = ip.deref(c.args[0]), ip.deref(c.args[1]), ip.deref(c.args[2])
    n = ip.len(xs)
    if not ip.branch(lt(i, n)) or not ip.branch(lt(j, n)):
        raise Diverge()
    a, b = ip.at(xs, i), ip.at(xs, j)
    ip.write_ref(c.args[0], ip.update(ip.update(xs, i, b), j, a))
    return UNIT


@model("slice::fill")
def _(ip, c):
    xs = ip.deref(c.args[0])
    ip.write_ref(c.args[0], mk("rep", ip.deref(c.args[1]), ip.len(xs)))
    return UNIT


@model("Vec::retain", "Vec::retain_mut")
def _(ip, c):
    if c.name.endswith("mut"):
        return None
    xs = ip.deref(c.args[0])
    ip.write_ref(c.args[0], collect_list(ip, mk("seq", "filter", list_seq(xs, None), c.args[1])))
    return UNIT


@model("Vec::dedup", "Vec::dedup_by_key", "Vec::dedup_by")
def _(ip, c):
    """an element is dropped when it equals the last one kept"""
    xs = ip.deref(c.args[0])
    n = ip.len(xs)
    if ip.branch(eq0(n)):
        return UNIT
    m = c.name.split("::")[1]
    t = strip_refs(c.rargs[0]) if c.rargs else None
    last = ip.new_cell(ip.at(xs, I(0), t))
    acc = ip.new_cell(lst(("e", ip.st.cells[last])))

    def f(x):
        y = ip.st.cells[last]
        if m == "dedup":
            same = values_eq(ip, t, y, x)
        elif m == "dedup_by":
            same = ip.call_value(c.args[1], [x, y], None, None)
        else:
            same = T.eq(ip.call_value(c.args[1], [y], None, None), ip.call_value(c.args[1], [x], None, None))
        if ip.branch(same):
            return None
        ip.st.cells[last] = x
        ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), ("e", x))
        return None
    drive(ip, list_seq(ip.slice(xs, I(1), n), t), f)
    v = ip.st.cells.pop(acc)
    ip.st.cells.pop(last)
    ip.write_ref(c.args[0], v)
    return UNIT


@model("slice::chunks", "slice::chunks_exact", "slice::windows")
def _(ip, c):
    n = ip.deref(c.args[1])
    if ip.branch(eq0(n)):
        raise Diverge()
    return mk_iter(mk("seq", c.name.split("::")[1], ip.deref(c.args[0]), n))


@model("ChunksExact::remainder")
def _(ip, c):
    v = ip.deref(c.args[0])
    s = fields_of(v)["seq"] if v.op == "adt" and v.args[0] == ITER else None
    if s is None or s.args[0] != "chunks_exact":
        return None
    ln = ip.len(s.args[1])
    return ip.slice(s.args[1], sub(ln, T.simp_rem(ip.st.facts, ip.norm(ln), ip.norm(s.args[2]), USIZE)), ln)


@model("slice::reverse")
def _(ip, c):
    xs = ip.deref(c.args[0])
    ip.write_ref(c.args[0], collect_list(ip, seq_rev(ip, list_seq(xs, None))))
    return UNIT


@model("slice::contains", "Vec::contains")
def _(ip, c):
    xs, x = vals(ip, c)
    if xs.op == "list" and all(s[0] == "e" for s in xs.args):
        return disj([T.eq(s[1], x) for s in xs.args])
    return mk("app", "slice_contains", xs, x)


# ------------------------------------------------------------------------------------------ iterators
ITER = "iter"


def list_seq(xs, ety):
    return mk("seq", "list", xs, ety=None) if False else mk("seq", "list", xs, ty=ety)


def mk_iter(seq):
    return mk("adt", ITER, "", (("seq", seq), ("pos", I(0))))


def to_seq(ip, v, ty=None):
    """the sequence of items of an iterable value"""
    r = v
    v = ip.deref(v)
    if v.op == "adt" and v.args[0] == ITER:
        f = fields_of(v)
        if const_of(f["pos"]) == 0:
            return f["seq"]
        return mk("seq", "skip", f["seq"], f["pos"])
    if v.op == "adt" and str(v.args[0]).endswith("Range"):
        f = fields_of(v)
        return mk("seq", "range", f["start"], sub(f["end"], f["start"]), range_ty(ty))
    if v.op == "adt" and str(v.args[0]).endswith("RangeInclusive"):
        f = fields_of(v)
        return mk("seq", "range", f["start"], add(sub(f["end"], f["start"]), I(1)), range_ty(ty))
    if v.op == "adt" and str(v.args[0]).endswith("RangeFrom"):
        return mk("seq", "from", fields_of(v)["start"], range_ty(ty))
    if v.op == "adt" and v.args[0] == OPT:
        return list_seq(lst(("e", v.args[2][0][1])) if v.args[1] == "Some" else lst(), None)
    t = strip_refs(ty)
    n = t[1].split("::")[-1] if t is not None and t[0] == "adt" else ""
    if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet") or (v.op == "adt" and v.args[0] == "map"):
        return mk("seq", "map" if "Map" in n else "set", v)
    if t is not None and (t[0] in ("slice", "array") or n in ("Vec", "VecDeque")):
        et = t[1] if t[0] in ("slice", "array") else t[2][0]
        return list_seq(v, strip_refs(et))
    if v.op in ("list", "rep", "upd"):
        return list_seq(v, None)
    if t is not None and n == "Option":
        if is_some(ip, v):
            return list_seq(lst(("e", payload(ip, v, OPT, "Some", opt_ty(t)))), None)
        return list_seq(lst(), None)
    return mk("seq", "opaque", v, ty=None)


def range_ty(ty):
    t = strip_refs(ty)
    if t is not None and t[0] == "adt" and t[2] and t[2][0][0] in ("int", "char"):
        return t[2][0][1] if t[2][0][0] == "int" else "char"
    return "usize"


def seq_len(ip, s):
    k = s.args[0]
    if k == "list":
        return ip.len(s.args[1])
    if k == "range":
        return nonneg(ip, s.args[2])
    if k in ("rev", "map", "enum", "copied", "ref"):
        return seq_len(ip, s.args[1])
    if k == "zip":
        a, b = seq_len(ip, s.args[1]) if not infinite(s.args[1]) else None, seq_len(ip, s.args[2]) if not infinite(s.args[2]) else None
        if a is None or b is None:
            return a or b
        if a is b or ip.branch(le(a, b)):
            return a
        return b
    if k == "chain":
        return add(seq_len(ip, s.args[1]), seq_len(ip, s.args[2]))
    if k == "skip":
        n = sub(seq_len(ip, s.args[1]), s.args[2])
        return nonneg(ip, n)
    if k == "take":
        if infinite(s.args[1]):
            return s.args[2]
        n = seq_len(ip, s.args[1])
        return s.args[2] if ip.branch(le(s.args[2], n)) else n
    if k == "mutrefs":
        return s.args[2]
    if k == "chunks":
        return ip.div(sub(add(ip.len(s.args[1]), s.args[2]), I(1)), s.args[2], USIZE)
    if k == "chunks_exact":
        return ip.div(ip.len(s.args[1]), s.args[2], USIZE)
    if k == "windows":
        return nonneg(ip, sub(add(ip.len(s.args[1]), I(1)), s.args[2]))
    if k == "step":
        return ip.div(sub(add(seq_len(ip, s.args[1]), s.args[2]), I(1)), s.args[2], USIZE)
    if k in ("filter", "flat", "filter_map", "take_while", "skip_while", "from", "scan"):
        raise Abort("length of %s" % k)
    return mk("len", s, ty=USIZE)


def infinite(s):
    return s.args[0] == "from" or (s.args[0] in ("map", "enum", "copied") and infinite(s.args[1]))


def nonneg(ip, n):
    if n.op in ("len", "max0"):
        return n
    c = const_of(n)
    if c is not None:
        return I(max(c, 0))
    if n.ty is not None and n.ty[0] == "int" and n.ty[1].startswith("u"):
        return n
    d = ip.decide(le0(scale(n, -1)))
    if d is True:
        return n
    return mk("max0", n, ty=Ty(("int", "usize")))


def seq_at(ip, s, i):
    k = s.args[0]
    if k == "list":
        return ip.at(s.args[1], i, s.ty)
    if k in ("range", "from"):
        return add(s.args[1], i)
    if k == "rev":
        return seq_at(ip, s.args[1], sub(sub(seq_len(ip, s.args[1]), I(1)), i))
    if k == "map":
        return ip.call_value(s.args[2], [seq_at(ip, s.args[1], i)], [None], None)
    if k == "enum":
        return tup(i, seq_at(ip, s.args[1], i))
    if k in ("copied", "ref"):
        return seq_at(ip, s.args[1], i)
    if k == "zip":
        return tup(seq_at(ip, s.args[1], i), seq_at(ip, s.args[2], i))
    if k == "chain":
        n = seq_len(ip, s.args[1])
        if ip.branch(lt(i, n)):
            return seq_at(ip, s.args[1], i)
        return seq_at(ip, s.args[2], sub(i, n))
    if k == "skip":
        return seq_at(ip, s.args[1], add(i, s.args[2]))
    if k == "take":
        return seq_at(ip, s.args[1], i)
    if k == "map_" or k == "map":
        pass
    if k in ("chunks", "chunks_exact"):
        lo = mul(i, s.args[2])
        hi = add(lo, s.args[2])
        if k == "chunks":
            n = ip.len(s.args[1])
            if not ip.branch(le(hi, n)):
                hi = n
        return ip.slice(s.args[1], lo, hi)
    if k == "mutrefs":
        r = s.args[1]
        return mk("ref", r.args[0], r.args[1] + (("i", i, s.ty),))
    if k == "windows":
        return ip.slice(s.args[1], i, add(i, s.args[2]))
    if k == "step":
        return seq_at(ip, s.args[1], mul(i, s.args[2]))
    if k == "set":
        return mk("app", "setitem", s.args[1], i)
    if k == "map":
        pass
    if k == "mapents":
        return tup(mk("app", "mapkey", s.args[1], i), mk("app", "mapval", s.args[1], i))
    return mk("app", "item", s, i, ty=s.ty)


def seq_rev(ip, s):
    if s.args[0] == "rev":
        return s.args[1]
    if s.args[0] == "map":
        return mk("seq", "map", seq_rev(ip, s.args[1]), s.args[2])
    return mk("seq", "rev", s)


def fix_map_seq(s):
    # iteration over a hash map: entries in an unspecified order
    if s.args[0] == "map" and len(s.args) == 2:
        return mk("seq", "mapents", s.args[1])
    return s


@model("IntoIterator::into_iter", "slice::iter", "slice::iter_mut", "Vec::iter", "HashMap::iter", "HashSet::iter", "Iterator::by_ref_", "Option::iter", "Option::into_iter",
       "BTreeMap::iter", "VecDeque::iter")
def _(ip, c):
    v = c.args[0]
    t = strip_refs(c.tys[0])
    if c.name.endswith("iter_mut") or (c.tys[0] is not None and c.tys[0][0] == "ref" and c.tys[0][1] and t is not None
                                       and (t[0] in ("slice", "array") or t[0] == "adt" and t[1].endswith("::Vec"))):
        while v.op == "ref" and ip.deref1(v).op == "ref":
            v = ip.deref1(v)
        if v.op != "ref":
            return None
        return mk_iter(mk("seq", "mutrefs", v, ip.len(ip.deref(v)), ty=strip_refs(t[1] if t[0] in ("slice", "array") else t[2][0])))
    # a mutable reference to an iterator stays a reference
    if c.tys[0] is not None and c.tys[0][0] == "ref" and c.tys[0][1] and ip.deref(v).op == "adt" and ip.deref(v).args[0] == ITER:
        return v
    if t is not None and t[0] == "adt" and local_impl(ip, "std::iter::Iterator", "next", t) is not None:
        return v
    return mk_iter(fix_map_seq(to_seq(ip, v, c.tys[0])))


@model("HashMap::keys", "HashMap::values", "HashMap::into_keys", "HashMap::into_values")
def _(ip, c):
    m = ip.deref(c.args[0])
    return mk_iter(mk("seq", "opaque", mk("app", c.name.split("_")[-1].split("::")[-1], m)))


@model("str::chars")
def _(ip, c):
    return mk_iter(mk("seq", "chars", ip.deref(c.args[0]), ty=CHAR))


@model("str::bytes", "str::char_indices")
def _(ip, c):
    return mk_iter(mk("seq", "opaque", mk("app", c.name, ip.deref(c.args[0]))))


@model("Iterator::eq", "Iterator::ne")
def _(ip, c):
    a, b = fix_map_seq(to_seq(ip, c.args[0], c.tys[0])), fix_map_seq(to_seq(ip, c.args[1], c.tys[1]))
    if "opaque" in (a.args[0], b.args[0]):
        return None
    r = T.eq(collect_list(ip, a), collect_list(ip, b))
    return r if c.name.endswith("eq") else neg(r)


@model("Iterator::rev")
def _(ip, c):
    return mk_iter(seq_rev(ip, to_seq(ip, c.args[0], c.tys[0])))


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::flat_map", "Iterator::take_while", "Iterator::skip_while")
def _(ip, c):
    k = {"map": "map", "filter": "filter", "filter_map": "filter_map", "flat_map": "flat", "take_while": "take_while", "skip_while": "skip_while"}[c.name.split("::")[1]]
    return mk_iter(mk("seq", k, fix_map_seq(to_seq(ip, c.args[0], c.tys[0])), c.args[1]))


@model("Iterator::flatten")
def _(ip, c):
    return mk_iter(mk("seq", "flat", to_seq(ip, c.args[0], c.tys[0]), mk("fn", "identity")))


@model("Iterator::enumerate", "Iterator::copied", "Iterator::cloned", "Iterator::peekable", "Iterator::fuse")
def _(ip, c):
    m = c.name.split("::")[1]
    s = to_seq(ip, c.args[0], c.tys[0])
    if m == "enumerate":
        return mk_iter(mk("seq", "enum", s))
    if m == "peekable":
        return None
    return mk_iter(s)


@model("Iterator::zip", "Iterator::chain", "std::iter::zip")
def _(ip, c):
    return mk_iter(mk("seq", c.name.split("::")[-1], to_seq(ip, c.args[0], c.tys[0]), to_seq(ip, c.args[1], c.tys[1])))


@model("Iterator::skip", "Iterator::take")
def _(ip, c):
    return mk_iter(mk("seq", c.name.split("::")[1], to_seq(ip, c.args[0], c.tys[0]), c.args[1]))


@model("Iterator::step_by")
def _(ip, c):
    n = ip.deref(c.args[1])
    if ip.branch(eq0(n)):
        raise Diverge()
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    if s.args[0] == "opaque" or infinite(s):
        return None
    return mk_iter(s if const_of(n) == 1 else mk("seq", "step", s, n))


@model("Iterator::nth")
def _(ip, c):
    r = c.args[0]
    if r.op != "ref" or local_impl(ip, "std::iter::Iterator", "next", strip_refs(c.rargs[0])) is not None:
        return None
    stt = iter_state(ip, r, c.tys[0])
    if stt is None or base_of(stt[0]).args[0] in ("filter", "filter_map", "flat", "take_while", "skip_while"):
        return None
    s, pos = stt
    p = add(pos, ip.deref(c.args[1]))
    if not infinite(s) and not ip.branch(lt(p, seq_len(ip, s))):
        set_pos(ip, r, seq_len(ip, s))
        return NONE
    set_pos(ip, r, add(p, I(1)))
    return some(seq_at(ip, s, p))


@model("Iterator::max", "Iterator::min", "Iterator::max_by_key", "Iterator::min_by_key")
def _(ip, c):
    """the last of the greatest, or the first of the least"""
    m = c.name.split("::")[1]
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    if s.args[0] == "opaque":
        return None
    if not m.endswith("key"):
        t = strip_refs(opt_ty(c.dty))
        if t is None or t[0] not in ("int", "char"):
            return None
    best, key, has = ip.new_cell(I(0)), ip.new_cell(I(0)), ip.new_cell(FALSE)

    def f(x):
        x = ip.deref(x)
        k = ip.call_value(c.args[1], [x], None, None) if m.endswith("key") else x
        if not T.intlike(k):
            raise Abort("order of " + k.op)
        if ip.branch(ip.st.cells[has]):
            b = ip.st.cells[key]
            if not ip.branch(le(b, k) if m.startswith("max") else lt(k, b)):
                return None
        ip.st.cells[best], ip.st.cells[key], ip.st.cells[has] = x, k, TRUE
        return None
    drive(ip, s, f)
    v, h = ip.st.cells.pop(best), ip.st.cells.pop(has)
    ip.st.cells.pop(key)
    return some(v) if ip.branch(h) else NONE


@model("Iterator::unzip", "Iterator::partition")
def _(ip, c):
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    t = strip_refs(c.dty)
    if s.args[0] == "opaque" or t[0] != "tuple" or any(strip_refs(x)[0] != "adt" or not strip_refs(x)[1].endswith("Vec") for x in t[1]):
        return None
    a, b = ip.new_cell(lst()), ip.new_cell(lst())

    def f(x):
        x = ip.deref(x)
        if c.name.endswith("partition"):
            w = a if ip.branch(ip.call_value(c.args[1], [x], None, None)) else b
            ip.st.cells[w] = lst(("s", ip.st.cells[w]), ("e", x))
            return None
        y, z = (x.args[2][0][1], x.args[2][1][1]) if x.op == "adt" else (fld(x, "", "0", 2), fld(x, "", "1", 2))
        ip.st.cells[a] = lst(("s", ip.st.cells[a]), ("e", y))
        ip.st.cells[b] = lst(("s", ip.st.cells[b]), ("e", z))
        return None
    drive(ip, s, f)
    return tup(ip.st.cells.pop(a), ip.st.cells.pop(b))


@model("std::iter::once", "core::iter::once")
def _(ip, c):
    return mk_iter(list_seq(lst(("e", c.args[0])), None))


@model("std::iter::empty", "core::iter::empty")
def _(ip, c):
    return mk_iter(list_seq(lst(), None))


@model("std::iter::repeat_n", "core::iter::repeat_n")
def _(ip, c):
    return mk_iter(list_seq(mk("rep", c.args[0], c.args[1]), None))


@model("Vec::drain")
def _(ip, c):
    xs = ip.deref(c.args[0])
    r = ip.deref(c.args[1])
    lo, hi = range_bounds(ip, r, ip.len(xs)) if r.op == "adt" else (None, None)
    if lo is None:
        return None
    et = strip_refs(c.rargs[0])
    if is_string(strip_refs(c.tys[0])):
        return None
    n = ip.len(xs)
    if const_of(lo) == 0 and ip.decide(eq0(sub(hi, n))) is True:
        ip.write_ref(c.args[0], lst())
        return mk_iter(list_seq(xs, et))
    if not ip.branch(le(lo, hi)) or not ip.branch(le(hi, n)):
        raise Diverge()
    ip.write_ref(c.args[0], lst(*piece(xs, I(0), lo, ip), *piece(xs, hi, n, ip)))
    return mk_iter(list_seq(ip.slice(xs, lo, hi), et))


def iter_state(ip, r, ty):
    """(seq, pos, setter) of the iterator behind a reference"""
    v = ip.deref(r)
    if not (v.op == "adt" and v.args[0] == ITER):
        s = fix_map_seq(to_seq(ip, v, ty))
        if s.args[0] == "opaque":
            return None
        v = mk_iter(s)
        ip.write_ref(r, v)
    f = fields_of(v)
    return f["seq"], f["pos"]


def set_pos(ip, r, pos):
    v = ip.deref(r)
    ip.write_ref(r, mk("adt", ITER, "", (("seq", fields_of(v)["seq"]), ("pos", pos))))


def seq_next(ip, s, pos):
    """None at the end, else (item, next position); filtered items skip the iteration"""
    k = s.args[0]
    if k in ("filter", "filter_map"):
        r = seq_next(ip, s.args[1], pos)
        if r is None:
            return None
        x, p = r
        if k == "filter":
            if ip.branch(ip.call_value(s.args[2], [x], [None], None)):
                return x, p
            return "skip", p
        y = ip.call_value(s.args[2], [x], [None], None)
        if is_some(ip, y):
            return payload(ip, y, OPT, "Some"), p
        return "skip", p
    if k == "map" and base_of(s).args[0] in ("filter", "filter_map", "take_while"):
        r = seq_next(ip, s.args[1], pos)
        if r is None or r[0] == "skip":
            return r
        return ip.call_value(s.args[2], [r[0]], [None], None), r[1]
    if k == "take_while":
        r = seq_next(ip, s.args[1], pos)
        if r is None or r[0] == "skip":
            return r
        if ip.branch(ip.call_value(s.args[2], [r[0]], [None], None)):
            return r
        return None
    if infinite(s):
        return seq_at(ip, s, pos), add(pos, I(1))
    if not ip.branch(lt(pos, seq_len(ip, s))):
        return None
    return seq_at(ip, s, pos), add(pos, I(1))


def base_of(s):
    while s.args[0] in ("map", "enum", "copied") and len(s.args) > 1 and isinstance(s.args[1], T.Term) and s.args[1].op == "seq":
        s = s.args[1]
    return s


@model("Iterator::next")
def _(ip, c):
    r = c.args[0]
    f = local_impl(ip, "std::iter::Iterator", "next", c.rargs[0])
    if f is not None:
        return ip.call_local(f, [r], {}, c.tys, c.dty)
    if r.op != "ref":
        return None
    # &mut &mut I
    while ip.deref1(r).op == "ref":
        r = ip.deref1(r)
    stt = iter_state(ip, r, c.tys[0])
    if stt is None:
        return None
    s, pos = stt
    n = seq_next(ip, s, pos)
    if n is None:
        return NONE
    set_pos(ip, r, n[1])
    if n[0] == "skip":
        raise Continue()
    return some(n[0])


@model("DoubleEndedIterator::next_back")
def _(ip, c):
    return None


def drive(ip, s, body):
    """body(item) -> None to go on, or a tag to stop; returns the tag or None. `body` changes state only through cells."""
    k = s.args[0]
    if k == "list" and s.args[1].op == "list" and all(g[0] == "e" for g in s.args[1].args) and len(s.args[1].args) <= 8:
        for g in s.args[1].args:
            t = body(g[1])
            if t is not None:
                return t
        return None
    pc = ip.new_cell(I(0))
    no = pc[1]

    def runner():
        pos = ip.st.cells[pc]
        n = seq_next(ip, s, pos)
        if n is None:
            return ("exit", None)
        ip.st.cells[pc] = n[1]
        if n[0] == "skip":
            return ("back",)
        t = body(n[0])
        if t is None:
            return ("back",)
        return ("exit", t)
    keep = set(ip.st.cells)
    tag = ip.loop(runner, -1, keep)
    return tag[1]


def collect_list(ip, s):
    if s.args[0] == "list":
        return s.args[1]
    acc = ip.new_cell(lst())

    def push(x):
        ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), ("e", x))
    if flat_drive(ip, s, acc):
        return ip.st.cells.pop(acc)
    drive(ip, s, push)
    return ip.st.cells.pop(acc)


def flat_drive(ip, s, acc):
    if s.args[0] != "flat":
        return False

    def pushall(x):
        y = ip.call_value(s.args[2], [x], [None], None) if s.args[2] is not mk("fn", "identity") else x
        ys = collect_list(ip, fix_map_seq(to_seq(ip, y, None)))
        if ys.op in ("list",):
            ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), *ys.args)
        else:
            ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), ("s", ys))
    drive(ip, s.args[1], pushall)
    return True


@model("Iterator::collect", "FromIterator::from_iter")
def _(ip, c):
    dst = strip_refs(c.dty)
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    if s.args[0] == "opaque":
        return None
    return collect_into(ip, s, dst)


def collect_into(ip, s, dst):
    if dst is None or dst[0] not in ("adt", "slice"):
        return None
    n = dst[1].split("::")[-1] if dst[0] == "adt" else "Vec"
    if n == "Vec" or n == "VecDeque":
        return collect_list(ip, s)
    if n == "String":
        acc = ip.new_cell(Str(""))

        def push(x):
            x = ip.deref(x)
            if T.intlike(x) or (x.ty is not None and x.ty[0] == "char"):
                x = show(ip, CHAR, x)
            ip.st.cells[acc] = cat(ip.st.cells[acc], x)
        drive(ip, s, push)
        return ip.st.cells.pop(acc)
    if n in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        acc = ip.new_cell(empty_map())
        ref = mk("ref", acc, ())

        def ins(x):
            if n.endswith("Set"):
                map_insert(ip, ref, x, UNIT)
            else:
                x = ip.deref(x)
                a, b = (x.args[2][0][1], x.args[2][1][1]) if x.op == "adt" else (fld(x, "", "0", 2), fld(x, "", "1", 2))
                map_insert(ip, ref, a, b)
        drive(ip, s, ins)
        return ip.st.cells.pop(acc)
    if n in ("Result", "Option"):
        inner = dst[2][0]
        if strip_refs(inner)[0] != "adt" or not strip_refs(inner)[1].endswith("Vec"):
            return None
        acc = ip.new_cell(lst())
        bad = ip.new_cell(UNIT)

        def push(x):
            if n == "Result":
                if is_ok(ip, x):
                    ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), ("e", payload(ip, x, RES, "Ok", None)))
                    return None
                ip.st.cells[bad] = payload(ip, x, RES, "Err", None)
                return "stop"
            if is_some(ip, x):
                ip.st.cells[acc] = lst(("s", ip.st.cells[acc]), ("e", payload(ip, x, OPT, "Some", None)))
                return None
            return "stop"
        t = drive(ip, s, push)
        a, b = ip.st.cells.pop(acc), ip.st.cells.pop(bad)
        if t is None:
            return ok(a) if n == "Result" else some(a)
        return err(b) if n == "Result" else NONE
    return None


@model("Extend::extend")
def _(ip, c):
    r = c.args[0]
    t = strip_refs(c.rargs[0])
    n = t[1].split("::")[-1] if t[0] == "adt" else ""
    s = fix_map_seq(to_seq(ip, c.args[1], c.tys[1]))
    if n == "Vec":
        xs = collect_list(ip, s)
        cur = ip.deref(r)
        ip.write_ref(r, lst(("s", cur), *(xs.args if xs.op == "list" else (("s", xs),))))
        return UNIT
    if n == "String":
        ip.write_ref(r, cat(ip.deref(r), collect_into(ip, s, t)))
        return UNIT
    if n in ("HashMap", "HashSet"):
        def ins(x):
            if n == "HashSet":
                map_insert(ip, r, x, UNIT)
            else:
                x = ip.deref(x)
                a, b = (x.args[2][0][1], x.args[2][1][1]) if x.op == "adt" else (fld(x, "", "0", 2), fld(x, "", "1", 2))
                map_insert(ip, r, a, b)
        drive(ip, s, ins)
        return UNIT
    return None


@model("Iterator::for_each")
def _(ip, c):
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))

    def f(x):
        ip.call_value(c.args[1], [x], [None], None)
    drive(ip, s, f)
    return UNIT


@model("Iterator::sum", "Iterator::product", "Iterator::count")
def _(ip, c):
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    m = c.name.split("::")[1]
    if strip_refs(c.dty)[0] != "int":
        return None
    acc = ip.new_cell(I(1 if m == "product" else 0))

    def f(x):
        v = ip.st.cells[acc]
        x = ip.deref(x)
        ip.st.cells[acc] = add(v, I(1)) if m == "count" else add(v, x) if m == "sum" else mul(v, x)
    drive(ip, s, f)
    return ip.st.cells.pop(acc)


@model("Iterator::fold")
def _(ip, c):
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    acc = ip.new_cell(c.args[1])

    def f(x):
        ip.st.cells[acc] = ip.call_value(c.args[2], [ip.st.cells[acc], x], [None, None], None)
    drive(ip, s, f)
    return ip.st.cells.pop(acc)


@model("Iterator::try_fold", "Iterator::try_for_each")
def _(ip, c):
    s = fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))
    dst = strip_refs(c.dty)
    if dst is None or dst[0] != "adt" or dst[1] != RES:
        return None
    fe = c.name.endswith("for_each")
    acc = ip.new_cell(UNIT if fe else c.args[1])
    bad = ip.new_cell(UNIT)

    def f(x):
        r = ip.call_value(c.args[1] if fe else c.args[2], [x] if fe else [ip.st.cells[acc], x], None, None)
        if is_ok(ip, r):
            if not fe:
                ip.st.cells[acc] = payload(ip, r, RES, "Ok", res_ty(dst, 0))
            return None
        ip.st.cells[bad] = err_payload(ip, r, res_ty(dst, 1))
        return "stop"
    t = drive(ip, s, f)
    a, b = ip.st.cells.pop(acc), ip.st.cells.pop(bad)
    return ok(a) if t is None else err(b)


def seq_arg(ip, c):
    """consumers that take the iterator by mutable reference start at its position"""
    return fix_map_seq(to_seq(ip, c.args[0], c.tys[0]))


@model("Iterator::any", "Iterator::all", "Iterator::find", "Iterator::position", "Iterator::find_map")
def _(ip, c):
    s = seq_arg(ip, c)
    m = c.name.split("::")[1]
    if m in ("any", "all") and (s.args[0] == "chars" or s.args[0] == "opaque" and s.args[1].op == "app" and s.args[1].args[0] == "str::bytes"):
        x = s.args[1] if s.args[0] == "chars" else s.args[1].args[1]
        cs = pset(ip, c.args[1])
        if s.args[0] != "chars":
            # all the bytes of other characters are taken together, or none
            hi = T.cs_and(cs, ((128, 255),))
            cs = T.cs_and(cs, ((0, 127),)) if not hi else T.cs_union(T.cs_and(cs, ((0, 127),)), ((128, 0x10FFFF),)) if hi == ((128, 255),) else None
        if cs is not None:
            if m == "all":
                cs = not_in(cs)
            return has_char(ip, x, cs) if m == "any" else neg(has_char(ip, x, cs))
    if s.args[0] == "opaque":
        return None
    out = ip.new_cell(UNIT)
    cnt = ip.new_cell(I(0))

    def f(x):
        b = ip.call_value(c.args[1], [x], [None], None)
        if m == "find_map":
            if is_some(ip, b):
                ip.st.cells[out] = payload(ip, b, OPT, "Some")
                return "hit"
            return None
        h = ip.branch(b)
        if h != (m != "all"):
            ip.st.cells[cnt] = add(ip.st.cells[cnt], I(1))
            return None
        ip.st.cells[out] = ip.st.cells[cnt] if m == "position" else x
        return "hit"
    t = drive(ip, s, f)
    v = ip.st.cells.pop(out)
    ip.st.cells.pop(cnt, None)
    if m == "any":
        return B(t is not None)
    if m == "all":
        return B(t is None)
    return some(v) if t is not None else NONE


@model("Iterator::last")
def _(ip, c):
    s = seq_arg(ip, c)
    if base_of(s).args[0] in ("filter", "filter_map", "take_while", "skip_while", "flat"):
        if base_of(s).args[0] in ("skip_while", "flat"):
            return None
        out = ip.new_cell(NONE)

        def f(x):
            ip.st.cells[out] = some(x)
        drive(ip, s, f)
        return ip.st.cells.pop(out)
    n = seq_len(ip, s)
    if ip.branch(eq0(n)):
        return NONE
    return some(seq_at(ip, s, sub(n, I(1))))


@model("ExactSizeIterator::len")
def _(ip, c):
    return seq_len(ip, seq_arg(ip, c))


# ------------------------------------------------------------------------------------------ maps
def empty_map():
    return mk("adt", "map", "", (("entries", lst()),))


def entries(m):
    if m.op == "adt" and m.args[0] == "map":
        return m.args[2][0][1]
    return mk("ents", m)


def map_get(ip, m, k, ty):
    """the value or None"""
    es = entries(m)
    if es.op == "ents":
        es = lst(("s", es))
    if es.op != "list":
        es = mk("list", ("s", es))
    segs = list(es.args)
    k = ip.observe(ip.deref(k))
    while segs and segs[-1][0] == "e":
        e = segs[-1][1]
        if ip.branch(T.eq(ip.observe(e.args[2][0][1]), k)):
            return e.args[2][1][1]
        segs.pop()
    if not segs:
        return None
    rest = segs[0][1] if len(segs) == 1 and segs[0][0] == "s" else mk("list", *segs)
    if rest.op == "ents":
        rest = rest.args[0]
    if ip.branch(mk("has", rest, k)):
        return mk("mget", rest, k, ty=strip_refs(ty))
    return None


def map_insert(ip, r, k, v):
    m = ip.deref(r)
    es = entries(m)
    ip.write_ref(r, mk("adt", "map", "", (("entries", lst(("s", es), ("e", tup(ip.observe(k), v)))),)))


@model("HashMap::new", "HashSet::new", "HashMap::with_capacity", "HashSet::with_capacity", "BTreeMap::new", "BTreeSet::new")
def _(ip, c):
    return empty_map()


@model("HashMap::get", "BTreeMap::get")
def _(ip, c):
    v = map_get(ip, ip.deref(c.args[0]), c.args[1], opt_ty(c.dty))
    return NONE if v is None else some(v)


@model("HashMap::get_key_value")
def _(ip, c):
    t = strip_refs(opt_ty(c.dty))
    v = map_get(ip, ip.deref(c.args[0]), c.args[1], t[1][1] if t is not None and t[0] == "tuple" else None)
    return NONE if v is None else some(tup(ip.deref(c.args[1]), v))


@model("HashMap::contains_key", "HashSet::contains")
def _(ip, c):
    return B(map_get(ip, ip.deref(c.args[0]), c.args[1], None) is not None)


@model("HashMap::insert", "BTreeMap::insert")
def _(ip, c):
    m = ip.deref(c.args[0])
    old = mk("app", "mapold", entries(m), ip.observe(c.args[1]), ty=strip_refs(c.dty))
    map_insert(ip, c.args[0], c.args[1], c.args[2])
    return old


@model("HashSet::insert")
def _(ip, c):
    m = ip.deref(c.args[0])
    had = mk("app", "sethas", entries(m), ip.observe(c.args[1]))
    map_insert(ip, c.args[0], c.args[1], UNIT)
    return neg(had)


# ------------------------------------------------------------------------------------------ raw memory
@model("std::alloc::alloc", "alloc::alloc::alloc", "std::alloc::alloc_zeroed", "alloc::alloc::alloc_zeroed")
def _(ip, c):
    ip.st.nalloc += 1
    a = mk("alloc", ip.st.nalloc, tup(Str(c.name.split("::")[-1]), ip.observe(ip.deref(c.args[0]))))
    return a


@model("std::alloc::dealloc", "alloc::alloc::dealloc")
def _(ip, c):
    io(ip, mk("app", "dealloc", *[ip.observe(a) for a in c.args]))
    return UNIT


@model("std::alloc::handle_alloc_error", "alloc::alloc::handle_alloc_error")
def _(ip, c):
    raise Diverge()


@model("ptr::is_null")
def _(ip, c):
    p = c.args[0]
    return mk("app", "is_null", ip.observe(p))


@model("ptr::add", "ptr::offset", "ptr::wrapping_add")
def _(ip, c):
    b, o = ip.ptr_parts(c.args[0])
    return mk("ptr", b, add(o, c.args[1]))


@model("ptr::sub")
def _(ip, c):
    b, o = ip.ptr_parts(c.args[0])
    return mk("ptr", b, sub(o, c.args[1]))


@model("ptr::read", "std::ptr::read", "core::ptr::read", "ptr::read_unaligned", "ptr::read_volatile")
def _(ip, c):
    t = c.rargs[0] if c.rargs else None
    if t is not None and t[0] != "int" and c.args[0].op != "ptr":
        return ip.deref(c.args[0])
    return ip.mem_read(c.args[0])


@model("ptr::write", "std::ptr::write", "core::ptr::write")
def _(ip, c):
    ip.mem_write(c.args[0], c.args[1])
    return UNIT


@model("std::ptr::copy", "std::ptr::copy_nonoverlapping", "core::ptr::copy", "core::ptr::copy_nonoverlapping", "std::intrinsics::copy_nonoverlapping", "std::intrinsics::copy")
def _(ip, c):
    src, dst, n = c.args
    return mem_copy(ip, src, dst, n)


@model("ptr::copy_from", "ptr::copy_from_nonoverlapping")
def _(ip, c):
    return mem_copy(ip, c.args[1], c.args[0], c.args[2])


@model("ptr::copy_to", "ptr::copy_to_nonoverlapping")
def _(ip, c):
    return mem_copy(ip, c.args[0], c.args[1], c.args[2])


def mem_copy(ip, src, dst, n):
    K = mk("k", "copy")
    sb, so = ip.ptr_parts(src)
    db, do = ip.ptr_parts(dst)
    x = ip.mem_read(mk("ptr", sb, add(so, K)))
    f = E.make_fam(n, tup(add(do, K), x), K)
    cell = ip.heap_cell(db)
    h = ip.st.cells.get(cell)
    ip.st.cells[cell] = lst(*((("s", h),) if h is not None else ()), ("f", f))
    return UNIT


@model("std::ptr::write_bytes", "core::ptr::write_bytes", "ptr::write_bytes", "std::intrinsics::write_bytes")
def _(ip, c):
    K = mk("k", "copy")
    db, do = ip.ptr_parts(c.args[0])
    f = E.make_fam(c.args[2], tup(add(do, K), c.args[1]), K)
    cell = ip.heap_cell(db)
    h = ip.st.cells.get(cell)
    ip.st.cells[cell] = lst(*((("s", h),) if h is not None else ()), ("f", f))
    return UNIT


@model("std::slice::from_raw_parts", "core::slice::from_raw_parts")
def _(ip, c):
    p, n = c.args
    b, o = ip.ptr_parts(p)
    h = ip.st.cells.get(ip.heap_cell(b))
    return mk("mem", mk("ptr", b, o), n, h if h is not None else lst())


# ------------------------------------------------------------------------------------------ hashing
@model("Hash::hash")
def _(ip, c):
    f = local_impl(ip, "std::hash::Hash", "hash", c.rargs[0])
    if f is not None:
        env = {}
        return ip.call_local(f, [ip.deref(c.args[0]), c.args[1]], env, c.tys, c.dty)
    r = c.args[1]
    if r.op != "ref":
        return None
    ip.write_ref(r, mk("hashed", ip.deref(r), ip.observe(ip.deref(c.args[0]))))
    return UNIT


# ------------------------------------------------------------------------------------------ panics, input and output
def io(ip, ev):
    cell = ("io",)
    h = ip.st.cells.get(cell)
    ip.st.cells[cell] = lst(*((("s", h),) if h is not None else ()), ("e", ev))


@model("core::panicking::assert_failed", "core::panicking::panic", "core::panicking::panic_fmt", "std::rt::panic_fmt", "more_asserts::__private::assert_failed_nomsg",
       "more_asserts::__private::assert_failed_msg", "core::panicking::panic_display", "std::rt::begin_panic", "core::panicking::unreachable_display",
       "core::panicking::panic_explicit", "core::panicking::assert_matches_failed", "core::panicking::panic_nounwind", "std::process::abort",
       "core::option::expect_failed", "core::option::unwrap_failed", "core::result::unwrap_failed", "std::panic::panic_any", "core::panicking::panic_str_2015")
def _(ip, c):
    raise Diverge()


@model("std::process::exit")
def _(ip, c):
    raise Exit(ip.observe(c.args[0]))


@model("std::io::_print", "std::io::_eprint", "std::io::stdio::_print", "std::io::stdio::_eprint")
def _(ip, c):
    io(ip, mk("app", c.name.split("::")[-1], ip.deref(c.args[0])))
    return UNIT


# ------------------------------------------------------------------------------------------ calls through traits
@model("Fn::call", "FnMut::call_mut", "FnOnce::call_once")
def _(ip, c):
    return ip.call_value(c.args[0], c.args[1:], c.tys[1:], c.dty, True)


def local_model(ip, fn, r, args, tys, rargs, dty):
    """workspace functions with a meaning of their own"""
    t = (fn.trait or "").split("::")[-1]
    if t == "Clone" and fn.name == "clone" and fn.derived:
        if not has_raw(ip, fn.selfty):
            return ip.deref(args[0])
        return None
    if t == "PartialEq" and fn.name == "eq" and fn.derived and not has_raw(ip, fn.selfty):
        return values_eq(ip, fn.selfty, args[0], args[1])
    if t == "Display" and fn.name == "fmt":
        if buf_append(ip, args[1], show(ip, fn.selfty, ip.deref(args[0]))):
            return OK_UNIT
        return None
    return None


# ------------------------------------------------------------------------------------------ nom
def comb(name, *args):
    return mk("adt", "nom:" + name, "", tuple((str(i), a) for i, a in enumerate(args)))


for _n in ("nom::bytes::complete::tag", "nom::bytes::complete::take_while1", "nom::bytes::complete::take_while", "nom::bytes::complete::take_till",
           "nom::bytes::complete::take_till1", "nom::bytes::complete::is_not", "nom::bytes::complete::is_a", "nom::character::complete::one_of",
           "nom::character::complete::none_of", "nom::character::complete::char", "nom::character::complete::satisfy", "nom::combinator::all_consuming", "nom::combinator::map_res", "nom::combinator::map",
           "nom::combinator::opt", "nom::combinator::value", "nom::combinator::recognize", "nom::combinator::verify", "nom::combinator::cut", "nom::combinator::map_opt",
           "nom::combinator::not", "nom::combinator::peek", "nom::multi::many0", "nom::multi::many1", "nom::sequence::pair", "nom::sequence::preceded",
           "nom::sequence::terminated", "nom::sequence::delimited", "nom::sequence::tuple", "nom::branch::alt", "nom::multi::separated_list0", "nom::multi::separated_list1",
           "nom::multi::many0_count", "nom::multi::many1_count", "nom::multi::fold_many0", "nom::bytes::complete::take", "nom::sequence::separated_pair", "nom::bytes::complete::tag_no_case"):
    def _c(ip, c, n=_n.split("::")[-1]):
        return comb(n, *[ip.deref(a) for a in c.args])
    MODELS[_n] = _c


def static_users(P):
    r = getattr(P, "_static_users", None)
    if r is None:
        r = P._static_users = {}

        def walk(x, f):
            if isinstance(x, dict):
                if "static" in x:
                    r.setdefault(x["static"], set()).add(f.key)
                for v in x.values():
                    walk(v, f)
            elif isinstance(x, (list, tuple)):
                for v in x:
                    walk(v, f)
        for f in P.fns.values():
            if f.body is not None:
                walk([b for b in f.body.blocks], f)
                for b in (f.promoted or {}).values() if isinstance(f.promoted, dict) else (f.promoted or []):
                    walk([x for x in b.blocks], f)
    return r


@model("OnceLock::get_or_init", "OnceCell::get_or_init")
def _(ip, c):
    """the value of a cell that is only filled in here is what this call fills in"""
    cell = ip.deref(c.args[0])
    v = ip.observe(ip.call_value(c.args[1], [], [], None))
    if cell.op == "app" and str(cell.args[0]).startswith("static:"):
        n = str(cell.args[0])[7:]
        us = [u for k, us in static_users(ip.P).items() if k in ip.P.fns and ip.N.cid(ip.P.fns[k]) == n for u in us]
        if len(us) == 1:
            return v
    return mk("app", "OnceLock::get_or_init", cell, v, ty=v.ty)


@model("nom::combinator::into")
def _(ip, c):
    # into<I, O1, O2, E1, E2, F>
    return mk("adt", "nom:into", "", (("0", ip.deref(c.args[0])), ("1", Str(ty_reg(ip, c.rargs[1]))), ("2", Str(ty_reg(ip, c.rargs[2])))))


TYREG = {}


def ty_reg(ip, t):
    n = ip.N.ty(t)
    TYREG[(id(ip), n)] = t
    return n


def adv(p, n):
    if n == 0:
        return p
    if p.op == "adv":
        return mk("adv", p.args[0], p.args[1] + n)
    return mk("adv", p, n)


def pset(ip, pred):
    """the set of characters a predicate accepts"""
    P = mk("sym", "charset-probe")
    h = mk("head", P)
    out = []

    def runner():
        ip.st.facts.heads.pop(P, None)
        b = ip.branch(ip.call_value(pred, [h], [CHAR], None))
        hs = ip.st.facts.heads.get(P, T.UNIVERSE)
        lo, hi = 0, 0x10FFFF
        if any(E.contains_t(c, h) for c in ip.st.conds):
            # comparisons with constants
            for l in ip.st.facts.lins:
                cst, p = T.lin_parts(l)
                if len(p) == 1 and p[0][0] is h:
                    k = p[0][1]
                    if k > 0:
                        hi = min(hi, (-cst) // k)
                    else:
                        lo = max(lo, -((-cst) // (-k)) if False else -(cst // k) if cst % k else cst // -k)
            for l in ip.st.facts.neqs:
                cst, p = T.lin_parts(l)
                if len(p) == 1 and p[0][0] is h and abs(p[0][1]) == 1:
                    v = -cst * p[0][1]
                    hs = T.cs_and(hs, T.cs_not(((v, v),)))
            for cnd in ip.st.conds:
                if E.contains_t(cnd, h) and cnd.op not in ("le0", "eq0", "hin") and not (cnd.op == "not" and cnd.args[0].op == "eq0"):
                    raise Abort("character predicate")
        hs = T.cs_and(hs, ((lo, hi),))
        out.append((b, T.cs_char(hs)))
        return ("back",)
    H = ip.st.copy()
    H.conds = []
    ip.explore_body(runner, H, ("pset",))
    r = ()
    for b, s in out:
        if b:
            r = T.cs_union(r, s)
    return r


def charset_of_list(v):
    if v.op == "str":
        return T.cs_of(v.args[0])
    if v.op == "list" and all(s[0] == "e" and const_of(s[1]) is not None for s in v.args):
        return T.cs_norm([(const_of(s[1]), const_of(s[1])) for s in v.args])
    return None


def single(ip, f):
    """character set of a parser that accepts exactly one character"""
    if f.op != "adt":
        return None
    n = f.args[0][4:]
    a = [v for _, v in f.args[2]]
    if n == "tag" and a[0].op == "str" and len(a[0].args[0]) == 1:
        return T.cs_of(a[0].args[0])
    if n == "one_of":
        return charset_of_list(a[0])
    if n == "char" and const_of(a[0]) is not None:
        c = const_of(a[0])
        return ((c, c),)
    if n == "none_of":
        cs = charset_of_list(a[0])
        return None if cs is None else T.cs_char(T.cs_not(cs))
    if n == "satisfy":
        return pset(ip, a[0])
    if n == "alt":
        t = a[0]
        if t.op == "adt":
            out = ()
            for _, p in t.args[2]:
                s = single(ip, p)
                if s is None:
                    return None
                out = T.cs_union(out, s)
            return out
    if n == "recognize":
        return single(ip, a[0])
    return None


def ires(rest, v):
    return ok(tup(rest, v))


FAIL = err(NOMERR)


def take(ip, i, cs, atleast1):
    if not ip.branch(mk("hin", i, cs)):
        return FAIL if atleast1 else ires(i, Str(""))
    return ires(mk("after", i, cs), mk("span", i, cs, ty=STR))


def split_ires(ip, r, ty=None):
    """(rest, value) or None"""
    if not is_ok(ip, r):
        return None
    p = payload(ip, r, RES, "Ok")
    if p.op == "adt":
        return p.args[2][0][1], p.args[2][1][1]
    return fld(p, "", "0", 2, STR), fld(p, "", "1", 2, ty)


def call_comb(ip, f, args, tys, dty):
    if not (f.op == "adt" and str(f.args[0]).startswith("nom:")):
        if f.op == "fn" and f.args[0] == "identity":
            return args[0]
        return ip.opaque("app", "call", [f] + list(args), None, dty)
    i = ip.deref(args[0])
    if i.op == "adt" and i.args[0] == "tuple" and len(i.args[2]) == 1:
        i = ip.deref(i.args[2][0][1])
    ot = None
    d = strip_refs(dty)
    if d is not None and d[0] == "adt" and d[1] == RES and strip_refs(d[2][0])[0] == "tuple":
        ot = strip_refs(d[2][0])[1][1]
    return parse(ip, f, i, ot)


def parse(ip, f, i, ot=None):
    f = ip.deref(f)
    if f.op == "fn" or (f.op == "adt" and str(f.args[0]).startswith("closure:")):
        return ip.call_value(f, [i], [STR], None)
    if f.op != "adt":
        return ip.opaque("app", "parse_with", [f, i], None, None)
    n = f.args[0][4:]
    a = [v for _, v in f.args[2]]
    if n == "tag" and a[0].op == "str":
        s = a[0].args[0]
        for j, ch in enumerate(s):
            if not ip.branch(mk("hin", adv(i, j), T.cs_of(ch))):
                return FAIL
        return ires(adv(i, len(s)), a[0])
    if n in ("one_of", "none_of", "char", "satisfy"):
        cs = single(ip, f)
        if cs is not None:
            if not ip.branch(mk("hin", i, cs)):
                return FAIL
            h = mk("head", i, ty=CHAR)
            c = ip.norm(h)
            return ires(adv(i, 1), c)
    if n in ("take_while1", "take_while", "take_till", "take_till1", "is_not", "is_a"):
        if n in ("is_not", "is_a"):
            cs = charset_of_list(a[0])
        else:
            cs = pset(ip, a[0])
        if cs is not None:
            if n in ("take_till", "take_till1", "is_not"):
                cs = T.cs_char(T.cs_not(cs))
            return take(ip, i, cs, n in ("take_while1", "take_till1", "is_not", "is_a"))
    if n in ("many0", "many1", "many0_count", "many1_count"):
        cs = single(ip, a[0])
        if cs is not None:
            r = take(ip, i, cs, n.startswith("many1"))
            if r is FAIL:
                return r
            rest, v = split_ires(ip, r)
            return ires(rest, mk("app", n + "_of", v, a[0]) if v.op != "str" else lst() if not n.endswith("count") else I(0))
    if n == "opt":
        r = split_ires(ip, parse(ip, a[0], i))
        return ires(i, NONE) if r is None else ires(r[0], some(r[1]))
    if n == "alt":
        t = a[0]
        if t.op == "adt":
            for _, p in t.args[2]:
                r = parse(ip, p, i)
                x = split_ires(ip, r)
                if x is not None:
                    return ires(*x)
            return FAIL
    if n in ("map_res", "map_opt", "map", "verify", "value", "into", "all_consuming", "recognize", "peek", "cut"):
        p = a[1] if n == "value" else a[0]
        it = None
        x = split_ires(ip, parse(ip, p, i), TYREG.get((id(ip), a[1].args[0])) if n == "into" else None)
        if x is None:
            return FAIL
        rest, v = x
        if n == "map_res":
            r = ip.call_value(a[1], [v], [None], None)
            return ires(rest, payload(ip, r, RES, "Ok", ot)) if is_ok(ip, r) else FAIL
        if n == "map_opt":
            r = ip.call_value(a[1], [v], [None], None)
            return ires(rest, payload(ip, r, OPT, "Some", ot)) if is_some(ip, r) else FAIL
        if n == "map":
            return ires(rest, ip.call_value(a[1], [v], [None], None))
        if n == "verify":
            return ires(rest, v) if ip.branch(ip.call_value(a[1], [v], [None], None)) else FAIL
        if n == "value":
            return ires(rest, a[0])
        if n == "into":
            s, d = TYREG[(id(ip), a[1].args[0])], TYREG[(id(ip), a[2].args[0])]
            return ires(rest, convert(ip, s, d, v))
        if n == "all_consuming":
            return ires(rest, v) if ip.branch(mk("hin", rest, T.EOF_SET)) else FAIL
        if n == "peek":
            return ires(i, v)
        if n == "cut":
            raise Abort("cut")
        if n == "recognize":
            return ires(rest, mk("app", "between", i, rest, ty=STR))
    if n in ("pair", "preceded", "terminated", "delimited", "tuple", "separated_pair"):
        ps = a
        if n == "tuple":
            if a[0].op != "adt":
                raise Abort("tuple parser")
            ps = [v for _, v in a[0].args[2]]
        vs = []
        cur = i
        for p in ps:
            x = split_ires(ip, parse(ip, p, cur))
            if x is None:
                return FAIL
            cur = x[0]
            vs.append(x[1])
        if n == "preceded":
            return ires(cur, vs[1])
        if n == "terminated":
            return ires(cur, vs[0])
        if n == "delimited":
            return ires(cur, vs[1])
        if n == "separated_pair":
            return ires(cur, tup(vs[0], vs[2]))
        return ires(cur, tup(*vs))
    if n == "not":
        x = split_ires(ip, parse(ip, a[0], i))
        return ires(i, UNIT) if x is None else FAIL
    # anything else: an uninterpreted parser
    g = ip.observe(f)
    if ip.branch(mk("app", "parses", g, i)):
        return ires(mk("app", "parse_rest", g, i, ty=STR), mk("app", "parse_value", g, i, ty=strip_refs(ot)))
    return FAIL


@model("nom::combinator::eof")
def _(ip, c):
    i = ip.deref(c.args[0])
    return ires(i, Str("")) if ip.branch(mk("hin", i, T.EOF_SET)) else FAIL


@model("Parser::parse")
def _(ip, c):
    if len(c.args) < 2:
        return None
    return parse(ip, c.args[0], ip.deref(c.args[1]))
