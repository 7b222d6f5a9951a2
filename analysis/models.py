"""Transfer functions for the standard library (and the few third-party
functions the repository calls), over the abstract values of terms.py."""
import terms as T
from terms import *
from facts import head

MODELS = {}
from absint import left_base, PANIC, DIVERGE, RETRY, Undecided, FnRef, NUMPRIM, is_box  # noqa: E402


def model(*paths):
    def deco(f):
        for p in paths:
            MODELS[p] = f
        return f
    return deco


def O(*names):
    return ["core::option::Option::" + n for n in names]


def R(*names):
    return ["core::result::Result::" + n for n in names]


ITER = "core::iter::traits::iterator::Iterator::"
DEI = "core::iter::traits::double_ended::DoubleEndedIterator::"
ESI = "core::iter::traits::exact_size::ExactSizeIterator::"
VEC = "alloc::vec::Vec::"
ORD = "core::cmp::Ordering"

# identity-like -------------------------------------------------------------
IDENT = """core::clone::Clone::clone alloc::borrow::ToOwned::to_owned core::convert::AsRef::as_ref
core::convert::AsMut::as_mut core::ops::deref::Deref::deref core::ops::deref::DerefMut::deref_mut
core::borrow::Borrow::borrow core::borrow::BorrowMut::borrow_mut alloc::boxed::Box::new alloc::string::String::as_str
alloc::vec::Vec::as_slice alloc::vec::Vec::as_mut_slice slice::to_vec alloc::slice::to_vec alloc::slice::into_vec slice::into_vec
alloc::vec::Vec::into_boxed_slice alloc::string::String::into_boxed_str str::to_owned str::into_string
core::option::Option::copied core::option::Option::cloned core::option::Option::as_ref core::option::Option::as_deref
core::result::Result::copied core::result::Result::cloned core::result::Result::as_ref
core::hint::must_use core::hint::black_box core::convert::identity alloc::string::String::into_string
alloc::rc::Rc::new alloc::sync::Arc::new alloc::boxed::Box::as_ref alloc::boxed::Box::into_inner alloc::boxed::Box::from
alloc::string::String::from alloc::vec::Vec::from core::iter::traits::iterator::Iterator::fuse
core::iter::traits::iterator::Iterator::cloned core::iter::traits::iterator::Iterator::copied
alloc::boxed::Box::leak str::as_str slice::as_slice alloc::str::to_owned array::as_slice array::as_ref
proc_macro2::Span::into proc_macro2::Span::unwrap""".split()


def ident(I, st, fn, args, atys, dty):
    return [(st, args[0])]


for _p in IDENT:
    MODELS[_p] = ident


@model("alloc::string::ToString::to_string")
def to_string(I, st, fn, args, atys, dty):
    t = fn.args[0] if fn.args else None
    while t is not None and t.k == "ref":
        t = t.t
    if t is not None and (t.g == "str" or t.g == "alloc::string::String"):
        return [(st, args[0])]
    return [(st, ("op", "to_string", I.content(st, args[0])))]


@model("core::mem::replace", "core::mem::take", "core::mem::swap", "core::option::Option::take", "core::option::Option::replace")
def mem_ops(I, st, fn, args, atys, dty):
    st = st.copy()
    n = fn.path.split("::")[-1]
    r, p = I.deref_root(st, args[0])
    old = I.read_loc(st, r, p)
    if n == "swap":
        r2, p2 = I.deref_root(st, args[1])
        o2 = I.read_loc(st, r2, p2)
        I.write_loc(st, r, p, o2)
        I.write_loc(st, r2, p2, old)
        return [(st, UNIT)]
    if fn.path.startswith("core::option"):
        I.write_loc(st, r, p, NONE if n == "take" else Some(args[1]))
        return [(st, old)]
    if n == "replace":
        I.write_loc(st, r, p, args[1])
        return [(st, old)]
    out = []
    for s, d in default_of(I, st, fn.args[0] if fn.args else dty):
        s = s.copy()
        I.write_loc(s, r, p, d)
        out.append((s, old))
    return out


@model("core::mem::drop", "core::mem::forget")
def mem_drop(I, st, fn, args, atys, dty):
    return [(st, UNIT)]


# defaults ------------------------------------------------------------------
def default_of(I, st, ty):
    if ty.k == "adt":
        if ty.path in ("alloc::vec::Vec",):
            return [(st, EMPTY)]
        if ty.path == "alloc::string::String":
            return [(st, EMPTY)]
        if ty.path in ("alloc::collections::btree::set::BTreeSet", "std::collections::hash::set::HashSet"):
            return [(st, SEMPTY)]
        if ty.path in ("std::collections::hash::map::HashMap", "alloc::collections::btree::map::BTreeMap"):
            return [(st, ("mempty",))]
        if ty.path == OPT:
            return [(st, NONE)]
        if is_box(ty):
            return default_of(I, st, ty.args[0])
        b = I.p.method("core::default::Default", ty.path, "default")
        if b is not None:
            return [(o.st, o.val if o.kind == "ret" else PANIC) for o in I.call_body(st, b, [], 1, ())]
    if ty.k == "prim":
        if ty.s == "bool":
            return [(st, FALSE)]
        if ty.s in NUMPRIM:
            return [(st, Int(0))]
        if ty.s == "str":
            return [(st, EMPTY)]
    if ty.k == "ref":
        return default_of(I, st, ty.t)
    if ty.k == "tuple":
        vals = []
        for a in ty.args:
            r = default_of(I, st, a)
            if len(r) != 1:
                return [(st, ("unk", "default:" + ty.g))]
            st, v = r[0]
            vals.append(v)
        return [(st, mk_tup(vals))]
    return [(st, ("unk", "default:" + ty.g))]


@model("core::default::Default::default")
def default(I, st, fn, args, atys, dty):
    return default_of(I, st, dty if dty is not None else fn.args[0])


@model(VEC + "new", VEC + "with_capacity", "alloc::string::String::new", "alloc::string::String::with_capacity",
       "alloc::collections::vec_deque::VecDeque::new")
def vec_new(I, st, fn, args, atys, dty):
    return [(st, EMPTY)]


@model("alloc::collections::btree::set::BTreeSet::new", "std::collections::hash::set::HashSet::new")
def set_new(I, st, fn, args, atys, dty):
    return [(st, SEMPTY)]


@model("std::collections::hash::map::HashMap::new", "alloc::collections::btree::map::BTreeMap::new",
       "std::collections::hash::map::HashMap::with_capacity")
def map_new(I, st, fn, args, atys, dty):
    return [(st, ("mempty",))]


# conversions ---------------------------------------------------------------
def convert(I, st, v, src, dst):
    if src.g == dst.g:
        return [(st, v)]
    d = I.p.from_impls.get((dst.g, src.g))
    if d is not None and d in I.p.bodies:
        return [(o.st, o.val if o.kind == "ret" else PANIC) for o in I.call_body(st, I.p.bodies[d], [v], 1, ())]
    if dst.k == "prim" and dst.s in NUMPRIM and src.k == "prim" and src.s in NUMPRIM:
        if v[0] == "char":
            return [(st, Int(v[1]) if dst.s != "char" else v)]
        if dst.s == "char" and is_int(v):
            return [(st, Char(v[1]))]
        return [(st, v)]
    if src.k == "prim" and src.s == "bool" and dst.k == "prim" and dst.s in NUMPRIM:
        return [(s, Int(1 if t else 0)) for s, t in I.branch(st, v)]
    strs = ("alloc::string::String", "str", "&str")
    if dst.g in strs and src.g in strs + ("&alloc::string::String",):
        return [(st, v)]
    if dst.k == "adt" and dst.path == OPT and dst.args[0].g == src.g:
        return [(st, Some(v))]
    if is_box(dst):
        return [(st, v)]
    if is_box(src):
        return [(st, v)]
    if dst.k == "adt" and dst.path == "alloc::vec::Vec":
        return [(st, v)]
    return [(st, ("op", "into", v, Str(dst.g)))]


@model("core::convert::Into::into")
def into(I, st, fn, args, atys, dty):
    return convert(I, st, args[0], fn.args[0], fn.args[1])


@model("core::convert::From::from")
def from_(I, st, fn, args, atys, dty):
    dst = fn.args[0]
    src = fn.args[1] if len(fn.args) > 1 else (atys[0] if atys else None)
    if src is None:
        return None
    return convert(I, st, args[0], src, dst)


@model("core::convert::TryInto::try_into", "core::convert::TryFrom::try_from")
def try_into(I, st, fn, args, atys, dty):
    v = args[0]
    if fn.path.endswith("try_into"):
        src, dst = fn.args[0], fn.args[1]
    else:
        dst, src = fn.args[0], fn.args[1]
    key = ("op", "try_into", v, Str(src.g), Str(dst.g))
    out = []
    for s, k in I.fork_variant(st, key, RES):
        out.append((s, Ok(v if (src.k == "prim" and dst.k == "prim") else fld(key, RES, 0, 0)) if k == 0 else Err(fld(key, RES, 1, 0))))
    return out


# Try -----------------------------------------------------------------------
@model("core::ops::try_trait::Try::branch")
def try_branch(I, st, fn, args, atys, dty):
    v = args[0]
    t = fn.args[0]
    out = []
    if t.k == "adt" and t.path == OPT:
        for s, k in I.fork_variant(st, v, OPT):
            out.append((s, mk_adt(CF, 0, (fld(v, OPT, 1, 0),)) if k == 1 else ("adt", CF, 1, (NONE,))))
        return out
    if t.k == "adt" and t.path == RES:
        for s, k in I.fork_variant(st, v, RES):
            if k == 0:
                out.append((s, ("adt", CF, 0, (fld(v, RES, 0, 0),))))
            else:
                out.append((s, ("adt", CF, 1, (("adt", RES, 1, (fld(v, RES, 1, 0),)),))))
        return out
    if t.k == "adt" and t.path == CF:
        return [(st, v)]
    return None


@model("core::ops::try_trait::FromResidual::from_residual")
def from_residual(I, st, fn, args, atys, dty):
    v = args[0]
    d = fn.args[0]
    r = fn.args[1] if len(fn.args) > 1 else atys[0]
    if d.k == "adt" and d.path == OPT:
        return [(st, NONE)]
    if d.k == "adt" and d.path == RES:
        out = []
        e = fld(v, RES, 1, 0)
        src = r.args[1]
        h = I.prims.get("core::convert::From::from")
        if h is not None and src.g != d.args[1].g:
            o = h(I, st, FnRef(("core::convert::From::from", "core::convert::From::from", "core::convert::From", (d.args[1], src), None, None, ())), [e], [src], d.args[1])
            if o is not None:
                return [(s, PANIC if x is PANIC else ("adt", RES, 1, (x,))) for s, x in o]
        for s, x in convert(I, st, e, src, d.args[1]):
            out.append((s, PANIC if x is PANIC else ("adt", RES, 1, (x,))))
        return out
    return None


@model("core::ops::try_trait::Try::from_output")
def from_output(I, st, fn, args, atys, dty):
    d = fn.args[0]
    if d.path == OPT:
        return [(st, Some(args[0]))]
    if d.path == RES:
        return [(st, Ok(args[0]))]


# Option / Result -------------------------------------------------------------
def with_opt(I, st, v, some, none):
    out = []
    for s, k in I.fork_variant(st, v, OPT):
        out += some(s, fld(v, OPT, 1, 0)) if k == 1 else none(s)
    return out


def with_res(I, st, v, ok, err):
    out = []
    for s, k in I.fork_variant(st, v, RES):
        out += ok(s, fld(v, RES, 0, 0)) if k == 0 else err(s, fld(v, RES, 1, 0))
    return out


def wrap(rs, f):
    return [(s, PANIC if v is PANIC else f(v)) for s, v in rs]


def same(v):
    return lambda s, *_: [(s, v)]


OPTM = {
    "map": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: wrap(I.call_value(s, a[1], (x,)), Some), same(NONE)),
    "and_then": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: I.call_value(s, a[1], (x,)), same(NONE)),
    "ok_or": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, Ok(x))], same(Err(a[1]))),
    "ok_or_else": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, Ok(x))], lambda s: wrap(I.call_value(s, a[1], ()), Err)),
    "unwrap_or": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, x)], same(a[1])),
    "unwrap_or_else": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, x)], lambda s: I.call_value(s, a[1], ())),
    "unwrap": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, x)], same(PANIC)),
    "expect": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, x)], same(PANIC)),
    "is_some": lambda I, st, a: [(st, isv(a[0], OPT, 1))],
    "is_none": lambda I, st, a: [(st, Not(isv(a[0], OPT, 1)))],
    "is_some_and": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: I.call_value(s, a[1], (x,)), same(FALSE)),
    "is_none_or": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: I.call_value(s, a[1], (x,)), same(TRUE)),
    "or": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, Some(x))], same(a[1])),
    "or_else": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, Some(x))], lambda s: I.call_value(s, a[1], ())),
    "and": lambda I, st, a: with_opt(I, st, a[0], same(a[1]), same(NONE)),
    "map_or": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: I.call_value(s, a[2], (x,)), same(a[1])),
    "map_or_else": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: I.call_value(s, a[2], (x,)), lambda s: I.call_value(s, a[1], ())),
    "flatten": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, x)], same(NONE)),
    "filter": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s3, Some(x) if b else NONE) for s2, r in I.call_value(s, a[1], (x,)) for s3, b in I.branch(s2, r)], same(NONE)),
    "zip": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: with_opt(I, s, a[1], lambda s2, y: [(s2, Some(("tup", (x, y))))], same(NONE)), same(NONE)),
    "transpose": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: with_res(I, s, x, lambda s2, y: [(s2, Ok(Some(y)))], lambda s2, e: [(s2, Err(e))]), same(Ok(NONE))),
    "inspect": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s2, Some(x)) for s2, _ in I.call_value(s, a[1], (x,))], same(NONE)),
    "iter": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, ("it", "seq", seq_lit(x)))], same(("it", "seq", EMPTY))),
    "into_iter": lambda I, st, a: with_opt(I, st, a[0], lambda s, x: [(s, ("it", "seq", seq_lit(x)))], same(("it", "seq", EMPTY))),
    "xor": None,
}
RESM = {
    "map": lambda I, st, a: with_res(I, st, a[0], lambda s, x: wrap(I.call_value(s, a[1], (x,)), Ok), lambda s, e: [(s, Err(e))]),
    "map_err": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, Ok(x))], lambda s, e: wrap(I.call_value(s, a[1], (e,)), Err)),
    "and_then": lambda I, st, a: with_res(I, st, a[0], lambda s, x: I.call_value(s, a[1], (x,)), lambda s, e: [(s, Err(e))]),
    "or_else": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, Ok(x))], lambda s, e: I.call_value(s, a[1], (e,))),
    "ok": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, Some(x))], lambda s, e: [(s, NONE)]),
    "err": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, NONE)], lambda s, e: [(s, Some(e))]),
    "unwrap": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, x)], same(PANIC)),
    "expect": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, x)], same(PANIC)),
    "unwrap_err": lambda I, st, a: with_res(I, st, a[0], same(PANIC), lambda s, e: [(s, e)]),
    "unwrap_or": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, x)], same(a[1] if len(a) > 1 else None)),
    "unwrap_or_else": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, x)], lambda s, e: I.call_value(s, a[1], (e,))),
    "is_ok": lambda I, st, a: [(st, isv(a[0], RES, 0))],
    "is_err": lambda I, st, a: [(st, Not(isv(a[0], RES, 0)))],
    "map_or": lambda I, st, a: with_res(I, st, a[0], lambda s, x: I.call_value(s, a[2], (x,)), same(a[1])),
    "map_or_else": lambda I, st, a: with_res(I, st, a[0], lambda s, x: I.call_value(s, a[2], (x,)), lambda s, e: I.call_value(s, a[1], (e,))),
    "and": lambda I, st, a: with_res(I, st, a[0], same(a[1]), lambda s, e: [(s, Err(e))]),
    "or": lambda I, st, a: with_res(I, st, a[0], lambda s, x: [(s, Ok(x))], same(a[1])),
    "transpose": lambda I, st, a: with_res(I, st, a[0], lambda s, x: with_opt(I, s, x, lambda s2, y: [(s2, Some(Ok(y)))], same(NONE)), lambda s, e: [(s, Some(Err(e)))]),
    "is_err_and": lambda I, st, a: with_res(I, st, a[0], same(FALSE), lambda s, x: I.call_value(s, a[1], (x,))),
    "is_ok_and": lambda I, st, a: with_res(I, st, a[0], lambda s, x: I.call_value(s, a[1], (x,)), same(FALSE)),
    "iter": None,
}


def isv(v, path, k):
    if v[0] == "adt":
        return B(v[2] == k)
    if path == OPT and k == 0:
        return Not(("isv", v, OPT, 1))
    if path == RES and k == 1:
        return Not(("isv", v, RES, 0))
    return ("isv", v, path, k)


def _mk(f):
    return lambda I, st, fn, args, atys, dty: f(I, st, args)


for _n, _f in OPTM.items():
    if _f:
        MODELS["core::option::Option::" + _n] = _mk(_f)
for _n, _f in RESM.items():
    if _f:
        MODELS["core::result::Result::" + _n] = _mk(_f)


@model("core::option::Option::unwrap_or_default", "core::result::Result::unwrap_or_default")
def unwrap_or_default(I, st, fn, args, atys, dty):
    if "option" in fn.path:
        return with_opt(I, st, args[0], lambda s, x: [(s, x)], lambda s: default_of(I, s, dty))
    return with_res(I, st, args[0], lambda s, x: [(s, x)], lambda s, e: default_of(I, s, dty))


@model("core::option::Option::as_mut", "core::option::Option::as_deref_mut")
def opt_as_mut(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p = I.deref_root(st, args[0])
    v = I.read_loc(st, r, p)
    out = []
    for s, k in I.fork_variant(st, v, OPT):
        out.append((s, Some(("ref", r, p + (("f", OPT, 1, 0, 1),))) if k == 1 else NONE))
    return out


@model("core::option::Option::get_or_insert_with", "core::option::Option::insert", "core::option::Option::get_or_insert")
def opt_insert(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p = I.deref_root(st, args[0])
    v = I.read_loc(st, r, p)
    ref = ("ref", r, p + (("f", OPT, 1, 0, 1),))
    n = fn.path.split("::")[-1]
    if n == "insert":
        I.write_loc(st, r, p, Some(args[1]))
        return [(st, ref)]
    out = []
    for s, k in I.fork_variant(st, v, OPT):
        if k == 1:
            out.append((s, ref))
        else:
            rs = I.call_value(s, args[1], ()) if n.endswith("with") else [(s, args[1])]
            for s2, x in rs:
                if x is PANIC:
                    out.append((s2, PANIC))
                    continue
                s2 = s2.copy()
                I.write_loc(s2, r, p, Some(x))
                out.append((s2, ref))
    return out


@model("bool::then", "bool::then_some", "core::bool::then", "core::bool::then_some")
def bool_then(I, st, fn, args, atys, dty):
    out = []
    for s, b in I.branch(st, args[0]):
        if not b:
            out.append((s, NONE))
        elif fn.path.endswith("some"):
            out.append((s, Some(args[1])))
        else:
            out += wrap(I.call_value(s, args[1], ()), Some)
    return out


# closures ------------------------------------------------------------------
@model("core::ops::function::FnOnce::call_once", "core::ops::function::FnMut::call_mut", "core::ops::function::Fn::call")
def call_closure(I, st, fn, args, atys, dty):
    a = args[1]
    if a[0] == "tup":
        a = a[1]
    else:
        ty = atys[1] if atys else None
        n = len(ty.args) if ty is not None and ty.k == "tuple" else 1
        a = tuple(fld(a, "()", 0, i) for i in range(n))
    return I.call_value(st, args[0], a)


# comparisons -----------------------------------------------------------------
def strip(ty):
    while ty is not None and ty.k == "ref":
        ty = ty.t
    return ty


def cval(I, st, v):
    return I.read_loc(st, v[1], v[2]) if v[0] == "ref" else v


@model("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne")
def peq(I, st, fn, args, atys, dty):
    a, b = cval(I, st, args[0]), cval(I, st, args[1])
    out = []
    t, u = strip(fn.args[0]), strip(fn.args[1]) if len(fn.args) > 1 else None
    if t is not None and u is not None and t.k == "adt" and u.g != t.g:
        # compared with something of another type
        for im in I.p.impl_of.get(("core::cmp::PartialEq", t.path), []):
            x = im["trait_args"][1] if len(im["trait_args"]) > 1 else None
            body = next((I.p.bodies.get(d) for n, d in im["items"] if n == "eq"), None)
            if x is not None and body is not None and (x.g == u.g or x.k == "param"):
                if x.k == "param":
                    body = I.p.at_types(body, [u])
                return [(o.st, PANIC if o.kind != "ret" else o.val if fn.path.endswith("eq") else Not(o.val))
                        for o in I.call_body(st, body, [a, b], 1, ())]
    for s, r in eq_values(I, st, a, b, t):
        out.append((s, r if r is PANIC or fn.path.endswith("eq") else Not(r)))
    return out


def eq_values(I, st, a, b, t, depth=0):
    """`a == b` at type t, through local PartialEq impls and derived struct ones"""
    if t is not None and t.k == "adt" and depth < 6:
        if is_box(t):
            return eq_values(I, st, a, b, strip(t.args[0]), depth + 1)
        body = I.p.method("core::cmp::PartialEq", t.path, "eq")
        if body is not None and not body.derived:
            return [(o.st, o.val if o.kind == "ret" else PANIC) for o in I.call_body(st, body, [a, b], 1, ())]
        ad = I.p.adts.get(t.path)
        if body is not None and ad is not None and ad["kind"] == "enum" and len(ad["variants"]) <= 8 and not any(v["fields"] for v in ad["variants"]):
            return [(s2, B(i == j)) for s, i in I.fork_variant(st, a, t.path) for s2, j in I.fork_variant(s, b, t.path)]
        if body is not None and ad is not None and ad["kind"] == "struct":
            outs = [(st, TRUE)]
            for i, f in enumerate(ad["variants"][0]["fields"]):
                nxt = []
                for s, r in outs:
                    if f["ty"] is None:
                        return [(st, I.eq(a, b, t))]
                    for s2, r2 in eq_values(I, s, fld(a, t.path, 0, i), fld(b, t.path, 0, i), strip(f["ty"]), depth + 1):
                        nxt.append((s2, And(r, r2)))
                outs = nxt
            return outs
    return [(st, I.eq(a, b, t))]


def cmp_fork(I, st, a, b):
    out = []
    for s, r in I.branch(st, lt(a, b)):
        if r:
            out.append((s, 0))
        else:
            for s2, r2 in I.branch(s, eq_int(a, b)):
                out.append((s2, 1 if r2 else 2))
    return out


@model("core::cmp::PartialOrd::lt", "core::cmp::PartialOrd::le", "core::cmp::PartialOrd::gt", "core::cmp::PartialOrd::ge")
def pord(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    op = fn.path.split("::")[-1]
    a, b = cval(I, st, args[0]), cval(I, st, args[1])
    if t.k == "prim" and t.s in NUMPRIM:
        return [(st, {"lt": lt(a, b), "le": le(a, b), "gt": lt(b, a), "ge": le(b, a)}[op])]
    body = I.p.method("core::cmp::PartialOrd", head(t), "partial_cmp")
    if body is None or body.derived:
        if body is not None and body.derived and I.p.adts.get(head(t), {}).get("kind") == "enum":
            return enum_cmp(I, st, head(t), a, b, op)
        return [(st, ("op", op, a, b))]
    out = []
    for o in I.call_body(st, body, [a, b], 1, ()):
        if o.kind != "ret":
            out.append((o.st, PANIC))
            continue
        for s, k in I.fork_variant(o.st, o.val, OPT):
            if k == 0:
                out.append((s, FALSE))
                continue
            x = fld(o.val, OPT, 1, 0)
            for s2, c in I.fork_variant(s, x, ORD):
                out.append((s2, B({"lt": c == 0, "le": c <= 1, "gt": c == 2, "ge": c >= 1}[op])))
    return out


def enum_cmp(I, st, path, a, b, op):
    if any(v["fields"] for v in I.p.adts[path]["variants"]):
        return [(st, ("op", op, a, b))]
    out = []
    for s, x in I.fork_variant(st, a, path):
        for s2, y in I.fork_variant(s, b, path):
            out.append((s2, B({"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])))
    return out


@model("core::cmp::Ord::cmp", "core::cmp::PartialOrd::partial_cmp")
def ordcmp(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    a, b = cval(I, st, args[0]), cval(I, st, args[1])
    w = Some if fn.path.endswith("partial_cmp") else (lambda x: x)
    if t.k == "prim" and t.s in NUMPRIM:
        return [(s, w(("adt", ORD, k, ()))) for s, k in cmp_fork(I, st, a, b)]
    body = I.p.method("core::cmp::PartialOrd" if fn.path.endswith("partial_cmp") else "core::cmp::Ord", head(t), fn.path.split("::")[-1])
    if body is not None and body.derived and I.p.adts.get(head(t), {}).get("kind") == "enum" and not any(v["fields"] for v in I.p.adts[head(t)]["variants"]):
        out = []
        for s, x in I.fork_variant(st, a, head(t)):
            for s2, y in I.fork_variant(s, b, head(t)):
                out.append((s2, w(("adt", ORD, 0 if x < y else 1 if x == y else 2, ()))))
        return out
    return None


def _ordering(yes):
    def f(I, st, fn, args, atys, dty):
        return [(s, B(k in yes)) for s, k in I.fork_variant(st, I.content(st, args[0]), ORD)]
    return f


for _n, _ks in (("is_lt", (0,)), ("is_le", (0, 1)), ("is_gt", (2,)), ("is_ge", (1, 2)), ("is_eq", (1,)), ("is_ne", (0, 2))):
    MODELS[ORD + "::" + _n] = _ordering(_ks)


@model(ORD + "::then_with")
def then_with(I, st, fn, args, atys, dty):
    out = []
    for s, k in I.fork_variant(st, args[0], ORD):
        out += I.call_value(s, args[1], ()) if k == 1 else [(s, args[0])]
    return out


@model("core::cmp::Ord::max", "core::cmp::Ord::min", "core::cmp::max", "core::cmp::min")
def maxmin(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    if t.k == "prim" and t.s in NUMPRIM:
        a, b = args
        mx = fn.path.endswith("max")
        return [(s, (b if r else a) if mx else (a if r else b)) for s, r in I.branch(st, le(a, b))]
    return None


_INTS = ["usize", "u8", "u16", "u32", "u64", "i32", "i64", "isize", "core::num"]


def _ints(name):
    return [t + "::" + name for t in _INTS]


@model(*_ints("checked_sub"))
def checked_sub(I, st, fn, args, atys, dty):
    return [(s, Some(sub(args[0], args[1])) if r else NONE) for s, r in I.branch(st, le(args[1], args[0]))]


@model(*_ints("checked_add"))
def checked_add(I, st, fn, args, atys, dty):
    return [(st, Some(add(args[0], args[1])))]


@model(*_ints("saturating_sub"))
def sat_sub(I, st, fn, args, atys, dty):
    return [(s, sub(args[0], args[1]) if r else Int(0)) for s, r in I.branch(st, le(args[1], args[0]))]


@model(*(_ints("saturating_add") + _ints("wrapping_add")))
def sat_add(I, st, fn, args, atys, dty):
    return [(st, add(args[0], args[1]))]


def _ranges(*rs):
    def f(I, st, fn, args, atys, dty):
        c = I.content(st, args[0])
        x = FALSE
        for lo, hi in rs:
            x = Or(x, And(le(Int(lo), c), le(c, Int(hi))))
        return [(st, x)]
    return f


for _n, _rs in (("is_ascii", ((0, 127),)), ("is_ascii_hexdigit", ((48, 57), (65, 70), (97, 102))), ("is_ascii_uppercase", ((65, 90),)),
                ("is_ascii_lowercase", ((97, 122),)), ("is_ascii_whitespace", ((9, 10), (12, 13), (32, 32))),
                ("is_ascii_punctuation", ((33, 47), (58, 64), (91, 96), (123, 126))), ("is_ascii_control", ((0, 31), (127, 127))),
                ("is_ascii_graphic", ((33, 126),))):
    for _p in ("char::", "core::char::methods::", "u8::"):
        MODELS.setdefault(_p + _n, _ranges(*_rs))


@model("core::cmp::Ord::clamp", *_ints("clamp"))
def clamp(I, st, fn, args, atys, dty):
    x, lo, hi = args
    if dty is None or dty.k != "prim":
        return None
    out = []
    for s, a in I.branch(st, lt(x, lo)):
        if a:
            out.append((s, lo))
            continue
        out += [(s2, hi if b else x) for s2, b in I.branch(s, lt(hi, x))]
    return out


@model(*_ints("abs_diff"))
def abs_diff(I, st, fn, args, atys, dty):
    return [(s, sub(args[1], args[0]) if r else sub(args[0], args[1])) for s, r in I.branch(st, le(args[0], args[1]))]


@model("char::is_ascii_digit", "core::char::methods::is_ascii_digit", "u8::is_ascii_digit")
def is_digit(I, st, fn, args, atys, dty):
    c = args[0]
    return [(st, And(le(Int(48), c), le(c, Int(57))))]


@model("char::to_digit", "core::char::methods::to_digit", "char::is_digit", "core::char::methods::is_digit")
def to_digit(I, st, fn, args, atys, dty):
    c, r = args
    test = fn.path.endswith("is_digit")
    if not is_int(r) or not 2 <= r[1] <= 36:
        return None
    rest, out = [st], []
    for base, n, off in ((48, min(r[1], 10), 0), (97, r[1] - 10, 10), (65, r[1] - 10, 10)):
        if n <= 0:
            continue
        nxt = []
        for s in rest:
            for s2, ok in I.branch(s, And(le(Int(base), c), le(c, Int(base + n - 1)))):
                if ok:
                    out.append((s2, TRUE if test else Some(add(Int(off - base), c))))
                else:
                    nxt.append(s2)
        rest = nxt
    return out + [(s, FALSE if test else NONE) for s in rest]


@model("core::ops::range::RangeInclusive::new")
def ri_new(I, st, fn, args, atys, dty):
    return [(st, ("adt", "core::ops::range::RangeInclusive", 0, (args[0], args[1], FALSE)))]


@model("core::ops::range::RangeInclusive::contains", "core::ops::range::Range::contains", "core::ops::range::RangeBounds::contains")
def ri_contains(I, st, fn, args, atys, dty):
    r, x = args[0], cval(I, st, args[1])
    if r[0] == "item":
        rb = I.p.bodies.get(r[1])
        if rb is not None:
            os = I.call_body(st, rb, [], 1, ())
            if len(os) == 1:
                r = os[0].val
    if r[0] == "adt" and len(r[3]) >= 2:
        hi = le(x, r[3][1]) if "Inclusive" in r[1] else lt(x, r[3][1])
        return [(st, And(le(r[3][0], x), hi))]
    return [(st, ("op", "in_range", x, r))]


# sequences -------------------------------------------------------------------
def cells(I, st, a):
    """(root, path, value) of a `&mut` sequence/set argument"""
    r, p = I.deref_root(st, a)
    return r, p, I.read_loc(st, r, p)


@model(VEC + "push", "alloc::string::String::push", "alloc::collections::vec_deque::VecDeque::push_back")
def push(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    I.write_loc(st, r, p, concat(as_seq(v), seq_lit(args[1])))
    return [(st, UNIT)]


def as_seq(v):
    if v[0] == "str":
        return mk_seq(tuple(("e", Char(ord(c))) for c in v[1]))
    return v


@model("alloc::string::String::push_str")
def push_str(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    I.write_loc(st, r, p, concat(as_seq(v), as_seq(args[1])))
    return [(st, UNIT)]


@model(VEC + "pop")
def pop(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    out = []
    for s, e in I.branch(st, emptiness(v)):
        if e:
            out.append((s, NONE))
        else:
            s = s.copy()
            x = T.last(v)
            I.write_loc(s, r, p, T.dropr(v))
            out.append((s, Some(x)))
    return out


@model(VEC + "len", "slice::len", "alloc::vec::Vec::len", ESI + "len", "core::slice::len", "array::len")
def length(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    if v[0] == "it":
        v = I.it_base(v)
    return [(st, slen(v))]


@model("alloc::string::String::len", "str::len")
def blen(I, st, fn, args, atys, dty):
    v = args[0]
    if v[0] == "str":
        return [(st, Int(len(v[1].encode())))]
    return [(st, ("blen", v))]


@model("str::as_bytes", "alloc::string::String::into_bytes", "alloc::string::String::as_bytes", "str::bytes")
def as_bytes(I, st, fn, args, atys, dty):
    v = I.content(st, args[0])
    return [(st, ("op", "bytes", v))]


@model(VEC + "is_empty", "slice::is_empty", "str::is_empty", "alloc::string::String::is_empty", ESI + "is_empty")
def is_empty(I, st, fn, args, atys, dty):
    v = as_seq(cval(I, st, args[0]))
    if v[0] == "it":
        v = I.it_base(v)
    return [(st, emptiness(v))]


@model("str::chars")
def chars(I, st, fn, args, atys, dty):
    return [(st, ("it", "seq", as_seq(args[0])))]


@model(VEC + "extend_from_slice", "core::iter::traits::collect::Extend::extend")
def extend(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    src = args[1]
    out = []
    ity = fn.args[0] if fn.args else None
    srcs = [(s, q) for s0, x in local_iter(I, st, src, atys[1] if len(atys) > 1 else None)
            for s, q in ([(s0, PANIC)] if x is PANIC else force_any(I, s0, x))]
    for s, q in srcs:
        if q is PANIC:
            out.append((s, PANIC))
            continue
        s = s.copy()
        v = I.read_loc(s, r, p)
        if ity is not None and ity.k == "adt" and "::set::" in ity.path:
            nv = union(v, set_of(q))
        elif ity is not None and ity.k == "adt" and "::map::" in ity.path:
            nv = T.mextend(v, q)
        else:
            nv = concat(v, q)
        I.write_loc(s, r, p, nv)
        out.append((s, UNIT))
    return out


set_of = T.set_of


def force_any(I, st, v):
    """sequence value of anything iterable (by value)"""
    if v[0] == "ref":
        v = I.read_loc(st, v[1], v[2])
    if v[0] == "it":
        return I.force(st, v)
    it = to_iter(I, st, v, None)
    return I.force(st, it)


def to_iter(I, st, v, ty):
    if v[0] == "it":
        return v
    if v[0] == "adt" and v[1] in ("core::ops::range::Range", "core::ops::range::RangeInclusive"):
        a, b = v[3][0], v[3][1]
        if v[1].endswith("Inclusive"):
            b = add(b, Int(1))
        return range_it(I, st, a, b)
    if v[0] == "adt" and v[1] == OPT:
        return ("it", "seq", seq_lit(v[3][0]) if v[2] == 1 else EMPTY)
    return ("it", "seq", as_seq(v))


def range_it(I, st, a, b):
    """iterator over a..b, related to a sequence when the bound is a length"""
    c, L = to_aff(b)
    if len(L) == 1 and L[0][1] == 1 and L[0][0][0] == "len" and is_int(a) and c == 0 and a[1] >= 0:
        S = L[0][0][1]
        S = drop(S, a[1]) if a[1] else S
        return ("it", "map", ("it", "enum", ("it", "seq", S), a), ("fst",))
    if is_int(a) and is_int(b) and 0 <= b[1] - a[1] <= 16:
        return ("it", "seq", seq_lit(*[Int(i) for i in range(a[1], b[1])]))
    S = ("range", a, b)
    return ("it", "map", ("it", "enum", ("it", "seq", S), a), ("fst",))


@model("core::iter::traits::collect::IntoIterator::into_iter")
def into_iter(I, st, fn, args, atys, dty):
    v = args[0]
    t = fn.args[0] if fn.args else (atys[0] if atys else None)
    if v[0] == "ref":
        inner = I.read_loc(st, v[1], v[2])
        if inner[0] == "it":
            return [(st, v)]
        if t is not None and t.k == "ref" and t.mut:
            if t.t.k == "adt" and t.t.path not in (VEC[:-2],) and not t.t.path.startswith("alloc::vec"):
                return None
            return [(st, ("it", "mutseq", v[1], v[2], inner))]
        return [(st, ("it", "seq", inner))]
    if v[0] == "it":
        return [(st, v)]
    if t is not None and t.k == "adt" and fn.res and I.p.bodies.get(fn.res) is not None:
        return None  # local IntoIterator impl: inline
    if v[0] == "adt" and fn.trait and not fn.res and I.dispatch(st, fn, args, atys) is not None:
        return None
    if t is not None and t.k == "adt" and t.path in ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet"):
        return [(st, ("it", "seq", ("unk", "hash_iter", v)))]
    if v[0] == "adt" and v[1].startswith("core::ops::range::Range") and len(v[3]) >= 2:
        a, b = v[3][0], v[3][1]
        if "Inclusive" in v[1]:
            b = add(b, Int(1))
        return [(st, range_it(I, st, a, b))]
    if t is not None and t.k == "adt" and t.path == OPT:
        return OPTM["into_iter"](I, st, [v])
    return [(st, ("it", "seq", as_seq(v)))]


@model("slice::iter", "alloc::collections::btree::set::BTreeSet::iter", VEC + "iter", "core::array::iter::IntoIter::new",
       "core::slice::iter", VEC + "drain", "alloc::collections::vec_deque::VecDeque::iter")
def seq_iter(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    if fn.path.endswith("drain"):
        st = st.copy()
        r, p, v = cells(I, st, args[0])
        rng = args[1]
        if not (rng[0] == "adt" and rng[1].startswith("core::ops::range::Range")):
            return None
        if rng[1].endswith("RangeFull"):
            I.write_loc(st, r, p, EMPTY)
            return [(st, ("it", "seq", as_seq(v)))]
        name = rng[1].split("::")[-1]
        if name not in ("RangeFrom", "RangeTo"):
            return None
        n = rng[3][0]
        ps = parts(v)
        for k in range(len(ps), -1, -1):
            pre = mk_seq(ps[:k])
            if slen(pre) == n:
                post = mk_seq(ps[k:])
                I.write_loc(st, r, p, pre if name == "RangeFrom" else post)
                return [(st, ("it", "seq", as_seq(post if name == "RangeFrom" else pre)))]
        if name != "RangeFrom":
            return None
        I.write_loc(st, r, p, ("op", "truncate", v, n))
        return [(st, ("it", "seq", ("op", "split_off", v, n)))]
    return [(st, ("it", "seq", as_seq(v)))]


@model("syn::punctuated::Punctuated::into_pairs", "syn::punctuated::Punctuated::pairs")
def into_pairs(I, st, fn, args, atys, dty):
    return [(st, ("it", "map", ("it", "seq", as_seq(cval(I, st, args[0]))), ("mkpair",)))]


@model("syn::punctuated::Pair::into_value", "syn::punctuated::Pair::value")
def pair_value(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    return [(s, fld(v, T.PAIR, k, 0)) for s, k in I.fork_variant(st, v, T.PAIR)]


@model("syn::punctuated::Pair::into_tuple", "syn::punctuated::Pair::punct")
def pair_tuple(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    out = []
    for s, k in I.fork_variant(st, v, T.PAIR):
        p = Some(fld(v, T.PAIR, k, 1)) if k == 0 else NONE
        out.append((s, p if fn.path.endswith("::punct") else mk_tup((fld(v, T.PAIR, k, 0), p))))
    return out


for _n in ("iter", "len", "is_empty", "first", "last"):
    MODELS.setdefault("syn::punctuated::Punctuated::" + _n, lambda I, st, fn, args, atys, dty, _n=_n: MODELS["slice::" + _n](I, st, fn, args, atys, dty))


@model("slice::iter_mut", VEC + "iter_mut")
def iter_mut(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    return [(st, ("it", "mutseq", r, p, v))]


@model("std::collections::hash::map::HashMap::iter", "std::collections::hash::map::HashMap::values",
       "std::collections::hash::map::HashMap::keys", "std::collections::hash::set::HashSet::iter")
def hash_iter(I, st, fn, args, atys, dty):
    return [(st, ("it", "seq", ("unk", "hash_iter", args[0])))]


@model("core::iter::sources::once::once")
def once(I, st, fn, args, atys, dty):
    return [(st, ("it", "seq", seq_lit(args[0])))]


@model("core::iter::sources::empty::empty")
def it_empty(I, st, fn, args, atys, dty):
    return [(st, ("it", "seq", EMPTY))]


def clo_root(I, st, clo):
    if clo[0] == "clo":
        r = ("K", I.fresh())
        st.mem[r] = clo
        return ("ref", r, ())
    return clo


def local_iter(I, st, v, t):
    """[(st, v.into_iter())] through an impl of the analysed crates; [(st, v)] if there is none"""
    if t is not None and t.k == "adt" and v[0] not in ("it", "ref"):
        b = I.p.method("core::iter::traits::collect::IntoIterator", t.path, "into_iter")
        if b is not None and (b.self_ty is None or b.self_ty.k == "adt"):
            return [(o.st, o.val if o.kind == "ret" else PANIC) for o in I.call_body(st, b, [v], 1, ())]
    return [(st, v)]


def as_it(I, st, v):
    if v[0] == "ref":
        inner = I.read_loc(st, v[1], v[2])
        if inner[0] == "it":
            return inner
        if inner[0] == "adt" and inner[1].startswith("core::ops::range::Range"):
            return to_iter(I, st, inner, None)
        return ("it", "seq", inner)
    if v[0] == "it":
        return v
    return to_iter(I, st, v, None)


def _adapter(kind):
    def f(I, st, fn, args, atys, dty):
        if args[0][0] == "ref":
            raise Undecided("adapter on a borrowed iterator")
        st = st.copy()
        it = as_it(I, st, args[0])
        return [(st, ("it", kind, it, clo_root(I, st, args[1])))]
    return f


for _n in ("map", "filter", "filter_map", "flat_map", "inspect", "take_while", "map_while"):
    MODELS[ITER + _n] = _adapter(_n)


@model(ITER + "peekable")
def peekable(I, st, fn, args, atys, dty):
    return [(st, ("it", "peek", as_it(I, st, args[0])))]


@model(ITER + "by_ref")
def by_ref(I, st, fn, args, atys, dty):
    return [(st, args[0])]


@model(ITER + "enumerate")
def enumerate_(I, st, fn, args, atys, dty):
    return [(st, ("it", "enum", as_it(I, st, args[0]), Int(0)))]


@model(ITER + "zip", "core::iter::adapters::zip::zip")
def zip_(I, st, fn, args, atys, dty):
    if args[0][0] == "adt" and args[0][1].endswith("::RangeFrom"):
        return [(s, PANIC if x is PANIC else ("it", "enum", as_it(I, s, x), args[0][3][0]))
                for s, x in local_iter(I, st, args[1], atys[1] if len(atys) > 1 else None)]
    if args[1][0] == "adt" and args[1][1].endswith("::RangeFrom"):
        return [(st, ("it", "map", ("it", "enum", as_it(I, st, args[0]), args[1][3][0]), ("swap",)))]
    t = fn.args[1] if len(fn.args) > 1 else None
    return [(s, PANIC if x is PANIC else ("it", "zip", as_it(I, s, args[0]), as_it(I, s, x)))
            for s, x in local_iter(I, st, args[1], atys[1] if len(atys) > 1 else None)]


@model(ITER + "chain")
def chain_(I, st, fn, args, atys, dty):
    out = []
    for s, x in local_iter(I, st, args[1], atys[1] if len(atys) > 1 else None):
        out.append((s, PANIC if x is PANIC else I.simplify_it(s, ("it", "chain", as_it(I, s, args[0]), as_it(I, s, x)))))
    return out


def rev_it(I, it):
    k = it[1]
    if k == "seq":
        return ("it", "seq", T.rev(it[2]))
    if k in ("map", "filter", "filter_map", "inspect"):
        return it[:2] + (rev_it(I, it[2]),) + it[3:]
    if k == "enum":
        n = slen(left_base(I.it_base(it[2])))
        return ("it", "enumr", rev_it(I, it[2]), add(it[3], n))
    if k == "enumr":
        n = slen(left_base(I.it_base(it[2])))
        return ("it", "enum", rev_it(I, it[2]), sub(it[3], n))
    if k == "zip":
        return ("it", "zip", rev_it(I, it[2]), rev_it(I, it[3]))
    if k == "chain":
        return ("it", "chain", rev_it(I, it[3]), rev_it(I, it[2]))
    if k == "range":
        raise Undecided("rev of a range")
    raise Undecided("rev of %s" % k)


@model(ITER + "rev")
def rev_(I, st, fn, args, atys, dty):
    it = as_it(I, st, args[0])
    x = it
    while x[0] == "it" and x[1] in ("map", "inspect", "enum", "enumr"):
        x = x[2]
    if x[1] == "zip":
        a, b = slen(I.it_base(x[2])), slen(I.it_base(x[3]))
        if st.F.decide(eq_int(a, b)) is not True:
            out = []
            for s, same in I.branch(st, eq_int(a, b)):
                if same:
                    out.append((s, rev_it(I, it)))
                    continue
                for s2, less in I.branch(s, lt(a, b)):
                    k, n = (3, a) if less else (2, b)
                    s2 = s2.copy()
                    y = cut_it(s2, x[k], n)
                    z = x[:k] + (y,) + x[k + 1:]

                    def put(w):
                        return z if w is x else w[:2] + (put(w[2]),) + w[3:]
                    out.append((s2, rev_it(I, put(it))))
            return out
    return [(st, rev_it(I, it))]


def cut_it(st, it, n):
    """the first n elements of a longer sequence"""
    if it[1] == "seq":
        q = ("op", "take", it[2], n)
        st.F = st.F.assume(eq_int(slen(q), n), True)
        return ("it", "seq", q)
    if it[1] in ("map", "enum"):
        return it[:2] + (cut_it(st, it[2], n),) + it[3:]
    raise Undecided("rev of a zip of different lengths")


@model(ITER + "skip")
def skip_(I, st, fn, args, atys, dty):
    it = as_it(I, st, args[0])
    if is_int(args[1]):
        n = args[1][1]
        if n == 0:
            return [(st, it)]
        return [(st, skip_it(it, n))]
    if it[1] == "seq":
        return [(st, ("it", "seq", ("drop", it[2], args[1])))]
    return None


def skip_it(it, n):
    if it[1] == "seq":
        return ("it", "seq", drop(it[2], n))
    if it[1] in ("map", "peek", "inspect", "take_while", "map_while") and (n == 1 or it[1] not in ("take_while", "map_while")):
        return it[:2] + (skip_it(it[2], n),) + it[3:]
    if it[1] == "enum":
        return ("it", "enum", skip_it(it[2], n), add(it[3], Int(n)))
    if it[1] == "enumr":
        return ("it", "enumr", skip_it(it[2], n), sub(it[3], Int(n)))
    if it[1] == "zip":
        return ("it", "zip", skip_it(it[2], n), skip_it(it[3], n))
    raise Undecided("skip of %s" % it[1])


@model(ITER + "take", ITER + "step_by")
def take_(I, st, fn, args, atys, dty):
    it = as_it(I, st, args[0])
    n = fn.path.split("::")[-1]
    out = []
    for s, q in I.force(st, it):
        if q is PANIC:
            out.append((s, PANIC))
        elif n == "take" and args[1] == Int(1):
            for s2, e in I.branch(s, emptiness(q)):
                out.append((s2, ("it", "seq", EMPTY if e else seq_lit(T.nth(q, Int(0))))))
        else:
            out.append((s, ("it", "seq", ("op", n, q, args[1]))))
    return out


# consumers -----------------------------------------------------------------
def push_root(I, st, n):
    r = ("V", I.fresh(), n)
    st.mem[r] = EMPTY
    return r


@model(ITER + "collect", "core::iter::traits::collect::FromIterator::from_iter")
def collect(I, st, fn, args, atys, dty):
    if fn.path.endswith("from_iter"):
        ty = fn.args[0]
    else:
        ty = fn.args[1] if len(fn.args) > 1 else dty
    if ty.k not in ("adt",) and dty is not None:
        ty = dty
    return collect_into(I, st, as_it(I, st, args[0]), ty)


def collect_into(I, st, it, ty):
    if ty.k == "adt" and ty.path in (RES, OPT):
        inner = ty.args[0]
        st = st.copy()
        root = push_root(I, st, "c")
        it = I.simplify_it(st, it)

        def step(s, v):
            outs = []
            for s2, k in I.fork_variant(s, v, ty.path):
                good = (k == 0) if ty.path == RES else (k == 1)
                if good:
                    s2 = s2.copy()
                    s2.mem[root] = concat(s2.mem[root], seq_lit(fld(v, ty.path, k, 0)))
                    outs.append(("back", s2, None))
                else:
                    outs.append(("fail", s2, Err(fld(v, RES, 1, 0)) if ty.path == RES else NONE))
            return outs

        out = []
        for tag, s, x in I.iterate(st, it, step, "collect"):
            if tag == "done":
                s = s.copy()
                v = s.mem.pop(root)
                v = container(v, inner)
                out.append((s, Ok(v) if ty.path == RES else Some(v)))
            elif tag == "fail":
                out.append((s, x))
            else:
                out.append((s, PANIC))
        return out
    return [(s, v if v is PANIC else container(v, ty)) for s, v in I.force(st, it)]


def container(v, ty):
    if ty.k == "adt":
        if "::set::" in ty.path:
            return set_of(v)
        if "::map::" in ty.path:
            return T.mextend(("mempty",), v)
    if ty.k == "tuple" and not ty.args:
        return UNIT
    return v


@model(ITER + "for_each")
def for_each(I, st, fn, args, atys, dty):
    st = st.copy()
    f = clo_root(I, st, args[1])

    def step(s, v):
        return [("panic" if r is PANIC else "back", s2, None) for s2, r in I.call_value(s, f, (v,))]

    return [(s, UNIT if tag == "done" else PANIC) for tag, s, x in I.iterate(st, as_it(I, st, args[0]), step, "for_each")]


@model(ITER + "fold", DEI + "rfold")
def fold_(I, st, fn, args, atys, dty):
    st = st.copy()
    it = as_it(I, st, args[0])
    if fn.path.endswith("rfold"):
        it = rev_it(I, it)
    f = clo_root(I, st, args[2])
    root = ("V", I.fresh(), "acc")
    st.mem[root] = args[1]

    def step(s, v):
        outs = []
        for s2, r in I.call_value(s, f, (s.mem[root], v)):
            if r is PANIC:
                outs.append(("panic", s2, None))
            else:
                s2 = s2.copy()
                s2.mem[root] = r
                outs.append(("back", s2, None))
        return outs

    return [(s, s.mem[root] if tag == "done" else PANIC) for tag, s, x in I.iterate(st, it, step, "fold")]


@model(ITER + "partition")
def partition(I, st, fn, args, atys, dty):
    st = st.copy()
    it = as_it(I, st, args[0])
    f = clo_root(I, st, args[1])
    r1, r2 = push_root(I, st, "p1"), push_root(I, st, "p2")

    def step(s, v):
        outs = []
        for s2, b in I.call_value(s, f, (v,)):
            if b is PANIC:
                outs.append(("panic", s2, None))
                continue
            for s3, yes in I.branch(s2, b):
                s3 = s3.copy()
                r = r1 if yes else r2
                s3.mem[r] = concat(s3.mem[r], seq_lit(v))
                outs.append(("back", s3, None))
        return outs

    t = dty.args[0] if dty is not None and dty.k == "tuple" else None
    if t is None:
        return None
    return [(s, mk_tup((container(s.mem[r1], t), container(s.mem[r2], t))) if tag == "done" else PANIC)
            for tag, s, x in I.iterate(st, it, step, "partition")]


@model(ITER + "sum")
def sum_(I, st, fn, args, atys, dty):
    if dty is None or dty.k != "prim":
        return None
    st = st.copy()
    root = ("V", I.fresh(), "acc")
    st.mem[root] = Int(0)

    def step(s, v):
        s = s.copy()
        s.mem[root] = add(s.mem[root], v)
        return [("back", s, None)]

    return [(s, s.mem[root] if tag == "done" else PANIC) for tag, s, x in I.iterate(st, as_it(I, st, args[0]), step, "sum")]


@model(ITER + "try_fold", ITER + "try_for_each")
def try_fold(I, st, fn, args, atys, dty):
    if dty.k != "adt" or dty.path not in (RES, OPT):
        return None
    st = st.copy()
    it = as_it(I, st, args[0])
    good = 0 if dty.path == RES else 1
    root = ("V", I.fresh(), "acc")
    isf = fn.path.endswith("try_fold")
    f = clo_root(I, st, args[2] if isf else args[1])
    st.mem[root] = args[1] if isf else UNIT

    def step(s, v):
        outs = []
        for s2, r in I.call_value(s, f, (s.mem[root], v) if isf else (v,)):
            if r is PANIC:
                outs.append(("panic", s2, None))
                continue
            for s3, k in I.fork_variant(s2, r, dty.path):
                if k == good:
                    s3 = s3.copy()
                    s3.mem[root] = fld(r, dty.path, k, 0)
                    outs.append(("back", s3, None))
                else:
                    outs.append(("fail", s3, Err(fld(r, RES, 1, 0)) if dty.path == RES else NONE))
        return outs

    out = []
    for tag, s, x in I.iterate(st, it, step, "try_fold"):
        if tag == "done":
            out.append((s, Ok(s.mem[root]) if dty.path == RES else Some(s.mem[root])))
        else:
            out.append((s, x if tag == "fail" else PANIC))
    return out


@model(ITER + "any", ITER + "all", ITER + "find", ITER + "position", ITER + "find_map", ITER + "rposition")
def search(I, st, fn, args, atys, dty):
    n = fn.path.split("::")[-1]
    st = st.copy()
    it = as_it(I, st, args[0])
    f = clo_root(I, st, args[1])
    if n == "rposition":
        it = rev_it(I, it)
    base_it = I.simplify_it(st, it)
    if n == "position" or n == "rposition":
        base_it = ("it", "enum", base_it, Int(0)) if n == "position" else ("it", "enumr", base_it, slen(I.it_base(base_it)))

    def step(s, v):
        outs = []
        arg = v
        if n in ("position", "rposition"):
            arg = fld(v, "()", 0, 1)
        for s2, r in I.call_value(s, f, (arg,)):
            if r is PANIC:
                outs.append(("panic", s2, None))
                continue
            if n == "find_map":
                for s3, k in I.fork_variant(s2, r, OPT):
                    outs.append(("back", s3, None) if k == 0 else ("hit", s3, r))
                continue
            for s3, b in I.branch(s2, r):
                if n == "all":
                    b = not b
                if b:
                    x = {"any": TRUE, "all": FALSE, "find": Some(v), "position": None, "rposition": None}[n]
                    if x is None:
                        x = Some(fld(v, "()", 0, 0))
                    outs.append(("hit", s3, x))
                else:
                    outs.append(("back", s3, None))
        return outs

    dflt = {"any": FALSE, "all": TRUE}.get(n, NONE)
    return [(s, dflt if tag == "done" else x if tag == "hit" else PANIC)
            for tag, s, x in I.iterate(st, base_it, step, n)]


@model(ITER + "eq", ITER + "ne")
def iter_eq(I, st, fn, args, atys, dty):
    """the same length, and equal element by element"""
    a, b = as_it(I, st, args[0]), as_it(I, st, args[1])
    t = strip(fn.args[0]) if fn.args else None
    same = fn.path.endswith("eq")
    out = []
    for s, p in I.force(st, a):
        for s2, q in I.force(s, b) if p is not PANIC else [(s, PANIC)]:
            if q is PANIC:
                out.append((s2, PANIC))
                continue
            for s3, eq in I.branch(s2, eq_int(slen(p), slen(q))):
                if not eq:
                    out.append((s3, B(not same)))
                    continue
                it = I.simplify_it(s3, ("it", "zip", ("it", "seq", p), ("it", "seq", q)))

                def step(s, v):
                    return [("back" if r else "hit", s4, None)
                            for s4, r in I.branch(s, ("eq",) + tuple(sorted((fld(v, "()", 0, 0), fld(v, "()", 0, 1)), key=repr)))]
                out += [(s4, B(same) if tag == "done" else B(not same)) for tag, s4, x in I.iterate(s3, it, step, "eq")]
    return out


@model(ITER + "count")
def count(I, st, fn, args, atys, dty):
    out = []
    it = as_it(I, st, args[0])
    if it[1] == "take_while":
        # the position of the first element that is not taken
        base_it = I.simplify_it(st, it[2])
        if base_it[1] in ("seq", "map", "inspect", "enum", "enumr", "peek"):
            n = slen(I.it_base(base_it))

            def step(s, v):
                outs = []
                for s2, r in I.call_value(s, it[3], (fld(v, "()", 0, 1),)):
                    if r is PANIC:
                        outs.append(("panic", s2, None))
                        continue
                    for s3, b in I.branch(s2, r):
                        outs.append(("back", s3, None) if b else ("hit", s3, fld(v, "()", 0, 0)))
                return outs
            return [(s, n if tag == "done" else x if tag == "hit" else PANIC)
                    for tag, s, x in I.iterate(st, ("it", "enum", base_it, Int(0)), step, "count")]
    for s, q in I.force(st, as_it(I, st, args[0])):
        out.append((s, q if q is PANIC else slen(q)))
    return out


@model(ITER + "unzip")
def unzip(I, st, fn, args, atys, dty):
    st = st.copy()
    it = as_it(I, st, args[0])
    r1, r2 = push_root(I, st, "u1"), push_root(I, st, "u2")

    def step(s, v):
        s = s.copy()
        s.mem[r1] = concat(s.mem[r1], seq_lit(fld(v, "()", 0, 0)))
        s.mem[r2] = concat(s.mem[r2], seq_lit(fld(v, "()", 0, 1)))
        return [("back", s, None)]

    return [(s, mk_tup((s.mem[r1], s.mem[r2])) if tag == "done" else PANIC)
            for tag, s, x in I.iterate(st, it, step, "unzip")]


@model(ITER + "last")
def it_last(I, st, fn, args, atys, dty):
    out = []
    for s, q in I.force(st, as_it(I, st, args[0])):
        for s2, e in I.branch(s, emptiness(q)):
            out.append((s2, NONE if e else Some(T.last(q))))
    return out


# next ------------------------------------------------------------------------
@model(ITER + "next")
def next_(I, st, fn, args, atys, dty):
    if fn.res and I.p.bodies.get(fn.res) is not None and I.content(st, args[0])[0] != "it":
        return None
    st = st.copy()
    r, p = I.deref_root(st, args[0])
    it = I.read_loc(st, r, p)
    if it[0] == "ref":
        return next_(I, st, fn, [it], atys, dty)
    if it[0] != "it":
        if it[0] in ("seq",):
            it = ("it", "seq", it)
        elif it[0] == "adt" and it[1].startswith("core::ops::range::Range"):
            it = range_it(I, st, it[3][0], it[3][1])
        else:
            # an iterator we know nothing about (e.g. a generic parameter)
            return I.event(st, "next", args)
    if it[1] == "loop":
        lid, inner = it[2], it[3]
        out = []
        S = I.it_base(inner)
        for s, tag, v in I.generic_elem(st.copy(), unwrap_loop(inner), lid):
            if tag == "some":
                s = s.copy()
                I.write_loc(s, r, p, ("it", "loopnext", lid, inner))
                out.append((s, Some(v)))
            elif tag == "panic":
                out.append((s, PANIC))
            elif tag == "stop":
                s = s.copy()
                I.write_loc(s, r, p, ("it", "seq", EMPTY))
                out.append((s, NONE))
            else:
                s = s.copy()
                I.write_loc(s, r, p, ("it", "loopnext", lid, inner))
                out.append((s, RETRY))
        if in_step(I, st, lid, S):
            return out
        d = st.copy()
        d.F = d.F.assume(("exhausted", lid, S), True)
        I.write_loc(d, r, p, ("it", "seq", EMPTY))
        out.append((d, NONE))
        return out
    if it[1] == "loopnext":
        raise Undecided("iterator advanced twice per iteration")
    out = []
    it = I.simplify_it(st, it)
    if it[1] in ("filter", "filter_map", "flat_map", "chain"):
        for s, q in I.force(st, it):
            if q is PANIC:
                out.append((s, PANIC))
                continue
            s = s.copy()
            I.write_loc(s, r, p, ("it", "seq", q))
            out += next_(I, s, fn, args, atys, dty)
        return out
    if it[1] == "mutseq":
        S = it[4]
        for s, e in I.branch(st, emptiness(S)):
            if e:
                out.append((s, NONE))
            else:
                s = s.copy()
                I.write_loc(s, r, p, ("it", "mutrest", it[2], it[3], S))
                out.append((s, Some(("ref", it[2], it[3] + (("ix", Int(0)),)))))
        return out
    S = I.it_base(it)
    for s, e in I.branch(st, emptiness(S)):
        if e:
            out.append((s, NONE))
            continue
        lid = I.fresh()
        for s2, tag, v in I.generic_elem(s, it, lid):
            if tag == "panic":
                out.append((s2, PANIC))
                continue
            m = first_subst(S, lid)
            s2 = I.subst_state(s2, m)
            v = subst(v, m)
            s2 = s2.copy()
            if tag == "stop":
                I.write_loc(s2, r, p, ("it", "seq", EMPTY))
                out.append((s2, NONE))
                continue
            I.write_loc(s2, r, p, skip_it(it, 1))
            out.append((s2, Some(v)))
    return out


def in_step(I, st, lid, S):
    """another iterator of the same loop over as many elements has just yielded one"""
    n = T.slen(S)

    def look(v):
        if not isinstance(v, tuple) or not v:
            return False
        if v[0] == "it" and v[1] == "loopnext" and v[2] == lid:
            return T.slen(I.it_base(v[3])) == n
        return any(look(x) for x in v if isinstance(x, tuple)) if v[0] in ("tup", "adt", "it") else False
    return any(look(v) for r, v in st.mem.items())


def unwrap_loop(it):
    return it


def first_subst(S, lid):
    m = {}
    for B_ in ([S] if S[0] != "zip" else list(S[1:])):
        m[("elem", lid, B_)] = T.nth(B_, Int(0))
        m[("idx", lid, B_)] = Int(0)
    m[("idx", lid, S)] = Int(0)
    return m


@model(DEI + "next_back")
def next_back(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p = I.deref_root(st, args[0])
    it = I.read_loc(st, r, p)
    if it[0] != "it" or it[1] != "seq":
        raise Undecided("next_back")
    out = []
    S = it[2]
    for s, e in I.branch(st, emptiness(S)):
        if e:
            out.append((s, NONE))
        else:
            s = s.copy()
            I.write_loc(s, r, p, ("it", "seq", T.dropr(S)))
            out.append((s, Some(T.last(S))))
    return out


@model(ITER + "nth", DEI + "nth_back", "slice::get", VEC + "get")
def get_nth(I, st, fn, args, atys, dty):
    st = st.copy()
    v = cval(I, st, args[0])
    if v[0] == "it":
        if v[1] != "seq":
            raise Undecided("nth on %s" % v[1])
        v = v[2]
    n = fn.path.split("::")[-1]
    if n == "nth_back":
        v = T.rev(v)
    i = args[1]
    if i[0] == "adt":
        return None
    out = []
    for s, ok in I.branch(st, lt(i, slen(v))):
        if not ok:
            out.append((s, NONE))
            continue
        for s2, x in at(I, s, v, i):
            out.append((s2, Some(x)))
    return out


def at(I, st, v, i):
    """[(st, v[i])] for an index within bounds, told apart by which explicitly
    known element at either end of v it is"""
    out = []
    ps = parts(v)
    if is_int(i) or len(ps) < 2 or len(ps) > 4 or any(p[0] not in ("e", "all") for p in ps):
        return [(st, T.nth(v, i))]
    while st is not None and len(ps) > 1 and ps[-1][0] == "e":
        nxt = None
        for s, last in I.branch(st, eq_int(i, sub(slen(mk_seq(ps)), Int(1)))):
            if last:
                out.append((s, ps[-1][1]))
            else:
                nxt = s
        st, ps = nxt, ps[:-1]
    while st is not None and len(ps) > 1 and ps[0][0] == "e":
        nxt = None
        for s, first in I.branch(st, eq_int(i, Int(0))):
            if first:
                out.append((s, ps[0][1]))
            else:
                nxt = s
        st, ps, i = nxt, ps[1:], sub(i, Int(1))
    if st is not None:
        out.append((st, T.nth(mk_seq(ps), i)))
    return out


@model("slice::first", "slice::last", "slice::split_first", "slice::split_last", VEC + "first", VEC + "last")
def firstlast(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    n = fn.path.split("::")[-1]
    out = []
    for s, e in I.branch(st, emptiness(v)):
        if e:
            out.append((s, NONE))
        elif n == "first":
            out.append((s, Some(T.nth(v, Int(0)))))
        elif n == "last":
            out.append((s, Some(T.last(v))))
        elif n == "split_first":
            out.append((s, Some(("tup", (T.nth(v, Int(0)), drop(v, 1))))))
        else:
            out.append((s, Some(("tup", (T.last(v), T.dropr(v))))))
    return out


@model("slice::last_mut", "slice::first_mut")
def last_mut(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    out = []
    for s, e in I.branch(st, emptiness(v)):
        if e:
            out.append((s, NONE))
        else:
            i = Int(0) if "first" in fn.path else sub(slen(v), Int(1))
            out.append((s, Some(("ref", r, p + (("ix", i),)))))
    return out


@model("core::iter::adapters::peekable::Peekable::peek", "core::iter::adapters::peekable::Peekable::peek_mut")
def peek(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p = I.deref_root(st, args[0])
    it = I.read_loc(st, r, p)
    if it[0] != "it" or it[1] != "peek":
        raise Undecided("peek")
    S = I.it_base(it)
    inner = it[2]
    out = []
    for s, e in I.branch(st, emptiness(S)):
        if e:
            out.append((s, NONE))
        else:
            x = T.nth(S, Int(0)) if inner[1] == "seq" else ("unk", "peeked", S)
            out.append((s, Some(x)))
    return out


@model("core::iter::adapters::peekable::Peekable::next_if", "core::iter::adapters::peekable::Peekable::next_if_eq")
def next_if(I, st, fn, args, atys, dty):
    out = []
    st = st.copy()
    f = clo_root(I, st, args[1])
    for s, x in peek(I, st, fn, args, atys, dty):
        if x == NONE:
            out.append((s, NONE))
            continue
        v = fld(x, OPT, 1, 0)
        yes = [(s, ("eq",) + tuple(sorted((v, I.content(s, args[1])), key=repr)))] if fn.path.endswith("_eq") else I.call_value(s, f, (v,))
        for s2, b in yes:
            if b is PANIC:
                out.append((s2, PANIC))
                continue
            for s3, t in I.branch(s2, b):
                out += next_(I, s3, fn, args[:1], atys[:1], dty) if t else [(s3, NONE)]
    return out


@model("str::split_at")
def split_at(I, st, fn, args, atys, dty):
    st = st.copy()
    v = cval(I, st, args[0])
    R = "core::ops::range::Range"
    return [(st, mk_tup((("op", "bslice", v, mk_adt(R + "To", 0, (args[1],))), ("op", "bslice", v, mk_adt(R + "From", 0, (args[1],))))))]


@model("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut")
def index(I, st, fn, args, atys, dty):
    st = st.copy()
    a, i = args
    mutable = fn.path.endswith("index_mut")
    if mutable:
        r, p, v = cells(I, st, a)
    else:
        v = cval(I, st, a)
    if i[0] == "adt" and i[1].startswith("core::ops::range::Range"):
        if mutable:
            return None
        t = strip(fn.args[0])
        s = t is not None and (t.g in ("str", "alloc::string::String"))
        if i[1].endswith("RangeFrom") and not s and is_int(i[3][0]):
            return [(st, drop(v, i[3][0][1]))]
        if i[1].endswith("RangeFull"):
            return [(st, v)]
        if i[1].endswith("RangeTo") and not s:
            if i[3][0] == sub(slen(v), Int(1)):
                return [(st, T.dropr(v))]
        return [(st, ("op", "slice" if not s else "bslice", v, i))]
    if mutable:
        return [(st, ("ref", r, p + (("ix", i),)))]
    t = strip(fn.args[0]) if fn.args else None
    if t is not None and t.k == "adt" and "::map::" in t.path:
        return [(st, mget(v, i))]
    out = []
    for s, ok in I.branch(st, lt(i, slen(v))):
        out += at(I, s, v, i) if ok else [(s, PANIC)]
    return out


@model(VEC + "truncate", VEC + "resize_with", VEC + "resize", VEC + "split_off")
def truncate(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    n = args[1]
    ps = parts(v)
    for k in range(len(ps), -1, -1):
        pre = mk_seq(ps[:k])
        if slen(pre) == n:
            I.write_loc(st, r, p, pre)
            return [(st, UNIT if not fn.path.endswith("split_off") else mk_seq(ps[k:]))]
    I.write_loc(st, r, p, ("op", fn.path.split("::")[-1], v, n))
    return [(st, ("op", "split_off", v, n) if fn.path.endswith("split_off") else UNIT)]


@model(VEC + "clear", "alloc::string::String::clear")
def clear(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    I.write_loc(st, r, p, EMPTY)
    return [(st, UNIT)]


@model(VEC + "append")
def vappend(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    r2, p2, v2 = cells(I, st, args[1])
    I.write_loc(st, r, p, concat(v, v2))
    I.write_loc(st, r2, p2, EMPTY)
    return [(st, UNIT)]


@model("slice::reverse")
def vreverse(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    I.write_loc(st, r, p, T.rev(v))
    return [(st, UNIT)]


@model(VEC + "insert")
def vinsert(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    if args[1] == Int(0):
        nv = concat(seq_lit(args[2]), v)
    elif args[1] == slen(v):
        nv = concat(v, seq_lit(args[2]))
    else:
        nv = ("op", "insert", v, args[1], args[2])
    I.write_loc(st, r, p, nv)
    return [(st, UNIT)]


@model(VEC + "remove", VEC + "swap_remove")
def vremove(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    i = args[1]
    if fn.path.endswith("::remove") and i == Int(0):
        nv = drop(v, 1)
    elif i == sub(slen(v), Int(1)):
        nv = T.dropr(v)
    else:
        nv = ("op", "remove", v, i)
    x = T.nth(v, i)
    I.write_loc(st, r, p, nv)
    return [(st, x)]


def _inplace(name):
    def f(I, st, fn, args, atys, dty):
        st = st.copy()
        r, p, v = cells(I, st, args[0])
        I.write_loc(st, r, p, ("op", name, v) + tuple(a for a in args[1:] if a[0] != "clo"))
        return [(st, UNIT)]
    return f


for _n in ("sort", "sort_by", "sort_by_key", "sort_unstable", "dedup", "dedup_by_key", "dedup_by", "retain", "swap", "rotate_left"):
    for _pre in ("slice::", VEC, "alloc::slice::", "core::slice::"):
        MODELS[_pre + _n] = _inplace(_n)


@model("slice::contains", VEC + "contains")
def contains_(I, st, fn, args, atys, dty):
    v, x = cval(I, st, args[0]), cval(I, st, args[1])
    t = fn.args[0] if fn.args else None
    ps = parts(v)
    if ps and all(p[0] == "e" for p in ps) and len(ps) <= 40:
        r = FALSE
        for p in ps:
            r = Or(r, I.eq(p[1], x, t))
        return [(st, r)]
    return [(st, ("in", x, v))]


@model("str::starts_with", "core::str::starts_with", "alloc::string::String::starts_with")
def starts_with_(I, st, fn, args, atys, dty):
    v, pat = cval(I, st, args[0]), cval(I, st, args[1])
    if pat[0] not in ("clo", "fndef", "char", "fn"):
        return [(st, ("op", "starts_with", v, pat))]
    out = []
    for s, e in I.branch(st, le(slen(as_seq(v)), Int(0))):
        if e:
            out.append((s, FALSE))
        elif pat[0] == "char":
            out.append((s, eq_int(nth(as_seq(v), Int(0)), pat)))
        else:
            out += I.call_value(s, pat, (nth(as_seq(v), Int(0)),))
    return out


# sets / maps -----------------------------------------------------------------
BS = "alloc::collections::btree::set::BTreeSet::"
HS = "std::collections::hash::set::HashSet::"


@model(BS + "insert", HS + "insert")
def set_insert(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    I.write_loc(st, r, p, union(v, ("single", args[1])))
    return [(st, Not(member(args[1], v)))]


def member(x, s):
    if s == SEMPTY:
        return FALSE
    if s[0] == "single":
        if s[1] == x:
            return TRUE
        return ("eq",) + tuple(sorted((x, s[1]), key=repr))
    if s[0] == "union":
        return Or(member(x, s[1]), member(x, s[2]))
    return ("in", x, s)


@model(BS + "contains", HS + "contains")
def set_contains(I, st, fn, args, atys, dty):
    return [(st, member(args[1], cval(I, st, args[0])))]


@model(BS + "append")
def set_append(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    r2, p2, v2 = cells(I, st, args[1])
    I.write_loc(st, r, p, union(v, v2))
    I.write_loc(st, r2, p2, SEMPTY)
    return [(st, UNIT)]


@model(BS + "is_empty", HS + "is_empty")
def set_is_empty(I, st, fn, args, atys, dty):
    return [(st, set_empty(cval(I, st, args[0])))]


@model(BS + "len", HS + "len")
def set_len(I, st, fn, args, atys, dty):
    v = cval(I, st, args[0])
    L = list(T.leaves(v))
    if len(L) == 1 and L[0][0] not in ("single", "inter"):
        return [(st, ("len", L[0]))]
    return [(s, Int(0) if z else ("card", v)) for s0, z in I.branch(st, set_empty(v)) for s in ([s0] if z else [x for x, k in I.branch(s0, le(Int(1), ("card", v))) if k])]


@model(BS + "intersection", BS + "union", BS + "difference", BS + "symmetric_difference")
def set_bin(I, st, fn, args, atys, dty):
    a, b = cval(I, st, args[0]), cval(I, st, args[1])
    n = fn.path.split("::")[-1]
    if n == "union":
        return [(st, ("it", "seq", union(a, b)))]
    if n == "intersection":
        if a == SEMPTY or b == SEMPTY:
            return [(st, ("it", "seq", EMPTY))]
        if repr(a) > repr(b):
            a, b = b, a
        return [(st, ("it", "seq", ("inter", a, b)))]
    return [(st, ("it", "seq", ("op", n, a, b)))]


@model("core::ops::bit::BitOr::bitor", "core::ops::bit::BitAnd::bitand")
def bitor(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    if t.k == "adt" and "::set::" in t.path:
        a, b = cval(I, st, args[0]), cval(I, st, args[1])
        if fn.path.endswith("bitor"):
            return [(st, union(a, b))]
        if repr(a) > repr(b):
            a, b = b, a
        return [(st, ("inter", a, b))]
    if t.k == "prim" and t.s == "bool":
        a, b = cval(I, st, args[0]), cval(I, st, args[1])
        return [(st, Or(a, b) if fn.path.endswith("bitor") else And(a, b))]
    return [(st, ("op", fn.path.split("::")[-1], cval(I, st, args[0]), cval(I, st, args[1])))]


@model("core::ops::bit::BitOrAssign::bitor_assign", "core::ops::bit::BitAndAssign::bitand_assign")
def bitassign(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    st = st.copy()
    r, p, v = cells(I, st, args[0])
    b = cval(I, st, args[1])
    if t.k == "prim" and t.s == "bool":
        I.write_loc(st, r, p, Or(v, b) if "bitor" in fn.path else And(v, b))
        return [(st, UNIT)]
    return None


@model("core::ops::bit::Not::not")
def op_not(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    if t.k == "prim" and t.s == "bool":
        return [(st, Not(cval(I, st, args[0])))]
    return None


def _arith(opn):
    def f(I, st, fn, args, atys, dty):
        t = strip(fn.args[0])
        if t.k == "prim" and t.s in NUMPRIM:
            a, b = cval(I, st, args[0]), cval(I, st, args[1])
            return [(st, add(a, b) if opn == "add" else sub(a, b) if opn == "sub" else I.mul(a, b))]
        return None
    return f


def _add(I, st, fn, args, atys, dty):
    t = strip(fn.args[0])
    if t.k == "adt" and t.path == "alloc::string::String":
        return [(st, concat(as_seq(cval(I, st, args[0])), as_seq(cval(I, st, args[1]))))]
    return _arith("add")(I, st, fn, args, atys, dty)


MODELS["core::ops::arith::Add::add"] = _add
MODELS["core::ops::arith::Sub::sub"] = _arith("sub")
MODELS["core::ops::arith::Mul::mul"] = _arith("mul")


def _arith_assign(opn):
    def f(I, st, fn, args, atys, dty):
        t = strip(fn.args[0])
        if opn == "add" and t.k == "adt" and t.path == "alloc::string::String":
            return push_str(I, st, fn, args, atys, dty)
        if t.k == "prim" and t.s in NUMPRIM:
            st = st.copy()
            r, p, v = cells(I, st, args[0])
            b = cval(I, st, args[1])
            I.write_loc(st, r, p, add(v, b) if opn == "add" else sub(v, b) if opn == "sub" else I.mul(v, b))
            return [(st, UNIT)]
        return None
    return f


MODELS["core::ops::arith::AddAssign::add_assign"] = _arith_assign("add")
MODELS["core::ops::arith::SubAssign::sub_assign"] = _arith_assign("sub")
MODELS["core::ops::arith::MulAssign::mul_assign"] = _arith_assign("mul")


@model(BS + "is_disjoint", HS + "is_disjoint")
def set_disjoint(I, st, fn, args, atys, dty):
    a, b = cval(I, st, args[0]), cval(I, st, args[1])
    return [(st, disjoint(a, b))]


HM = "std::collections::hash::map::HashMap::"
BM = "alloc::collections::btree::map::BTreeMap::"


def mhas(m, k):
    if m == ("mempty",):
        return FALSE
    if m[0] == "put" and m[2] == k:
        return TRUE
    return ("has", m, k)


@model(HM + "get", BM + "get")
def map_get(I, st, fn, args, atys, dty):
    m, k = cval(I, st, args[0]), I.content(st, args[1])
    return [(s, Some(mget(m, k)) if h else NONE) for s, h in I.branch(st, mhas(m, k))]


@model(HM + "contains_key", BM + "contains_key")
def map_has(I, st, fn, args, atys, dty):
    return [(st, mhas(cval(I, st, args[0]), I.content(st, args[1])))]


@model(HM + "insert", BM + "insert")
def map_insert(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, m = cells(I, st, args[0])
    k = I.content(st, args[1])
    out = []
    for s, h in I.branch(st, mhas(m, k)):
        s = s.copy()
        I.write_loc(s, r, p, put(m, k, args[2]))
        out.append((s, Some(mget(m, k)) if h else NONE))
    return out


@model(HM + "get_mut", BM + "get_mut")
def map_get_mut(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, m = cells(I, st, args[0])
    k = I.content(st, args[1])
    out = []
    for s, h in I.branch(st, mhas(m, k)):
        out.append((s, Some(("ref", r, p + (("mk", k),))) if h else NONE))
    return out


@model(HM + "entry", BM + "entry")
def map_entry(I, st, fn, args, atys, dty):
    st = st.copy()
    r, p, m = cells(I, st, args[0])
    return [(st, ("entry", ("ref", r, p), I.content(st, args[1])))]


_ENT = ["std::collections::hash::map::Entry::", "alloc::collections::btree::map::entry::Entry::"]


@model(*[e + "and_modify" for e in _ENT])
def and_modify(I, st, fn, args, atys, dty):
    _, ref, k = args[0]
    st = st.copy()
    f = clo_root(I, st, args[1])
    m = I.read_loc(st, ref[1], ref[2])
    out = []
    for s, h in I.branch(st, mhas(m, k)):
        if not h:
            out.append((s, args[0]))
            continue
        s = s.copy()
        I.write_loc(s, ref[1], ref[2], put(m, k, mget(m, k)))
        out += [(s2, r if r is PANIC else args[0]) for s2, r in I.call_value(s, f, (("ref", ref[1], ref[2] + (("mk", k),)),))]
    return out


@model(*[e + n for e in _ENT for n in ("or_insert", "or_insert_with", "or_default")])
def or_insert(I, st, fn, args, atys, dty):
    _, ref, k = args[0]
    st = st.copy()
    m = I.read_loc(st, ref[1], ref[2])
    out = []
    for s, h in I.branch(st, mhas(m, k)):
        s = s.copy()
        if h:
            I.write_loc(s, ref[1], ref[2], put(m, k, mget(m, k)))
            out.append((s, ("ref", ref[1], ref[2] + (("mk", k),))))
            continue
        if fn.path.endswith("or_insert"):
            ds = [(s, args[1])]
        elif fn.path.endswith("or_insert_with"):
            ds = I.call_value(s, args[1], ())
        else:
            ds = default_of(I, s, dty.t)
        for s2, d in ds:
            s2 = s2.copy()
            I.write_loc(s2, ref[1], ref[2], put(m, k, d))
            out.append((s2, ("ref", ref[1], ref[2] + (("mk", k),))))
    return out


# panics ------------------------------------------------------------------------
def panic(I, st, fn, args, atys, dty):
    return [(st, DIVERGE)]


for _p in """core::panicking::panic core::panicking::panic_fmt core::panicking::assert_failed std::panicking::begin_panic
core::panicking::unreachable_display core::panicking::panic_display core::panicking::panic_explicit core::panicking::panic_bounds_check
std::process::exit core::panicking::unreachable_default_msg_x std::panicking::begin_panic_fmt core::panicking::panic_nounwind
core::panicking::panic_str_2015 core::panicking::panic_in_cleanup core::option::expect_failed""".split():
    MODELS[_p] = panic


@model("alloc::boxed::Box::new_uninit", "core::mem::maybe_uninit::MaybeUninit::uninit")
def new_uninit(I, st, fn, args, atys, dty):
    return [(st, ("uninit",))]


@model("alloc::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(I, st, fn, args, atys, dty):
    """the end of `vec![..]`: an array was written through the wrappers"""
    def dig(v):
        if v[0] == "seq":
            return v
        if v[0] == "adt" and v[1].startswith("core::mem::"):
            return next((x for x in map(dig, v[3]) if x is not None), None)
        return None
    v = dig(args[0])
    return [(st, v)] if v is not None else unknown(I, st, fn, args, atys, dty)


# known pure functions kept uninterpreted ------------------------------------------
PURE = """str::trim str::trim_start str::trim_end str::trim_matches str::trim_start_matches str::trim_end_matches str::trim_left str::trim_right str::replace str::replacen
str::to_lowercase str::to_uppercase str::to_ascii_lowercase str::to_ascii_uppercase alloc::str::to_lowercase alloc::str::to_uppercase alloc::str::to_ascii_lowercase alloc::str::to_ascii_uppercase alloc::str::replace
char::is_alphabetic char::is_alphanumeric char::is_numeric char::is_whitespace char::is_control char::is_ascii_alphabetic char::is_ascii_alphanumeric char::is_uppercase char::is_lowercase str::ends_with slice::binary_search core::slice::binary_search syn::spanned::Spanned::span proc_macro2::Ident::span syn::lit::LitStr::span syn::lit::LitStr::value proc_macro2::Span::call_site
syn::ext::IdentExt::unraw heck::camel::CamelCase::to_camel_case heck::snake::SnakeCase::to_snake_case proc_macro2::Ident::new
syn::lit::LitStr::new syn::error::Error::new proc_macro::Span::call_site
core::panicking::unreachable_default_msg core::panicking::todo_default_msg core::fmt::Arguments::new core::fmt::Arguments::from_str
core::fmt::Arguments::from_str_nonconst core::fmt::rt::Argument::new_debug core::fmt::rt::Argument::new_display core::fmt::rt::Argument::new_upper_hex
alloc::fmt::format core::hash::Hash::hash u32::from_str_radix u16::from_str_radix str::parse proc_macro2::TokenStream::new
syn::error::Error::into_compile_error syn::error::Error::to_compile_error char::len_utf8 core::char::methods::len_utf8""".split()


def pure(I, st, fn, args, atys, dty):
    return [(st, ("op", fn.path.split("::")[-1]) + tuple(I.content(st, a) for a in args))]


for _p in PURE:
    MODELS.setdefault(_p, pure)


def unknown(I, st, fn, args, atys, dty):
    """A function the engine has no model for: its result (and whatever it
    can reach through `&mut`) becomes unknown."""
    I.unmodelled[fn.path] = I.unmodelled.get(fn.path, 0) + 1
    st = st.copy()
    snap = tuple(I.content(st, a) for a in args)
    res = ("unk", fn.path) + snap
    for i, a in enumerate(args):
        havoc(I, st, a, ("unk", fn.path + "!post%d" % i) + snap)
    return [(st, res)]


def havoc(I, st, a, v):
    if a[0] == "ref":
        I.write_loc(st, a[1], a[2], v)
    elif a[0] in ("tup",):
        for i, x in enumerate(a[1]):
            havoc(I, st, x, v + (Int(i),))
    elif a[0] == "clo":
        for i, x in enumerate(a[2]):
            havoc(I, st, x, v + (Int(i),))
    elif a[0] == "adt":
        for i, x in enumerate(a[3]):
            havoc(I, st, x, v + (Int(i),))


import models_quote  # noqa: E402,F401
