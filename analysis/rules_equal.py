"""When two values are the same."""
from base import *
import models
from spec import unk_in

EQ, HASH = "core::cmp::PartialEq", "core::hash::Hash"
CONTENT = CH + "name::Content"
# what does not count: the place something was read from, and what a grammar expression was called
IGNORED = {NE: {"name", "span"}, TY + "TypedExpression": {"span"}}
PAIRED = {AST + "Cat": {"rest"}, AST + "Alt": {"rest"}}     # (place, expression)
CRATES = ("chomp", "chewed")


def variant_of(I, st, fn, args, atys, dty):
    t = fn.args[0]
    while t.k == "ref":
        t = t.t
    v = I.content(st, args[0])
    return [(s, Int(k)) for s, k in I.fork_variant(st, v, t.path)] if t.k == "adt" and t.path in I.p.adts else None


def same(a, b):
    return ("eq",) + tuple(sorted((a, b), key=repr))


def prims():
    def eq(I, st, fn, args, atys, dty):
        t = fn.args[0] if fn.args else None
        while t is not None and t.k == "ref":
            t = t.t
        x, y = I.content(st, args[0]), I.content(st, args[1])
        if t is not None and t.k == "prim" and t.g == "bool":
            return [(s2, TRUE if p == q else FALSE) for s, p in I.branch(st, x) for s2, q in I.branch(s, y)]
        return [(st, eq_int(x, y) if t is not None and t.k == "prim" and t.g != "str" else same(x, y))]

    def ne(I, st, fn, args, atys, dty):
        return [(s2, FALSE if r else TRUE) for s, v in eq(I, st, fn, args, atys, dty) for s2, r in I.branch(s, v)]
    return {EQ + "::eq": eq, EQ + "::ne": ne, "core::intrinsics::discriminant_value": variant_of}


def bodies(C, trait, name):
    for b in sorted(C.p.bodies.values(), key=lambda b: b.canon + (b.self_ty.g if b.self_ty is not None else "")):
        if b.trait == trait and b.canon.endswith("::" + name) and b.self_ty is not None and b.self_ty.k == "adt" \
                and b.self_ty.path.split("::")[0] in CRATES and b.self_ty.path in C.p.adts and b.self_ty.path != CONTENT:
            yield b, b.self_ty.path


def fields(C, path, k):
    for i, f in enumerate(C.p.adts[path]["variants"][k]["fields"]):
        if f["name"] not in IGNORED.get(path, ()):
            yield i, f["name"]


def bool_view(I, st, v):
    return [(s, TRUE if r else FALSE) for s, r in I.branch(st, v)]


def equal(C, rule="equal.same"):
    """values are equal exactly when they are the same construct and everything that counts is equal"""
    n = 0
    for b, path in bodies(C, EQ, "eq"):
        t = b.locals[2]
        while t is not None and t.k == "ref":
            t = t.t
        if t is None or t.k != "adt" or t.path != path:
            continue
        n += 1

        def spec(c, x, y, path=path):
            k, j = c.case(x, path), c.case(y, path)
            if k != j:
                return FALSE
            for i, f in fields(C, path, k):
                p, q = fld(x, path, k, i), fld(y, path, k, i)
                if f in PAIRED.get(path, ()):
                    if not c.branch(eq_int(slen(models.as_seq(p)), slen(models.as_seq(q)))):
                        return FALSE

                    def step(c, e):
                        if not c.branch(same(e_tup(e, 0), e_tup(e, 1))):
                            raise Return(FALSE)
                    c.each(None, step, ("it", "zip", ("it", "seq", models.as_seq(p)), ("it", "seq", models.as_seq(q))))
                elif not alike(c, C.p.adts[path]["variants"][k]["fields"][i]["ty"], p, q):
                    return FALSE
            return TRUE
        C.check(rule, b, prims(), ["x", "y"], spec, view=bool_view)
    if not n:
        raise Missing("equality")


def alike(c, ty, p, q):
    if ty.k == "prim" and ty.g == "bool":
        return c.branch(p) == c.branch(q)
    if ty.k == "prim" and ty.g not in ("str",):
        return c.branch(eq_int(p, q))
    return c.branch(same(p, q))


def e_tup(e, k):
    return fld(fld(e, "()", 0, k), "()", 0, 1)


def hashes(C, rule="equal.hash"):
    """what is hashed is part of what is compared, so that equal values hash alike"""
    st_ = STATE
    n = 0
    for b, path in bodies(C, HASH, "hash"):
        n += 1
        I = C.interp(dict(prims(), **{HASH + "::hash": hash_into}))
        st = St()
        st.mem[st_] = ("op", "start")
        try:
            outs = I.call_body(st, b, [("sym", "x"), ("ref", st_, ())])
        except Undecided as e:
            C.done(I)
            C.record(rule, fname(b), "undecided", str(e), loc=b.loc)
            continue
        C.done(I)
        bad = und = None
        for o in outs:
            if o.kind != "ret":
                continue
            k = o.st.F.variant(("sym", "x"))
            ok = [("sym", "x")] if k is None and len(C.p.adts[path]["variants"]) != 1 else []
            if k is None and len(C.p.adts[path]["variants"]) == 1:
                k = 0
            if k is not None:
                ok += [fld(("sym", "x"), path, k, i) for i, _ in fields(C, path, k)]
            v = o.st.mem[st_]
            while v[:2] == ("op", "hashed"):
                t = v[3]
                if not is_const(t) and t not in ok:
                    if unk_in(t):
                        und = t
                    elif not (path in PAIRED and any(under(t, x) for x in ok)):
                        bad = t
                v = v[2]
            if v != ("op", "start"):
                und = v
        C.record(rule, fname(b), "violation" if bad else "undecided" if und else "ok",
                 "hashes %s, which is not compared" % T.show(bad) if bad else T.show(und)[:200] if und else "%d paths" % len(outs), loc=b.loc)
    if not n:
        raise Missing("hashing")


def under(t, x):
    while t != x and t[0] == "fld":
        t = t[1]
    return t == x


def is_const(t):
    return t[0] in ("c", "char", "bool", "str") or t[0] == "aff" and not t[2]
