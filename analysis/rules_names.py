"""Names: which name wins, and when two names are the same."""
from base import *
import models

NAME = CH + "name::Name"
CONTENT = CH + "name::Content"
KIND = CH + "name::Kind"
RANK = {"Variable": 0, "Let": 1, "Label": 2}


# the text of an identifier stands for the identifier
TXT = {"alloc::string::ToString::to_string": lambda I, st, fn, args, atys, dty: [(st, I.content(st, args[0]))]}


def rank(C, c, n):
    k = c.case(C.get(n, NAME, "kind"), KIND)
    return {C.variant(KIND, x): r for x, r in RANK.items()}[k]


def merging(C, rule="names.merge"):
    def merge(c, a, b):
        if c.case(a, OPT) == 0:
            return b
        if c.case(b, OPT) == 0:
            return a
        x, y = fld(a, OPT, 1, 0), fld(b, OPT, 1, 0)
        return a if rank(C, c, x) >= rank(C, c, y) else b
    C.check(rule, C.fn(NAME + "::merge"), {}, ["this", "that"], merge)

    def all_(c, xs):
        acc = c.cell(NONE)

        def step(c, x):
            c.set(acc, c.ev("merge", c.get(acc), x))
        c.each(None, step, c.I.mod.to_iter(c.I, c.st, xs, None))
        return c.get(acc)
    C.check(rule, C.fn(NAME + "::merge_all"), {NAME + "::merge": opaque("merge")}, ["names"], all_)
    for kind, f in (("Variable", "new_variable"), ("Let", "new_let"), ("Label", "new_label")):
        def view(I, st, v):
            return [(st, C.get(v, NAME, "kind"))]
        C.check(rule, C.fn(NAME + "::" + f), {}, ["content"], lambda c, x, kind=kind: C.build(NAME, content=ANY, kind=mk_adt(KIND, C.variant(KIND, kind), ())), view=view)


def identity(C, rule="names.same"):
    """equality and hashing look at the text without the raw prefix, and at nothing else"""
    def text(c, v):
        k = c.case(v, CONTENT)
        x = fld(v, CONTENT, k, 0)
        return ("op", "unraw", x) if k == C.variant(CONTENT, "Spanned") else x

    def eq(c, a, b):
        x, y = text(c, a), text(c, b)
        return ("eq",) + tuple(sorted((x, y), key=repr))
    n = 0
    for b in C.p.bodies.values():
        if b.trait == "core::cmp::PartialEq" and b.self_ty is not None and b.self_ty.k == "adt" and b.self_ty.path == CONTENT \
                and b.canon.endswith("::eq") and not b.derived:
            ty = b.locals[2]
            while ty is not None and ty.k == "ref":
                ty = ty.t
            if ty is not None and ty.k == "adt" and ty.path == CONTENT:
                n += 1
                C.check(rule, b, TXT, ["a", "b"], eq, view=bool_view)
            else:
                C.check(rule, b, TXT, ["a", "b"], lambda c, a, b: ("eq",) + tuple(sorted((text(c, a), b), key=repr)), view=bool_view)
    b = C.method("core::hash::Hash", CONTENT, "hash")

    def hashed(c, a, s):
        c.set(s, ("op", "hashed", c.get(s), text(c, a)))
        return UNIT
    C.check(rule, b, dict(TXT, **{"core::hash::Hash::hash": hash_into}), ["a", "state"], hashed,
            args=[("sym", "a"), ("ref", STATE, ())], mems={STATE: ("op", "start")}, roots=[STATE])


def bool_view(I, st, v):
    return [(s, TRUE if r else FALSE) for s, r in I.branch(st, v)]
