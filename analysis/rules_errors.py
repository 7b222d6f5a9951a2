"""Errors: where they are reported, and what their messages show."""
from base import *
from spec import unk_in
import models
import re

CW = "chewed::error::"
TERR = TY + "error::"
RERR = AST + "error::ReductionError"
CERR = "chomp::nibble::convert::ConvertError"
DISPLAY = "core::fmt::Display"
F = ("A", "f")


# -------------------------------------------------------------- text appended
def fmt_prims():
    def app(st, r, p, I, ps):
        st = st.copy()
        v = I.read_loc(st, r, p)
        I.write_loc(st, r, p, concat(v, mk_seq(tuple(ps))))
        return [(st, Ok(UNIT))]

    def into(f):
        def h(I, st, fn, args, atys, dty):
            k = next((k for k, a in enumerate(args) if a[0] == "ref" and I.deref_root(st, a)[0] == F), None)
            if k is None:
                return None
            r, p = I.deref_root(st, args[k])
            return app(st, r, p, I, f(I, st, [a for j, a in enumerate(args) if j != k]))
        return h

    def args_of(I, st, xs):
        v = xs[0]
        return parts(v[1]) if v[0] == "fmt" else (("e", ("unk", "text", v)),)

    def txt(I, st, xs):
        v = I.content(st, xs[0])
        return (("e", ("txt", v[1])),) if v[0] == "str" else tuple(parts(v[1])) if v[0] == "text" else (("e", ("shown", "display", v, ())),)

    def val(kind):
        return lambda I, st, xs: (("e", ("shown", kind, I.content(st, xs[0]), ())),)
    P = {}
    for n in ("core::fmt::Formatter::write_fmt", "core::fmt::Write::write_fmt"):
        P[n] = into(args_of)
    for n in ("write_str", "write_char", "pad"):
        P["core::fmt::Formatter::" + n] = P["core::fmt::Write::" + n] = into(txt)
    for tr, k in (("Display", "display"), ("Debug", "debug"), ("UpperHex", "upper_hex"), ("LowerHex", "lower_hex")):
        P["core::fmt::%s::fmt" % tr] = into(val(k))
    P["alloc::string::ToString::to_string"] = lambda I, st, fn, args, atys, dty: [(st, ("text", seq_lit(("shown", "display", I.content(st, args[0]), ()))))]
    return P


def values(F_, v):
    """the values a text shows, in order; numbers written out count"""
    out = []
    for p in parts(v):
        if p[0] == "e":
            t = p[1]
            if t[0] == "txt":
                out += [("e", Int(int(n))) for n in re.findall(r"[0-9]+", t[1])]
            elif t[0] == "sep":
                if parts(values(F_, t[1])):
                    out.append(p)
            elif t[0] == "shown":
                out += flat(F_, t[2])
            else:
                out.append(p)
        elif p[0] == "map":
            E, X = ("elem", -3, p[1]), ("idx", -3, p[1])
            body = parts(values(F_, mk_seq(T.open_map(p, E, X))))
            if body:
                out.append(T.mk_map(p[1], E, X, body))
        else:
            out.append(p)
    return mk_seq(tuple(out))


def flat(F_, v):
    if v[0] in ("text", "fmt"):
        return list(parts(values(F_, v[1])))
    if v[0] == "str":
        return [("e", Int(int(n))) for n in re.findall(r"[0-9]+", v[1])]
    if v[0] in ("aff", "len"):
        for k in range(4):
            if F_.decide(eq_int(v, Int(k))) is True:
                return [("e", Int(k))]
    return [("e", number_of(v))]


PROG = [None]


def number_of(v):
    """a variable shows its number"""
    if v[0] == "fld" and PROG[0] is not None and v[2] in PROG[0].adts:
        try:
            t = PROG[0].adts[v[2]]["variants"][v[3]]["fields"][v[4]]["ty"]
        except (IndexError, KeyError):
            return v
        V = AST + "Variable"
        if t is not None and strip_ref(t).k == "adt" and strip_ref(t).path == V:
            return fld(v, V, 0, [f["name"] for f in PROG[0].adts[V]["variants"][0]["fields"]].index("index"))
    return v


def view(I, st, v):
    PROG[0] = I.p
    st = st.copy()
    st.mem[F] = values(st.F, st.mem[F])
    return [(st, v)]


def kinds(C, of, path, words):
    """a text that speaks of another kind of error than the one that happened is wrong, whatever its wording"""
    by = {C.variant(path, v): w for v, w in words.items()}

    def mark(I, st, v):
        text = "".join(p[1][1].lower() for p in parts(st.mem[F]) if p[0] == "e" and p[1][0] == "txt")
        own = by.get(st.F.variant(of))
        said = [w for w in by.values() if w in text]
        wrong = own is not None and said and own not in said
        o = view(I, st, v)
        if wrong:
            for s, _ in o:
                s.mem[F] = concat(seq_lit(("misnamed", said[0])), s.mem[F])
        return o
    return mark


def show(C, rule, path, spec, view=view):
    """the values `path` shows are those of `spec`, in that order"""
    def ref(c, x, f):
        c.set(f, mk_seq(tuple(spec(c, x if x[0] != "ref" else c.get(x)))))
        return Ok(UNIT)
    C.check(rule, C.method(DISPLAY, path, "fmt"), fmt_prims(), None, ref, args=[("sym", "self"), ("ref", F, ())], mems={F: EMPTY}, roots=[F], view=view)


def field(C, path, variant, k):
    """the only field, or the named one"""
    vi = C.variant(path, variant)
    if isinstance(k, str):
        return lambda x: C.get(x, path, k, variant)
    return lambda x: fld(x, path, vi, k)


def cases(C, path, **by):
    """spec by variant: names of the fields shown"""
    n = {C.variant(path, v): (v, ks) for v, ks in by.items()}
    if len(n) != len(C.p.adts[path]["variants"]):
        raise Missing(path + " has other variants")

    def spec(c, x):
        v, ks = n[c.case(x, path)]
        if callable(ks):
            return ks(c, x)
        return [("e", field(C, path, v, k)(x)) for k in ks]
    return spec


def parsing(C, rule="errors.parsing"):
    """position, what was found, and everything that was expected, in order"""
    T_ = CW + "TakeError"

    def branch(c, x):
        f = lambda k: field(C, T_, "BadBranch", k)(x)
        return [("e", f(0)), ("e", f(1))] + list(parts(models.as_seq(f(2))))
    show(C, rule, T_, cases(C, T_, BadBranch=branch, BadString=(0, 1, 2), EndOfStream=(0,)))
    show(C, rule, CW + "ParseError", cases(C, CW + "ParseError", TakeError=(0,), InputContinues=(0,)))
    L = "chewed::position::LineCol"
    show(C, rule, L, lambda c, x: [("e", C.get(x, L, "line")), ("e", C.get(x, L, "col"))])


def grammar(C, rule="errors.grammar"):
    """the name or the counts at fault are shown; a wrapped error shows what it wraps"""
    V = TERR + "VariableError"

    def var(c, x):
        n = C.get(x, V, "name")
        if c.case(n, OPT) == 1:
            return [("e", fld(n, OPT, 1, 0))]
        return [("e", C.get(C.get(x, V, "var"), AST + "Variable", "index"))]
    x = ("sym", "self")
    show(C, rule, V, var, kinds(C, C.get(x, V, "inner"), TY + "context::GetVariableError", {"FreeVariable": "unbound", "GuardedVariable": "guarded"}))

    def count(c, x):
        g = lambda k: C.get(x, RERR, k, "WrongArgCount")
        out = []
        for n in (slen(models.as_seq(C.get(g("lambda"), AST + "Lambda", "args"))), slen(models.as_seq(g("args")))):
            c.branch(eq_int(n, Int(1)))
            out += flat(c.st.F, n)
        return out
    show(C, rule, RERR, cases(C, RERR, CallNotAFunction=(), WrongArgCount=count), kinds(C, x, RERR, {"CallNotAFunction": "expected a function", "WrongArgCount": "argument"}))
    show(C, rule, CERR, cases(C, CERR, UndeclaredName=(0,), EmptyCat=(), EmptyAlt=(), EmptyCall=(), InvalidChar=(0,)),
         kinds(C, x, CERR, {"UndeclaredName": "undeclared", "EmptyCat": "concatenation", "EmptyAlt": "alternation", "EmptyCall": "call", "InvalidChar": "escape"}))
    show(C, rule, TERR + "CatError", cases(C, TERR + "CatError", FirstNullable=(), FirstFlastOverlap=()),
         kinds(C, x, TERR + "CatError", {"FirstNullable": "nullable", "FirstFlastOverlap": "overlap"}))
    show(C, rule, TERR + "AltError", cases(C, TERR + "AltError", BothNullable=(), FirstOverlap=()),
         kinds(C, x, TERR + "AltError", {"BothNullable": "nullable", "FirstOverlap": "overlap"}))
    TE_ = TERR + "TypeError"
    show(C, rule, TE_, cases(C, TE_, Cat=(0,), Alt=(0,), Variable=(0,), UnexpectedCall=(), UnexpectedLambda=(), UnexpectedLet=(), ExpectedLambda=()),
         kinds(C, x, TE_, {"UnexpectedCall": "unexpected call", "UnexpectedLambda": "unexpected lambda", "UnexpectedLet": "unexpected let", "ExpectedLambda": "expected a lambda"}))


def located(C, rule="errors.located"):
    """a compiler error carries the place of the offending part and the message"""
    CAT, ALT = TERR + "CatError", TERR + "AltError"
    TE_ = TERR + "TypeError"

    def both(path, f):
        return lambda c, x: C.get(x, path, f, C.p.adts[path]["variants"][c.case(x, path)]["name"])

    def ty(c, x):
        v = C.p.adts[TE_]["variants"][c.case(x, TE_)]["name"]
        if v == "Cat":
            return both(CAT, "punct")(c, field(C, TE_, v, 0)(x))
        if v == "Alt":
            return both(ALT, "punct")(c, field(C, TE_, v, 0)(x))
        if v == "Variable":
            return C.get(field(C, TE_, v, 0)(x), TERR + "VariableError", "span")
        return C.get(x, TE_, "span", v)

    def conv(c, x):
        v = C.p.adts[CERR]["variants"][c.case(x, CERR)]["name"]
        if v == "InvalidChar":
            return ("op", "call_site")
        y = field(C, CERR, v, 0)(x)
        return ("op", "span", y) if v == "UndeclaredName" else y
    for path, span in ((RERR, both(RERR, "span")), (TE_, ty), (CERR, conv)):
        bs = [b for b in C.p.bodies.values() if b.canon.endswith("::from") and b.trait == "core::convert::From" and b.self_ty is not None
              and b.self_ty.k == "adt" and b.self_ty.path == "syn::error::Error" and strip_ref(b.locals[1]).path == path]
        if len(bs) != 1:
            raise Missing("conversion of %s to a compiler error" % path)

        def out(I, st, v):
            if v[:2] == ("op", "new") and len(v) == 4 and v[3][0] == "text":
                v = ("op", "error", v[2], values(st.F, v[3][1]))
            elif v[:2] == ("op", "new") and len(v) == 4 and not unk_in(v[3]):      # shown by the compiler error itself
                v = ("op", "error", v[2], mk_seq(tuple(flat(st.F, v[3]))))
            return [(st, v)]
        C.check(rule, bs[0], fmt_prims(), ["e"], lambda c, e, span=span: ("op", "new", span(c, e), ("text", seq_lit(("shown", "display", e, ())))), view=out)


def strip_ref(t):
    while t.k == "ref":
        t = t.t
    return t
