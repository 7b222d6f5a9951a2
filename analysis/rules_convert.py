"""The conversion of the surface syntax: scopes, structure, order."""
from base import *
from spec import Infeasible

NB = "chomp::nibble::"
CV = NB + "convert::"
CONVERT = CV + "Convert"
CCTX = CV + "Context"
CERR = CV + "ConvertError"
NAME = CH + "name::Name"
CONTENT = CH + "name::Content"
KIND = CH + "name::Kind"
INLINE = {NB + x for x in ("ParenExpression", "Ident", "Fix", "Lambda", "GoalStatement", "LetStatement")} | {"proc_macro2::Ident"}


def same_name(I, st, fn, args, atys, dty):
    """equality of name contents is a relation of its own (its laws: see names)"""
    t = fn.args[0] if fn.args else None
    while t is not None and t.k == "ref":
        t = t.t
    if t is None or t.k != "adt" or t.path != CONTENT:
        return None
    if len(fn.args) > 1:
        u = fn.args[1]
        while u.k == "ref":
            u = u.t
        if u.k != "adt" or u.path != CONTENT:
            return None
    a, b = I.content(st, args[0]), I.content(st, args[1])
    r = samename(a, b)
    return [(st, r if fn.path.endswith("eq") else Not(r))]


def samename(a, b):
    return ("eq",) + tuple(sorted((a, b), key=repr))


def convert_prim(C, full):
    def h(I, st, fn, args, atys, dty):
        t = fn.args[0] if fn.args else None
        while t is not None and t.k == "ref":
            t = t.t
        if t is not None and t.k == "adt":
            if t.path == "alloc::boxed::Box":
                return None
            if t.path in INLINE:
                return None
        return I.event(st, "convert", [args[0], args[1]])
    return h


def prims(C, full):
    return {CONVERT + "::convert": convert_prim(C, full),
            "core::cmp::PartialEq::eq": same_name, "core::cmp::PartialEq::ne": same_name,
            CH + "name::Name::merge": merge_prim,
            NAME + "::new_variable": new_name(C, "Variable"), NAME + "::new_let": new_name(C, "Let"), NAME + "::new_label": new_name(C, "Label")}


def new_name(C, kind):
    return lambda I, st, fn, args, atys, dty: [(st, mk_name(C, ("op", "content", I.content(st, args[0])), kind))]


def mk_name(C, content, kind):
    return C.build(NAME, content=content, kind=mk_adt(KIND, C.variant(KIND, kind), ()))


def spanned(C, ident):
    return ("op", "content", ident)


def ne(C, name, expr, span):
    return C.build(NE, name=name, expr=expr, span=span)


def scopes(C, rule="scope"):
    B = CCTX
    bind = lambda c, ctx: C.get(c.get(ctx) if ctx[0] == "ref" else ctx, B, "bindings")

    def lookup(c, ctx, name):
        S = bind(c, ctx)
        import models

        def step(c, v):
            i, n = fld(v, "()", 0, 0), fld(v, "()", 0, 1)
            if c.branch(samename(n, C.get(name, NAME, "content"))):
                raise Return(Some(i))
        c.each(None, step, ("it", "enum", ("it", "seq", T.rev(S)), Int(0)))
        return NONE
    C.check(rule + ".lookup", C.fn(CCTX + "::lookup"), prims(C, False), ["ctx", "name"], lookup, roots=[])

    def with_(names):
        def f(c, ctx, n, f_):
            s0 = c.get(ctx)
            xs = names(n)
            c.set(ctx, C.build(B, bindings=concat(bind(c, ctx), xs)))
            r = c.ev("callf", f_, ctx)
            c.set(ctx, s0)
            return r
        return f
    ct = lambda n: C.get(n, NAME, "content")
    pv = lambda n: mk_seq((("all", n),)) if False else n

    def push(c, ctx, n):
        c.set(ctx, C.build(B, bindings=concat(bind(c, ctx), seq_lit(ct(n)))))
        return UNIT
    C.check(rule + ".push", C.fn(CCTX + "::push_variable"), prims(C, False), ["ctx", "name"], push)
    C.check(rule + ".with", C.fn(CCTX + "::with_variable"), prims(C, False), ["ctx", "name", "f"], with_(lambda n: seq_lit(ct(n))))

    def withs(c, ctx, ns, f_):
        s0 = c.get(ctx)
        xs = c.map(ns, lambda c, n: ct(n))
        c.set(ctx, C.build(B, bindings=concat(C.get(s0, B, "bindings"), xs)))
        r = c.ev("callf", f_, ctx)
        c.set(ctx, s0)
        return r
    C.check(rule + ".with", C.fn(CCTX + "::with_variables"), prims(C, False), ["ctx", "names", "f"], withs)


def fresh_scope(C, rule="scope"):
    """lookups from a new scope, however it keeps its state"""
    x, y, z, w = (("sym", n) for n in ("outer", "inner", "last", "wanted"))
    look = ("look",)
    ct = lambda n: C.get(n, NAME, "content")

    def one(n, *ns):
        return ("one", n, ns)

    def both(a, b, *ns):
        return ("both", seq_lit(a, b), ns)

    def ideal(c, nodes, env):
        out = []
        for n in nodes:
            if n[0] == "one":
                out += ideal(c, n[-1], env + [n[1]])
            elif n[0] == "both":
                out += ideal(c, n[-1], env + [p[1] for p in T.parts(n[1])])
            else:
                r = NONE
                for k, v in enumerate(reversed(env)):
                    if c.branch(samename(ct(v), ct(w))):
                        r = Some(Int(k))
                        break
                out.append(r)
        return out
    for script in ((look, one(x, look), look), (one(x, one(y, look), look), one(z, look)), (both(x, y, look), look), (one(x, both(y, z, look), look),),
                   (both(x, y), one(z, look, one(x, look)))):
        scope_script(C, rule + ".lookup", C.fn(CCTX + "::lookup"), prims(C, False), C.fn(CCTX + "::new"), script,
                     {"one": C.fn(CCTX + "::with_variable"), "both": C.fn(CCTX + "::with_variables")},
                     (C.fn(CCTX + "::lookup"), [w]), lambda c: ideal(c, script, []))


def view_of(C, full):
    def view(I, st, v):
        out = []
        for s, k in I.fork_variant(st, v, RES):
            x = fld(v, RES, k, 0)
            if k == 0:
                out.append((s, Ok(x if full else erase(C, I, x))))
            elif x[0] == "adt" and x[1] == CERR and T.VARNAME(CERR, x[2]).startswith("ConvertError::Empty"):
                out.append((s, Err(("sym", "empty"))))
            elif x[0] == "adt" and x[1] == CERR and T.VARNAME(CERR, x[2]).startswith("Empty"):
                out.append((s, Err(("sym", "empty"))))
            else:
                out.append((s, Err(x)))
        return out
    return view


LABELS = {}


def erase(C, I, v):
    """keep the expression; drop names and spans everywhere below"""
    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ev" and t[1] == "convert":
            return t
        if t[0] == "adt" and t[1] == NE:
            n = I.p.nfields(NE, 0)
            j = I.p.field_index(NE, "expr")
            return ("adt", NE, 0, tuple(go(x) if i == j else ANY for i, x in enumerate(t[3])))
        if t[0] == "fld" and t[2] == RES and t[1][:2] == ("ev", "convert"):
            return ("adt", NE, 0, tuple(C.get(t, NE, "expr") if i == I.p.field_index(NE, "expr") else ANY for i in range(I.p.nfields(NE, 0))))
        if t[0] == "adt" and t[1] in (AST + "Lambda", AST + "Let"):
            a = I.p.adts[t[1]]["variants"][0]["fields"]
            return ("adt", t[1], 0, tuple(go(x) if a[i]["name"] in ("inner", "bound", "body") else ANY if a[i]["name"] == "name" else
                                          ("op", "count", slen(x)) for i, x in enumerate(t[3])))
        if t[0] == "adt" and t[1] in (AST + "Cat", AST + "Alt"):
            a = I.p.adts[t[1]]["variants"][0]["fields"]
            return ("adt", t[1], 0, tuple(go(x) if a[i]["name"] == "first" else seconds(x) for i, x in enumerate(t[3])))
        return tuple(go(x) if isinstance(x, tuple) else x for x in t)

    def seconds(S):
        out = []
        for p in parts(S):
            if p[0] == "e" and p[1][0] == "tup":
                out.append(("e", go(("tup", (ANY, p[1][1][1])))))
            elif p[0] == "map":
                out.append(("map", p[1], parts(seconds(("seq", p[2])))))
            else:
                out.append(p)
        return T.mk_seq(tuple(out))
    if v[0] == "adt" and v[1] == NE:
        return go(v)
    return ("adt", NE, 0, tuple(C.get(v, NE, "expr") if i == I.p.field_index(NE, "expr") else ANY for i in range(I.p.nfields(NE, 0))))


def structure(C, full=False, rule="convert"):
    pr = prims(C, full)
    view = view_of(C, full)
    comp = lambda path: None if not full and any(x in ("name", "span") for x in path) else rule_(path)

    def cv(c, x, ctx):
        return c.q(c.ev("convert", x, ctx))

    def res(name, expr, span):
        return Ok(ne(C, name, expr, span))
    span = lambda x: ("op", "span", x)

    cur = [rule]

    def rule_(path):
        return cur[0]

    def go(ty, spec, names=("x", "ctx"), roots=(("A", "ctx"),), alts=()):
        b = C.method(CONVERT, ty, "convert")
        cur[0] = rule + "." + ty.split("::")[-1]
        C.check(rule + "." + ty.split("::")[-1], b, pr, list(names), spec, comp, view=view, roots=list(roots), alts=alts)

    # terms
    TERM = NB + "Term"

    def term(c, x, ctx):
        k = c.case(x, TERM)
        v = fld(x, TERM, k, 0)
        V = {C.variant(TERM, n): n for n in ("Epsilon", "Ident", "Literal", "Fix", "Parens")}[k]
        if V == "Epsilon":
            return res(NONE, C.wrap(EXPR, "Epsilon", mk_adt(AST + "Epsilon", 0, ())), span(v))
        if V == "Ident":
            nm = mk_name(C, spanned(C, v), "Variable")
            r = c.call(C.fn(CCTX + "::lookup"), c.get(ctx), nm)
            if c.case(r, OPT) == 0:
                raise Return(Err(mk_adt(CERR, C.variant(CERR, "UndeclaredName"), (nm,))))
            return res(Some(nm), C.wrap(EXPR, "Variable", C.build(AST + "Variable", index=fld(r, OPT, 1, 0))), span(v))
        if V == "Literal":
            return res(NONE, C.wrap(EXPR, "Literal", ("op", "value", v)), span(v))
        if V == "Fix":
            i = cv(c, C.get(v, NB + "Fix", "expr"), ctx)
            return res(NONE, C.wrap(EXPR, "Fix", C.build(AST + "Fix", inner=i)), span(v))
        return c.ev("convert", C.get(v, NB + "ParenExpression", "expr"), ctx)
    go(TERM, term)

    def call(c, x, ctx):
        S = C.get(x, NB + "Call", "0")
        if not c.nonempty(S):
            raise Return(Err(("sym", "empty")))
        on = cv(c, T.nth(S, Int(0)), ctx)
        rest = drop(S, 1)
        args = c.map(rest, lambda c, e: cv(c, e, ctx))
        if not c.nonempty(rest):
            return Ok(on)
        return res(NONE, C.wrap(EXPR, "Call", C.build(AST + "Call", on=on, args=args)), span(x))

    def call_whole(c, x, ctx):
        """the same, the function converted along with its arguments"""
        S = C.get(x, NB + "Call", "0")
        every = c.map(S, lambda c, e: cv(c, e, ctx))
        if not c.nonempty(S):
            raise Return(Err(("sym", "empty")))
        if not c.nonempty(drop(S, 1)):
            return Ok(T.nth(every, Int(0)))
        return res(NONE, C.wrap(EXPR, "Call", C.build(AST + "Call", on=T.nth(every, Int(0)), args=drop(every, 1))), span(x))
    go(NB + "Call", call, alts=[call_whole])

    def pairs(ty, kind):
        def f(c, x, ctx):
            S = C.get(x, NB + ty, "0")
            if not c.nonempty(S):
                raise Return(Err(("sym", "empty")))

            def one(c, e):
                p = ("ev", "pair", e)
                k = c.case(p, T.PAIR)
                r = cv(c, e, ctx)
                return r, (span(fld(p, T.PAIR, k, 1)) if k == 0 else CALLSITE)
            first, p0 = one(c, T.nth(S, Int(0)))
            punct = c.cell(p0)

            def item(c, e):
                q = c.get(punct)
                r, p = one(c, e)
                c.set(punct, p)
                return mk_tup((q if full else ANY, r))
            if not c.nonempty(drop(S, 1)):
                return Ok(first)
            rest = c.map(drop(S, 1), item)
            return res(NONE, C.wrap(EXPR, kind, C.build(AST + kind, first=first, rest=rest)), span(x))
        go(NB + ty, f)
    CALLSITE = ("op", "call_site")
    pairs("Cat", "Cat")
    pairs("Alt", "Alt")

    def labelled(c, x, ctx):
        L = NB + "Labelled"
        v = cv(c, C.get(x, L, "cat"), ctx)
        l = C.get(x, L, "label")
        if c.case(l, OPT) == 1:
            lab = Some(mk_name(C, spanned(C, C.get(fld(l, OPT, 1, 0), NB + "Label", "label")), "Label"))
        else:
            lab = NONE
        return res(merged2(lab, C.get(v, NE, "name")), C.get(v, NE, "expr"), span(x))
    go(NB + "Labelled", labelled)

    def lam(c, x, ctx, args, body, sp):
        names = c.map(args, lambda c, a: mk_name(C, spanned(C, a), "Variable"))
        s0 = c.get(ctx)
        xs = c.map(names, lambda c, n: C.get(n, NAME, "content"))
        c.set(ctx, C.build(CCTX, bindings=concat(C.get(s0, CCTX, "bindings"), xs)))
        r = c.ev("convert", body, ctx)
        c.set(ctx, s0)
        r = c.q(r)
        return ne(C, NONE, C.wrap(EXPR, "Lambda", C.build(AST + "Lambda", args=names, inner=r)), sp)

    def expr(c, x, ctx):
        E = NB + "Expression"
        k = c.case(x, E)
        v = fld(x, E, k, 0)
        if k == C.variant(E, "Alt"):
            return c.ev("convert", v, ctx)
        L = NB + "Lambda"
        return Ok(lam(c, v, ctx, C.get(v, L, "args"), C.get(v, L, "expr"), span(v)))
    go(NB + "Expression", expr)

    def stmt(c, x, ctx):
        E = NB + "Statement"
        k = c.case(x, E)
        v = fld(x, E, k, 0)
        if k == C.variant(E, "Goal"):
            r = cv(c, C.get(v, NB + "GoalStatement", "expr"), ctx)
            ast = mk_name(C, ("op", "content", Str("Ast")), "Variable")
            return res(merged2(C.get(r, NE, "name"), Some(ast)), C.get(r, NE, "expr"), span(v))
        L = NB + "LetStatement"
        args = C.get(v, L, "args")
        if not c.nonempty(args):
            bound = cv(c, C.get(v, L, "expr"), ctx)
        else:
            bound = lam(c, v, ctx, args, C.get(v, L, "expr"), span(v))
        nm = mk_name(C, spanned(C, C.get(v, L, "name")), "Let")
        s0 = c.get(ctx)
        c.set(ctx, C.build(CCTX, bindings=concat(C.get(s0, CCTX, "bindings"), seq_lit(C.get(nm, NAME, "content")))))
        body = cv(c, C.get(v, L, "next"), ctx)
        b2 = ne(C, Some(nm), C.get(bound, NE, "expr"), C.get(bound, NE, "span"))
        return res(NONE, C.wrap(EXPR, "Let", C.build(AST + "Let", name=nm, bound=b2, body=body)), span(v))
    go(NB + "Statement", stmt, roots=())
