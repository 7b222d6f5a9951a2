"""Typing rules: acceptance, types of results, guardedness, fixed points."""
from base import *
from absint import Undecided
import models

TE = TY + "TypedExpression"
TYPE = TY + "Type"
RAW = TY + "RawTypedExpression"
INFER = TY + "infer::TypeInfer"
CTX = TY + "context::Context"
TERR = TY + "error::TypeError"
GVE = TY + "context::GetVariableError"
FS = CH + "set::FirstSet"
LS = CH + "set::FlastSet"


def prims(full):
    return {
        VISITABLE + "::fold": fold_prim if full else fold_erased,
        TY + "Typed::get_type": typeof_prim,
        CH + "name::Name::merge": merge_prim,
        CH + "name::Name::merge_all": merge_all_prim,
    }


def merge_all_prim(I, st, fn, args, atys, dty):
    return [(s, merged(q)) for s, q in models.force_any(I, st, args[0])]


class Ty:
    """Reference algebra of types (Krishnaswami & Yallop): nullable, first, flast."""

    def __init__(self, C):
        self.C = C

    def n(self, t):
        return self.C.get(t, TYPE, "nullable")

    def first(self, t):
        return self.inner(self.C.get(t, TYPE, "first_set"), FS)

    def flast(self, t):
        return self.inner(self.C.get(t, TYPE, "flast_set"), LS)

    def inner(self, s, path):
        a = self.C.p.adts.get(path)
        if a is None or len(a["variants"][0]["fields"]) != 1:
            raise Missing(path)
        return fld(s, path, 0, 0)

    def mk(self, n, first, flast):
        return self.C.build(TYPE, nullable=n, first_set=mk_adt(FS, 0, (first,)), flast_set=mk_adt(LS, 0, (flast,)))

    def cat(self, c, a, b):
        f1, f2 = self.first(a), self.first(b)
        l1, l2 = self.flast(a), self.flast(b)
        nb = c.branch(self.n(b))
        na = c.branch(self.n(a))
        return self.mk(B(na and nb), union(f1, f2) if na else f1, union(l2, union(f2, l1)) if nb else l2)

    def alt(self, c, a, b):
        return self.mk(Or(self.n(a), self.n(b)), union(self.first(a), self.first(b)), union(self.flast(a), self.flast(b)))

    def eq(self, a, b):
        e = Or(And(self.n(a), self.n(b)), And(Not(self.n(a)), Not(self.n(b))))
        return And(e, And(eqv(self.first(a), self.first(b)), eqv(self.flast(a), self.flast(b))))


def eqv(a, b):
    if a == b:
        return TRUE
    return ("eq",) + tuple(sorted((a, b), key=repr))


def typeof(x):
    return ("ev", "typeof", x)


def te(C, raw, name, span):
    return C.build(TE, inner=raw, name=name, span=span)


def kind(s):
    return Err(("sym", s))


def within(C, c, body, args):
    """contents of *args[0] when `body` calls its closure argument"""
    outs = c.I.call_body(c.st, body, args + [("sym", "$probe")], 1, ())
    vals = set()
    for o in outs:
        for e in o.st.ev[len(c.st.ev):]:
            if e[0] == "ev" and e[1] == "callf" and e[2] == ("sym", "$probe"):
                vals.add(e[3])
    if len(vals) != 1:
        raise Undecided("closure of %s is called %d ways" % (body.canon, len(vals)))
    return vals.pop()


def errkind(I, st, e):
    """[(st, kind)]: the nested variants of an error, without its payload"""
    if e[0] == "adt" and I.p.adts.get(e[1], {}).get("kind") == "enum":
        outs = [(st, [T.VARNAME(e[1], e[2])])]
        if e[3] and e[3][0][0] == "adt" and "Error" in e[3][0][1]:
            outs = [(s2, [T.VARNAME(e[1], e[2]), k]) for s2, k in errkind(I, st, e[3][0]) if isinstance(k, str)] or outs
        return [(s, "/".join(k)) for s, k in outs]
    if e[0] == "adt" and I.p.adts.get(e[1], {}).get("kind") == "struct":
        for x in e[3]:
            if x[0] == "adt" and I.p.adts.get(x[1], {}).get("kind") == "enum" and x[1] == GVE:
                return [(st, T.VARNAME(e[1], 0) + "/" + T.VARNAME(x[1], x[2]))]
    return [(st, e)]


def kind_view(I, st, v):
    """results with errors reduced to their kind"""
    out = []
    for s, k in I.fork_variant(st, v, RES):
        if k == 0:
            out.append((s, Ok(fld(v, RES, 0, 0))))
        else:
            for s2, e in errkind(I, s, fld(v, RES, 1, 0)):
                out.append((s2, Err(("sym", e) if isinstance(e, str) else e)))
    return out


CORE = {"name": None, "span": None}


def core(rule):
    def f(path):
        if any(x in ("name", "span") for x in path):
            return None
        return rule
    return f


def names_only(rule):
    def f(path):
        return rule
    return f


def fold_rule(C, rule, body, argnames, spec, full, alts=()):
    """core: accept/reject and types; full: also names, spans and the names
    handed to recursive calls"""
    if not full:
        C.check(rule, body, prims(False), argnames, spec, core(rule), view=kind_view, alts=alts)
    else:
        C.check(rule, body, prims(True), argnames, spec, names_only(rule), view=kind_view, alts=alts)


def fold_ev(c, full, ne, folder):
    return c.ev("fold", ne if full else erase_ne(c.I, ne), folder)


def infer_of(C, ctx):
    return mk_adt(INFER, 0, (ctx,))


def ctx_ref(C, c, slf):
    return fld(c.get(slf), INFER, 0, C.fidx(INFER, "context"))


def cat(C, full=False, rule="typing.sequence"):
    ty = Ty(C)

    def spec(c, slf, name, span, x):
        first = c.q(fold_ev(c, full, C.get(x, AST + "Cat", "first"), c.get(slf)))
        if c.branch(ty.n(typeof(first))):
            raise Return(kind("TypeError::Cat/CatError::FirstNullable"))
        t = c.cell(typeof(first))
        terms = c.cell(seq_lit(first))
        inner = within(C, c, C.fn(CTX + "::with_unguard"), [ctx_ref(C, c, slf)])

        def step(c, e):
            r = c.q(fold_ev(c, full, fld(e, "()", 0, 1), infer_of(C, inner)))
            if not c.branch(disjoint(ty.flast(c.get(t)), ty.first(typeof(r)))):
                raise Return(kind("TypeError::Cat/CatError::FirstFlastOverlap"))
            c.set(t, ty.cat(c, c.get(t), typeof(r)))
            c.push(terms, r)
        c.each(C.get(x, AST + "Cat", "rest"), step)
        return Ok(te(C, C.wrap(RAW, "Cat", C.build(TY + "Cat", terms=c.get(terms), ty=c.get(t))), name, span))

    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_cat"), ["self", "name", "span", "cat"], spec, full)


def alt(C, full=False, rule="typing.alternative"):
    ty = Ty(C)

    def spec(c, slf, name, span, x):
        first = c.q(fold_ev(c, full, C.get(x, AST + "Alt", "first"), c.get(slf)))
        t = c.cell(typeof(first))
        terms = c.cell(seq_lit(first))

        def step(c, e):
            r = c.q(fold_ev(c, full, fld(e, "()", 0, 1), c.get(slf)))
            if c.branch(And(ty.n(c.get(t)), ty.n(typeof(r)))):
                raise Return(kind("TypeError::Alt/AltError::BothNullable"))
            if not c.branch(disjoint(ty.first(c.get(t)), ty.first(typeof(r)))):
                raise Return(kind("TypeError::Alt/AltError::FirstOverlap"))
            c.set(t, ty.alt(c, c.get(t), typeof(r)))
            c.push(terms, r)
        c.each(C.get(x, AST + "Alt", "rest"), step)
        return Ok(te(C, C.wrap(RAW, "Alt", C.build(TY + "Alt", terms=c.get(terms), ty=c.get(t))), name, span))

    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_alt"), ["self", "name", "span", "alt"], spec, full)


def fix(C, full=False, rule="typing.fixpoint"):
    ty = Ty(C)

    def setup(c, slf, name, x):
        inner = C.get(x, AST + "Fix", "inner")
        expr = C.get(inner, NE, "expr")
        if c.case(expr, EXPR) != C.variant(EXPR, "Lambda"):
            raise Return(kind("TypeError::ExpectedLambda"))
        lam = fld(expr, EXPR, C.variant(EXPR, "Lambda"), 0)
        if not c.branch(eq_int(slen(C.get(lam, AST + "Lambda", "args")), Int(1))):
            raise Return(kind("TypeError::ExpectedLambda"))
        body = C.get(lam, AST + "Lambda", "inner")
        nm = merged(seq_lit(C.get(inner, NE, "name"), C.get(body, NE, "name"), name))
        body = C.build(NE, name=nm, expr=C.get(body, NE, "expr"), span=C.get(body, NE, "span"))

        def attempt(c, t):
            ctx = within(C, c, C.fn(CTX + "::with_variable_type"), [ctx_ref(C, c, slf), t])
            return c.q(fold_ev(c, full, body, infer_of(C, ctx)))
        return c.cell(ty.mk(FALSE, SEMPTY, SEMPTY)), attempt

    def done(r, name, span):
        raise Return(Ok(te(C, C.wrap(RAW, "Fix", C.build(TY + "Fix", inner=r)), name, span)))

    def spec(c, slf, name, span, x):
        t, attempt = setup(c, slf, name, x)

        def step(c):
            last = c.get(t)
            r = attempt(c, last)
            c.set(t, typeof(r))
            if c.branch(ty.eq(last, typeof(r))):
                done(r, name, span)
        c.loop(step)

    def ahead(c, slf, name, span, x):
        """the same, the first attempt made before the loop"""
        t, attempt = setup(c, slf, name, x)
        r = c.cell(attempt(c, c.get(t)))

        def step(c):
            if c.branch(ty.eq(c.get(t), typeof(c.get(r)))):
                done(c.get(r), name, span)
            c.set(t, typeof(c.get(r)))
            c.set(r, attempt(c, c.get(t)))
        c.loop(step)

    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_fix"), ["self", "name", "span", "fix"], spec, full, alts=[ahead])


def leafs(C, full=False, rule="typing.leaf"):
    ty = Ty(C)

    def eps(c, slf, name, span, x):
        return Ok(te(C, C.wrap(RAW, "Epsilon", C.build(TY + "Epsilon", ty=ty.mk(TRUE, SEMPTY, SEMPTY))), name, span))
    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_epsilon"), ["self", "name", "span", "eps"], eps, full)

    def lit(c, slf, name, span, x):
        if c.branch(emptiness(x)):
            t = ty.mk(TRUE, SEMPTY, SEMPTY)
        else:
            t = ty.mk(FALSE, ("single", nth(x, Int(0))), SEMPTY)
        return Ok(te(C, C.wrap(RAW, "Literal", C.build(TY + "Literal", inner=x, ty=t)), name, span))
    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_literal"), ["self", "name", "span", "lit"], lit, full)

    gv = C.fn(CTX + "::get_variable_type")

    def var(c, slf, name, span, x):
        r = c.call(gv, ctx_ref(C, c, slf), x)
        if c.case(r, RES) == 0:
            return Ok(te(C, C.wrap(RAW, "Variable", C.build(TY + "Variable", inner=x, ty=fld(r, RES, 0, 0))), name, span))
        k = c.case(fld(r, RES, 1, 0), GVE)
        return kind("TypeError::Variable/VariableError/" + T.VARNAME(GVE, k))
    fold_rule(C, rule, C.method(FOLDER, INFER, "fold_variable"), ["self", "name", "span", "var"], var, full)
    for m, v in (("call", "Call"), ("lambda", "Lambda"), ("let", "Let")):
        def rej(c, slf, name, span, x, v=v):
            return kind("TypeError::Unexpected" + v)
        fold_rule(C, rule, C.method(FOLDER, INFER, "fold_" + m), ["self", "name", "span", m], rej, full)


# ------------------------------------------------------------------ algebra
def algebra(C):
    ty = Ty(C)
    b = C.fn(TYPE + "::cat")
    C.check("algebra.cat", b, {}, ["self", "other"],
            lambda c, s, o: (c.set(s, ty.cat(c, c.get(s), o)), UNIT)[1])
    C.check("algebra.alt", C.fn(TYPE + "::alt"), {}, ["self", "other"],
            lambda c, s, o: (c.set(s, ty.alt(c, c.get(s), o)), UNIT)[1])

    def of_str(c, s):
        if c.branch(emptiness(s)):
            return ty.mk(TRUE, SEMPTY, SEMPTY)
        return ty.mk(FALSE, ("single", nth(s, Int(0))), SEMPTY)
    C.check("algebra.literal", C.fn(TYPE + "::of_str"), {}, ["s"], of_str)
    C.check("algebra.new", C.fn(TYPE + "::new"), {}, ["n", "f", "l"], lambda c, n, f, l: C.build(TYPE, nullable=n, first_set=f, flast_set=l))
    C.check("algebra.bottom", C.method("core::default::Default", TYPE, "default"), {}, [], lambda c: ty.mk(FALSE, SEMPTY, SEMPTY))
    for f in ("nullable", "first_set", "flast_set"):
        C.check("algebra." + f, C.fn(TYPE + "::" + f), {}, ["self"], lambda c, s, f=f: C.get(s, TYPE, f))
    w1, w2 = (lambda v: mk_adt(FS, 0, (v,))), (lambda v: mk_adt(LS, 0, (v,)))
    i1, i2 = (lambda v: ty.inner(v, FS)), (lambda v: ty.inner(v, LS))
    for P, w, i in ((FS, w1, i1), (LS, w2, i2)):
        C.check("sets.new", C.fn(P + "::new"), {}, [], lambda c: w(SEMPTY))
        C.check("sets.is_empty", C.fn(P + "::is_empty"), {}, ["s"], lambda c, s: set_empty(i(s)))
        C.check("sets.union", C.fn(P + "::union"), {}, ["s", "o"], lambda c, s, o: (c.set(s, w(union(i(c.get(s)), i(o)))), UNIT)[1])
        C.check("sets.disjoint", C.fn(P + "::disjoint"), {}, ["s", "o"], lambda c, s, o: disjoint(i(s), i1(o)))
        C.check("sets.iter", C.method("core::iter::traits::collect::IntoIterator", P, "into_iter"), {}, ["s"],
                lambda c, s: ("it", "seq", i(s)))
    C.check("sets.union_first", C.fn(LS + "::union_first"), {}, ["s", "o"], lambda c, s, o: (c.set(s, w2(union(i2(c.get(s)), i1(o)))), UNIT)[1])
    C.check("sets.of_str", C.fn(FS + "::of_str"), {}, ["s"], lambda c, s: w1(SEMPTY) if c.branch(emptiness(s)) else w1(("single", nth(s, Int(0)))))
    # the type a typed expression reports is the type stored for it
    GT = TY + "Typed"
    for n in ("Epsilon", "Literal", "Cat", "Alt", "Variable"):
        C.check("algebra.get_type", C.method(GT, TY + n, "get_type"), {}, ["s"], lambda c, s, n=n: C.get(s, TY + n, "ty"))

    def of(ty, v):
        """what the type of a node of the Rust type `ty` is (checked just above)"""
        n = ty.path[len(TY):] if ty is not None and ty.k == "adt" and ty.path.startswith(TY) else None
        if n in ("Epsilon", "Literal", "Cat", "Alt", "Variable"):
            return C.get(v, ty.path, "ty")
        if n == "Fix":
            return typeof(C.get(v, ty.path, "inner"))
        return typeof(v)

    def prim(I, st, fn, args, atys, dty):
        t = fn.args[0] if fn.args else None
        while t is not None and t.k == "ref":
            t = t.t
        return [(st, of(t, args[0]))]
    pr = {GT + "::get_type": prim}
    C.check("algebra.get_type", C.method(GT, TY + "Fix", "get_type"), pr, ["s"], lambda c, s: typeof(C.get(s, TY + "Fix", "inner")))

    def raw(c, s):
        i = C.get(s, TE, "inner")
        k = c.case(i, RAW)
        return of(C.p.adts[RAW]["variants"][k]["fields"][0]["ty"], fld(i, RAW, k, 0))
    C.check("algebra.get_type", C.method(GT, TE, "get_type"), pr, ["s"], raw)


# ------------------------------------------------------------------ context
def lookup_outs(C, I, st, gv, ctx, idx):
    return I.call_body(st, gv, [ctx, mk_adt(AST + "Variable", 0, (idx,))], 1, ())


def context_laws(C):
    """lookup after extension / unguarding, stated against lookup before it"""
    gv = C.fn(CTX + "::get_variable_type")
    I0 = C.interp({})
    free, grd = C.variant(GVE, "FreeVariable"), C.variant(GVE, "GuardedVariable")
    E = lambda k: Err(("adt", GVE, k, ()))
    inv = invariant(C)
    vs, us = fields_by_type(C)
    known = len(vs) == 1 and bool(us or inv(("sym", "ctx")))        # else nothing is known of how the marks are kept
    for law in ("context.empty", "context.bind", "context.unguard"):
        I = C.interp({})
        st = St()
        idx = ("sym", "index")
        root = ("A", "ctx")
        g = ("sym", "ctx")
        st.mem[root] = g
        for f in inv(g):
            st.F = st.F.assume(f, True, C.p)
        ref = ("ref", root, ())
        try:
            if law == "context.empty":
                outs = I.call_body(st, C.fn(CTX + "::new"), [], 1, ())
                for o in outs:
                    for p in lookup_outs(C, I, o.st, gv, o.val, idx):
                        ok = p.kind == "ret" and p.val == E(free)
                        C.record(law, fname(gv), "ok" if ok else "violation", "a variable is found in an empty context: %s" % T.show(p.val), loc=gv.loc)
                C.done(I)
                continue
            if law == "context.bind":
                w = C.fn(CTX + "::with_variable_type")
                outs = I.call_body(st, w, [ref, ("sym", "ty"), ("sym", "$probe")], 1, ())
            else:
                w = C.fn(CTX + "::with_unguard")
                outs = I.call_body(st, w, [ref, ("sym", "$probe")], 1, ())
            n = 0
            for o in outs:
                evs = [e for e in o.st.ev if e[0] == "ev" and e[1] == "callf"]
                if o.kind != "ret" or len(evs) != 1:
                    C.record(law, fname(w), "undecided" if unk_facts(o.st.F) else "violation", "the body is run %d times on some path" % len(evs), loc=w.loc)
                    continue
                if o.val != evs[0]:
                    C.record(law, fname(w), "undecided" if unk_facts(o.st.F) or unk_in(o.val) else "violation", "the body's result is not returned", loc=w.loc)
                if o.st.mem[root] != g:
                    st_ = "undecided" if unk_in(o.st.mem[root]) or unk_facts(o.st.F) else "violation"
                    C.record(law + ".restored", fname(w), st_, "the context is %s afterwards, expected unchanged" % T.show(o.st.mem[root]), loc=w.loc)
                else:
                    C.record(law + ".restored", fname(w), "ok", loc=w.loc)
                g2 = evs[0][3]
                # lookups inside
                s0 = St()
                s0.F = o.st.F
                for cond in inv(g2):
                    d = s0.F.decide(cond)
                    if d is False:
                        C.record(law + ".invariant", fname(w), "undecided" if unk_facts(o.st.F) or unk_in(g2) else "violation", T.show(cond), loc=w.loc)

                def spec(c, i, front=False):
                    if law == "context.bind":
                        if c.branch(eq_int(i, Int(0))):
                            return E(grd)
                        r = c.call(gv, g, mk_adt(AST + "Variable", 0, (sub(i, Int(1)),)))
                        return r
                    r = c.call(gv, g, mk_adt(AST + "Variable", 0, (i,)))
                    if c.case(r, RES) == 0:
                        return r
                    if c.case(fld(r, RES, 1, 0), GVE) == free:
                        return E(free)
                    return Ok(bound_type(C, g, i, front))
                from spec import compare as cmp_
                code = lookup_outs(C, I, s0, gv, g2, idx)
                ref_ = run_spec(I, s0, lambda c: spec(c, idx))
                mm, pairs = cmp_(I, code, ref_, [])
                if mm:
                    # the scopes may be kept innermost first (the law for
                    # binding says where a new one goes)
                    mm2, pairs2 = cmp_(I, code, run_spec(I, s0, lambda c: spec(c, idx, True)), [])
                    if pairs2 and not mm2:
                        mm, pairs = mm2, pairs2
                n += pairs
                for x in mm:
                    C.record(law, fname(w), "undecided" if x.undecided or not known else "violation",
                             "looking up index i when [%s]: %s, expected %s" % (show_facts(x.facts), T.show(x.code), T.show(x.spec)), loc=gv.loc)
                if not mm:
                    C.record(law, fname(w), "ok", "%d path pairs" % pairs, loc=gv.loc)
            C.done(I)
        except Undecided as e:
            C.record(law, fname(gv), "undecided", str(e), loc=gv.loc)


def fresh_context(C):
    """lookups from a new context, however it keeps its state"""
    gv = C.fn(CTX + "::get_variable_type")
    free, grd = C.variant(GVE, "FreeVariable"), C.variant(GVE, "GuardedVariable")
    i = ("sym", "index")
    A, B_, D = (("sym", x) for x in ("first", "second", "third"))
    look = ("look",)

    def bind(t, *ns):
        return ("bind", t, ns)

    def unguard(*ns):
        return ("unguard", ns)

    def ideal(c, nodes, env, mark):
        out = []
        for n in nodes:
            if n[0] == "bind":
                out += ideal(c, n[-1], env + [n[1]], mark)
            elif n[0] == "unguard":
                out += ideal(c, n[-1], env, len(env))
            else:
                r = Err(("adt", GVE, free, ()))
                for k in range(len(env)):
                    if c.branch(eq_int(i, Int(k))):
                        r = Ok(env[-1 - k]) if len(env) - 1 - k < mark else Err(("adt", GVE, grd, ()))
                        break
                out.append(r)
        return out
    for script in ((look, bind(A, look), look), (bind(A, bind(B_, look), look), bind(D, look)),
                   (bind(A, unguard(bind(B_, look), look), look), look), (unguard(bind(A, unguard(look), look, unguard(bind(B_, look)))),),
                   (bind(A, unguard(bind(B_, unguard(bind(D, look)), look), look), bind(D, look)),),
                   (bind(A, unguard(look)), bind(B_, look, unguard(look)))):
        for law, w in (("context.bind", "with_variable_type"), ("context.unguard", "with_unguard")):
            if law.split(".")[1] in str(script):
                scope_script(C, law, C.fn(CTX + "::" + w), {}, C.fn(CTX + "::new"), script,
                             {"bind": C.fn(CTX + "::with_variable_type"), "unguard": C.fn(CTX + "::with_unguard")},
                             (gv, [mk_adt(AST + "Variable", 0, (i,))]), lambda c: ideal(c, script, [], 0))


def fields_by_type(C):
    a = C.p.adts.get(CTX)
    if a is None:
        raise Missing(CTX)
    fs = a["variants"][0]["fields"]
    vs = [i for i, f in enumerate(fs) if f["ty"] is not None and f["ty"].g.startswith("alloc::vec::Vec<" + TYPE)]
    us = [i for i, f in enumerate(fs) if f["ty"] is not None and f["ty"].g.startswith("alloc::vec::Vec<usize")]
    return vs, us


def invariant(C):
    """marks never exceed the number of variables (established by the two
    constructors below, assumed at entry)"""
    vs, us = fields_by_type(C)
    fs = C.p.adts[CTX]["variants"][0]["fields"]
    plain = [i for i, f in enumerate(fs) if f["ty"] is not None and f["ty"].g == "usize"]       # only the latest mark is kept

    def inv(g):
        if len(vs) == 1 and not us and len(plain) == 1:
            return [le(fld(g, CTX, 0, plain[0]), slen(fld(g, CTX, 0, vs[0])))]
        if len(vs) != 1 or len(us) != 1:
            return []
        v, u = fld(g, CTX, 0, vs[0]), fld(g, CTX, 0, us[0])
        more = []
        for n in ("::new", None):
            # where every context starts with a mark, there always is one
            b = C.fn(CTX + n) if n else C.p.method("core::default::Default", CTX, "default")
            if b is None:
                continue
            outs = C.interp({}).call_body(St(), b, [], 1, ())
            more.append(all(o.kind == "ret" and C._I.branch(o.st, eq_int(slen(fld(o.val, CTX, 0, us[0])), Int(0)))[0][1] is False
                            and len(C._I.branch(o.st, eq_int(slen(fld(o.val, CTX, 0, us[0])), Int(0)))) == 1 for o in outs))
        return [le(last(u), slen(v))] + ([le(Int(1), slen(u))] if more and all(more) else [])
    return inv


def bound_type(C, g, i, front=False):
    vs, us = fields_by_type(C)
    if len(vs) != 1:
        raise Undecided("representation of the typing context")
    v = fld(g, CTX, 0, vs[0])
    return nth(v if front else rev(v), i)
