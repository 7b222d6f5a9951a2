"""The Rust back end."""
from base import *
from spec import unk_in
import models
from rules_names import TXT as RN_TXT
from functools import reduce

LW = "chomp::lower::"
BE = LW + "RustBackend"
LTY = LW + "Ty"
BACKEND = CH + "typed::lower::Backend"
GENERATE = CH + "typed::lower::GenerateCode"


TE = TY + "TypedExpression"


def prims(C):
    C.fn(TE + "::free_variables")
    return {TE + "::free_variables": opaque("free"), TY + "Typed::get_type": typeof_prim, GENERATE + "::gen": gen_prim(C), LW + "RustBackend::new_type_name": type_name_prim(C),
            BE + "::name_parts_snake": parts_prim(C, "snake"), BE + "::name_parts_camel": parts_prim(C, "camel")}


def state_fields(C):
    return [f["name"] for f in C.p.adts[BE]["variants"][0]["fields"]]


def grow(C, v, keep=("context",)):
    return C.build(BE, **{f: C.get(v, BE, f) if f in keep else T.grown(C.get(v, BE, f)) for f in state_fields(C)})


def gen_prim(C):
    """what generating a part does to the tables: they grow; the stack of
    enclosing fixed points is as it was (shown for each of the methods)"""
    def h(I, st, fn, args, atys, dty):
        e, slf = args
        v = I.content(st, slf)
        st = st.copy()
        r = ("ev", "gen", I.content(st, e), C.get(v, BE, "context"))
        st.ev = st.ev + (r,)
        I.write_loc(st, slf[1], slf[2], grow(C, v))
        return [(st, r)]
    return h


def type_name_prim(C):
    C.fn(BE + "::new_type_name")

    def h(I, st, fn, args, atys, dty):
        slf = args[0]
        st = st.copy()
        v = I.content(st, slf)
        n = slen(C.get(v, BE, "data"))
        return [(st, mk_tup((n, ("op", "tyname", args[2], args[3]))))]
    return h


def parts_prim(C, kind):
    C.fn(BE + "::name_parts_" + kind)

    def h(I, st, fn, args, atys, dty):
        v = args[1]
        if v[0] != "it":
            v = ("it", "seq", models.as_seq(v))
        return [(s, ("it", "seq", mk_seq((("all", ("par", kind, (), S)),)))) for s, S in I.force(st, v)]
    return h


# ---------------------------------------------------------------- references
ASPECTS = {
    # aspect: (impls kept, tables kept, contents kept)
    "parse": (("Parse",), ("data", "context"), True),
    "show": (("Display",), ("data",), True),
    "char": (("From",), ("data", "can_char"), False),
    "sharing": ((), ("data", "eps_id", "lit_map", "cat_map", "alt_map", "fix_map", "var_map", "context"), False),
    "parts": ((), ("data",), False),
}


def view_of(C, aspect):
    """what matters to one property: some of the generated impls, some of the tables"""
    import quoted as Q
    ri, di = C.fidx(LTY, "rest"), C.fidx(LTY, "deps")
    impls, tables, heads = ASPECTS[aspect]
    keep = {C.fidx(BE, f) for f in tables}

    def item(x):
        if x[0] == "impl":
            return x if x[1] in impls else None
        if x[0] in ("struct", "enum"):
            return x[:3] + ((),) + x[4:] if heads else None
        return x

    def ty(x):
        r = x[3][ri]
        if r[0] == "op" and r[1] == "items":
            return x
        fs = list(x[3])
        if aspect == "sharing":
            fs[ri] = ("op", "items", ANY)
            fs[di] = ANY
        elif aspect == "parts":
            # what is declared, and under which names
            fs[ri] = ("op", "items", mk_seq(tuple((p[0], declared(p[1])) if p[0] == "e" else p for p in parts(Q.items(r)) if p[0] != "e" or p[1][0] != "impl")))
            fs[C.fidx(LTY, "name")] = ANY
        else:
            out = []
            for p in parts(Q.items(r)):
                y = item(p[1]) if p[0] == "e" else p[1]
                if y is not None:
                    out.append((p[0], y))
            fs[ri] = ("op", "items", mk_seq(tuple(out)))
            fs[di] = ANY
        return mk_adt(LTY, x[2], tuple(fs))

    def go(t):
        if not isinstance(t, tuple):
            return t
        if t and t[0] == "adt" and t[1] == LTY:
            return ty(t)
        ys = tuple(go(y) for y in t)
        return t if ys == t else ys

    def view(I, st, v):
        st = st.copy()
        for r in list(st.mem):
            if r[0] == "A" and st.mem[r][0] == "adt" and st.mem[r][1] == BE:
                x = st.mem[r]
                st.mem[r] = mk_adt(BE, x[2], tuple(go(f) if k in keep else ANY for k, f in enumerate(x[3])))
        return [(st, v)]
    return view


def declared(x):
    if not isinstance(x, tuple):
        return x
    if x[:1] == ("struct",):
        return ("struct", x[1], declared(x[5]))
    if x[:1] == ("enum",):
        return ("enum", x[1], declared(x[4]))
    if x[:1] == ("alias",):
        return ("alias", x[1])
    if x[:1] == ("field",) and len(x) == 4:
        return ("field", x[2])
    if x[:1] == ("variant",) and len(x) == 3:
        return ("variant", x[1])
    return tuple(declared(y) for y in x)


def cat_all(*xs):
    return reduce(concat, xs)


class Gen:
    """vocabulary of the references"""

    def __init__(self, C):
        import quoted as Q
        self.C, self.Q = C, Q

    def f(self, c, slf, name):
        return self.C.get(c.get(slf), BE, name)

    def upd(self, c, slf, **new):
        v = c.get(slf)
        c.set(slf, self.C.build(BE, **{f: new.get(f, self.C.get(v, BE, f)) for f in state_fields(self.C)}))

    def gen(self, c, slf, e):
        v = c.get(slf)
        r = ("ev", "gen", e, self.C.get(v, BE, "context"))
        c.st = c.st.copy()
        c.st.ev = c.st.ev + (r,)
        c.set(slf, grow(self.C, v))
        return r

    def name(self, c, slf, name, span):
        return ("tid", ("op", "tyname", name, span))

    def ty(self, name, rest, deps):
        return self.C.build(LTY, name=name, rest=rest, deps=deps)

    def add(self, c, slf, ty):
        n = slen(self.f(c, slf, "data"))
        self.upd(c, slf, data=concat(self.f(c, slf, "data"), seq_lit(ty)))
        return n

    def known(self, c, slf, table, key):
        """the type already made for this key, if any"""
        m = self.f(c, slf, table)
        if c.branch(models.mhas(m, key)):
            raise Return(models.mget(m, key))

    def remember(self, c, slf, table, key, n):
        self.upd(c, slf, **{table: ("put", self.f(c, slf, table), key, n)})

    def tyname(self, c, slf, n):
        return self.C.get(T.nth(self.f(c, slf, "data"), n), LTY, "name")

    def parts(self, c, slf, terms):
        return c.map(terms, lambda c, e: self.gen(c, slf, e))

    def labels(self, kind, terms):
        C = self.C
        S = rep_elems(terms, lambda e: mk_tup((C.get(e, TE, "name"), C.get(e, TE, "span"))))
        return mk_seq((("all", ("par", kind, (), S)),))


def rep_elems(S, f):
    E, X = ("elem", -5, S), ("idx", -5, S)
    return mk_seq((T.mk_map(S, E, X, (("e", f(E)),)),))


DERIVES = "#[derive(Clone, Debug, Eq, Hash, PartialEq)]"
SHOW = "impl Display for #N { fn fmt(&self, f: &mut F) -> R { #body } }"
TAKE = "impl Parse for #N { fn take<P>(input: &mut P) -> R { #body } }"
CHAR = "impl From<#N> for char { fn from(x: #N) -> Self { #body } }"


def terms_args(C, which):
    path = TY + which
    return [("ref", ("A", "self"), ()), ("sym", "name"), ("sym", "span"), C.build(path, terms=("sym", "parts"), ty=("sym", "ty"))], {("A", "self"): ("sym", "self")}


def literal(C, aspect):
    rule = "code." + aspect
    G = Gen(C)
    Q = G.Q

    def ref(c, slf, name, span, lit):
        text = C.get(lit, TY + "Literal", "inner")
        G.known(c, slf, "lit_map", text)
        N = G.name(c, slf, name, span)
        L = ("tlit", text)
        rest = Q.quote(DERIVES + "pub struct #N;" + SHOW.replace("#body", "write!(f, \"{}\", #L)") +
                       TAKE.replace("#body", "input.consume_str(#L)?; Ok(Self)"), N=N, L=L)
        n = slen(G.f(c, slf, "data"))
        cs = text
        if c.branch(eq_int(slen(cs), Int(1))):
            rest = concat(rest, Q.quote(CHAR.replace("#body", "#c"), N=N, c=("tlit", T.nth(cs, Int(0)))))
            G.upd(c, slf, can_char=union(G.f(c, slf, "can_char"), ("single", n)))
        G.remember(c, slf, "lit_map", text, n)
        G.add(c, slf, G.ty(seq_lit(N), rest, T.SEMPTY))
        return n
    C.check(rule + ".literal", C.method(BACKEND, BE, "gen_literal"), prims(C), ["self", "name", "span", "lit"], ref, panics_ok=True, view=view_of(C, aspect))


def cat(C, aspect):
    rule = "code." + aspect
    G = Gen(C)
    Q = G.Q

    def ref(c, slf, name, span, cat_):
        terms = C.get(cat_, TY + "Cat", "terms")
        ids = G.parts(c, slf, terms)
        G.known(c, slf, "cat_map", ids)
        N = G.name(c, slf, name, span)
        n = slen(G.f(c, slf, "data"))
        named = False
        try:
            c.each(terms, lambda c, e: raise_if(c, c.case(C.get(e, TE, "name"), OPT) == 1))
        except Return:
            named = True
        fs = G.labels("snake", terms)
        tyn = lambda x: G.tyname(c, slf, T.nth(ids, x))
        if named:
            get = lambda x: seq_lit(("tid", T.nth(fs, x)))
            fields = Q.rep(terms, lambda e, x: Q.quote("pub #l: #t", l=get(x), t=tyn(x)), ",")
            struct = Q.quote("pub struct #N { #fields }", N=N, fields=fields)
            build = lambda P: Q.quote("Ok(Self { #fs })", fs=Q.rep(terms, lambda e, x: Q.quote("#l: #p", l=get(x), p=P(x)), ","))
        else:
            get = lambda x: seq_lit(("tlit", ("op", "index", x)))
            struct = Q.quote("pub struct #N(#fields);", N=N, fields=Q.rep(terms, lambda e, x: Q.quote("pub #t", t=tyn(x)), ","))
            build = lambda P: Q.quote("Ok(Self(#fs))", fs=Q.rep(terms, lambda e, x: P(x), ","))
        P = lambda x: seq_lit(("tid", ("op", "part", x)))
        show = concat(Q.rep(terms, lambda e, x: Q.quote("self.#l.fmt(f)?;", l=get(x))), Q.quote("Ok(())"))
        take = concat(Q.rep(terms, lambda e, x: Q.quote("let #p = input.take()?;", p=P(x))), build(P))
        rest = cat_all(Q.quote(DERIVES), struct, Q.quote(SHOW, N=N, body=show), Q.quote(TAKE, N=N, body=take))
        G.remember(c, slf, "cat_map", ids, n)
        G.add(c, slf, G.ty(seq_lit(N), rest, models.set_of(ids)))
        return n
    a, m = terms_args(C, "Cat")
    C.check(rule + ".sequence", C.method(BACKEND, BE, "gen_cat"), prims(C), None, ref, panics_ok=True, view=view_of(C, aspect), args=a, mems=m)


def raise_if(c, b):
    if b:
        raise Return(TRUE)


def alt(C, aspect):
    rule = "code." + aspect
    G = Gen(C)
    Q = G.Q

    def ref(c, slf, name, span, alt_):
        terms = C.get(alt_, TY + "Alt", "terms")
        ids = G.parts(c, slf, terms)
        G.known(c, slf, "alt_map", ids)
        N = G.name(c, slf, name, span)
        n = slen(G.f(c, slf, "data"))
        vs = G.labels("camel", terms)
        V = lambda x: seq_lit(("tid", T.nth(vs, x)))
        typ = lambda e: ("ev", "typeof", e)
        first = lambda e: C.get(C.get(typ(e), TY + "Type", "first_set"), CH + "set::FirstSet", "inner")
        tyn = lambda x: G.tyname(c, slf, T.nth(ids, x))
        enum = Q.quote("pub enum #N { #vs }", N=N, vs=Q.rep(terms, lambda e, x: Q.quote("#v(#t)", v=V(x), t=tyn(x)), ","))
        show = Q.quote("match self { #arms }", arms=Q.rep(terms, lambda e, x: Q.quote("Self::#v(y) => y.fmt(f)", v=V(x)), ","))
        # the first alternative that may be empty takes what no other starts with
        default = None
        try:
            c.each(None, lambda c, p: found(c, C.get(typ(fld(p, "()", 0, 1)), TY + "Type", "nullable"), fld(p, "()", 0, 0)), ("it", "enum", ("it", "seq", terms), Int(0)))
        except Return as r:
            default = r.v
        # dispatch on the next character: one arm per alternative that starts with something
        some = c.cell(EMPTY)

        def pick(c, p):
            e, x = fld(p, "()", 0, 1), fld(p, "()", 0, 0)
            if not c.branch(T.set_empty(first(e))):
                c.push(some, mk_tup((x, e)))
        c.each(None, pick, ("it", "enum", ("it", "seq", terms), Int(0)))
        F = c.get(some)
        pat = lambda e: Q.rep(first(e), lambda ch, _: Q.quote("Some(#c)", c=("tlit", ch)), "|")
        arms = Q.rep(F, lambda p, _: Q.quote("#pat => Ok(Self::#v(input.take()?)),", pat=pat(fld(p, "()", 0, 1)), v=V(fld(p, "()", 0, 0))))
        if default is not None:
            body = Q.quote("match input.peek() { #arms _ => Ok(Self::#v(input.take()?)), }", arms=arms, v=V(default))
        else:
            every = c.cell(EMPTY)
            c.each(terms, lambda c, e: c.set(every, concat(c.get(every), first(e))))
            lst = Q.rep(c.get(every), lambda ch, _: Q.quote("#c", c=("tlit", ch)), ",")
            body = Q.quote("""match input.peek() { #arms
                Some(c) => Err(TakeError::BadBranch(input.pos(), c, &[#lst])),
                None => Err(TakeError::EndOfStream(input.pos())) }""", arms=arms, lst=lst)
        rest = cat_all(Q.quote(DERIVES), enum, Q.quote(SHOW, N=N, body=show), Q.quote(TAKE, N=N, body=body))
        chars = True
        try:
            c.each(terms, lambda c, e: raise_if(c, not c.branch(models.member(("ev", "gen", e, G.f(c, slf, "context")), G.f(c, slf, "can_char")))))
        except Return:
            chars = False
        if chars:
            into = Q.quote("match x { #arms }", arms=Q.rep(terms, lambda e, x: Q.quote("#N::#v(y) => y.into()", N=N, v=V(x)), ","))
            rest = concat(rest, Q.quote(CHAR, N=N, body=into))
            G.upd(c, slf, can_char=union(G.f(c, slf, "can_char"), ("single", n)))
        G.remember(c, slf, "alt_map", ids, n)
        G.add(c, slf, G.ty(seq_lit(N), rest, models.set_of(ids)))
        return n
    a, m = terms_args(C, "Alt")
    C.check(rule + ".alternative", C.method(BACKEND, BE, "gen_alt"), prims(C), None, ref, panics_ok=True, view=view_of(C, aspect), args=a, mems=m)


def found(c, b, x):
    if c.branch(b):
        raise Return(x)


def fixed(C, aspect):
    """the enclosing fixed points are a stack: it grows at the back, or at
    the front"""
    n = len(C.obs)
    fixed_(C, aspect, False)
    old = C.obs[n:]
    if any(o["status"] == "violation" for o in old):
        del C.obs[n:]
        fixed_(C, aspect, True)
        if any(o["status"] != "ok" for o in C.obs[n:]):
            C.obs[n:] = old


def fixed_(C, aspect, front):
    rule = "code." + aspect
    G = Gen(C)
    Q = G.Q

    def outer(c, slf, k):
        """the fixed point k binders out"""
        ctx = G.f(c, slf, "context")
        return T.nth(ctx if front else T.rev(ctx), k)

    def ref(c, slf, name, span, fix):
        inner = C.get(fix, TY + "Fix", "inner")
        free = c.cell(EMPTY)

        def look(c, i):
            # variable 0 is the fixed point itself
            if c.branch(le(Int(1), i)):
                c.push(free, outer(c, slf, sub(i, Int(1))))
        c.each(models.as_seq(("ev", "free", inner)), look)
        key = mk_tup((inner, c.get(free)))
        G.known(c, slf, "fix_map", key)
        N = G.name(c, slf, name, span)
        n = slen(G.f(c, slf, "data"))
        G.remember(c, slf, "fix_map", key, n)
        G.add(c, slf, G.ty(seq_lit(N), EMPTY, T.SEMPTY))
        ctx = G.f(c, slf, "context")
        G.upd(c, slf, context=concat(seq_lit(n), ctx) if front else concat(ctx, seq_lit(n)))
        k = G.gen(c, slf, inner)
        G.upd(c, slf, context=ctx)
        rest = Q.quote("pub type #N = #T;", N=N, T=G.tyname(c, slf, k))
        d = G.f(c, slf, "data")
        G.upd(c, slf, data=T.store(d, n, G.ty(C.get(T.nth(d, n), LTY, "name"), rest, ("single", k))))
        return n
    C.check(rule + ".fixed", C.method(BACKEND, BE, "gen_fix"), prims(C), ["self", "name", "span", "fix"], ref, panics_ok=True, view=view_of(C, aspect))

    def var(c, slf, name, span, v):
        f = outer(c, slf, C.get(C.get(v, TY + "Variable", "inner"), AST + "Variable", "index"))
        G.known(c, slf, "var_map", f)
        n = slen(G.f(c, slf, "data"))
        t = Q.quote("Box<#T>", T=G.tyname(c, slf, f))
        G.remember(c, slf, "var_map", f, n)
        G.add(c, slf, G.ty(t, EMPTY, T.SEMPTY))
        return n
    C.check(rule + ".variable", C.method(BACKEND, BE, "gen_variable"), prims(C), ["self", "name", "span", "var"], var, panics_ok=True, view=view_of(C, aspect))


def epsilon(C, aspect):
    rule = "code." + aspect
    G = Gen(C)

    def ref(c, slf, name, span, eps):
        k = G.f(c, slf, "eps_id")
        if c.case(k, OPT) == 1:
            return fld(k, OPT, 1, 0)
        return G.add(c, slf, G.ty(G.Q.quote("Epsilon"), EMPTY, T.SEMPTY))
    v0 = view_of(C, aspect)
    k = C.fidx(BE, "eps_id")
    new = T.Some(slen(C.get(("sym", "self"), BE, "data")))

    def mask(eps, rest):
        """keep the entry for the empty grammar only if `eps`"""
        def view(I, st, v):
            out = []
            for st, v in v0(I, st, v):
                st = st.copy()
                for r in list(st.mem):
                    x = st.mem[r]
                    if r[0] == "A" and x[0] == "adt" and x[1] == BE:
                        st.mem[r] = mk_adt(BE, x[2], tuple(f if (eps(f) if i == k else rest) else ANY for i, f in enumerate(x[3])))
                out.append((st, v if rest else ANY))
            return out
        return view
    old = C.get(("sym", "self"), BE, "eps_id")
    # that it is remembered is an obligation of its own
    C.check(rule + ".epsilon", C.method(BACKEND, BE, "gen_epsilon"), prims(C), ["self", "name", "span", "eps"], ref,
            view=mask(lambda f: f not in (new, old, NONE), True))
    if aspect == "sharing":
        def ref2(c, slf, name, span, eps):
            n = slen(G.f(c, slf, "data"))
            r = ref(c, slf, name, span, eps)
            if c.case(old, OPT) == 0:
                G.upd(c, slf, eps_id=T.Some(n))
            return r
        C.check(rule + ".remembered", C.method(BACKEND, BE, "gen_epsilon"), prims(C), ["self", "name", "span", "eps"], ref2,
                view=mask(lambda f: f != old, False))


KINDS = {"Epsilon": "epsilon", "Literal": "literal", "Cat": "cat", "Alt": "alt", "Fix": "fix", "Variable": "variable"}


def dispatch(C, rule="code"):
    """every kind of expression is handed to its own rule"""
    RAW = TY + "RawTypedExpression"

    def ref(c, e, backend):
        inner = C.get(e, TE, "inner")
        v = c.case(inner, RAW)
        n = C.p.adts[RAW]["variants"][v]["name"]
        return c.ev("gen_" + KINDS[n], backend, C.get(e, TE, "name"), C.get(e, TE, "span"), fld(inner, RAW, v, 0))
    P = {BACKEND + "::gen_" + k: opaque("gen_" + k) for k in KINDS.values()}
    C.check(rule + ".dispatch", C.method(GENERATE, TE, "gen"), P, ["e", "backend"], ref, roots=[])


def free(C, rule="code"):
    """which enclosing fixed points an expression mentions"""
    RAW = TY + "RawTypedExpression"
    P = {TE + "::free_variables": opaque("free")}
    b = C.fn(TE + "::free_variables")

    def ref(c, e):
        e = c.get(e) if e[0] == "ref" else e
        inner = C.get(e, TE, "inner")
        n = C.p.adts[RAW]["variants"][c.case(inner, RAW)]["name"]
        x = fld(inner, RAW, C.variant(RAW, n), 0)
        if n in ("Epsilon", "Literal"):
            return T.SEMPTY
        if n == "Variable":
            return ("single", C.get(C.get(x, TY + n, "inner"), AST + n, "index"))
        acc = c.cell(EMPTY)
        if n == "Fix":
            def down(c, i):
                if c.branch(le(Int(1), i)):
                    c.push(acc, sub(i, Int(1)))
            c.each(models.as_seq(("ev", "free", C.get(x, TY + n, "inner"))), down)
        else:
            c.each(C.get(x, TY + n, "terms"), lambda c, t: c.set(acc, concat(c.get(acc), models.as_seq(c.ev("free", t)))))
        return models.set_of(c.get(acc))
    C.check(rule + ".free", b, P, ["e"], ref, roots=[])


def fresh_prim(C):
    """an identifier unlike every one in the set, and in it from now on"""
    C.fn(LW + "fresh_ident")

    def h(I, st, fn, args, atys, dty):
        st = st.copy()
        used, prefix = args[0], args[1]
        u = I.content(st, used)
        x = ("op", "freshident", I.content(st, prefix), u)
        if used[0] == "ref":
            I.write_loc(st, used[1], used[2], union(u, ("single", x)))
        if args[2][0] == "ref":
            I.write_loc(st, args[2][1], args[2][2], ("op", "count", I.content(st, args[2])))
        return [(st, x)]
    return h


def emit(C, rule="code"):
    G = Gen(C)
    Q = G.Q
    P = prims(C)
    P[LW + "fresh_ident"] = fresh_prim(C)

    def ref(c, slf, name, span, root):
        data = C.get(slf, BE, "data")
        tokens, todo, done = c.cell(Q.quote("use ::chewed::*;")), c.cell(("single", root)), c.cell(T.SEMPTY)

        def work(c):
            if c.branch(T.set_empty(c.get(todo))):
                raise Return(UNIT)
            now = c.get(todo)
            c.set(done, union(c.get(done), now))
            c.set(todo, T.SEMPTY)

            def one(c, i):
                t = T.nth(data, i)
                c.set(tokens, concat(c.get(tokens), C.get(t, LTY, "rest")))
                new = c.cell(EMPTY)

                def dep(c, d):
                    if not c.branch(models.member(d, c.get(done))):
                        c.push(new, d)
                c.each(models.as_seq(C.get(t, LTY, "deps")), dep)
                c.set(todo, union(c.get(todo), models.set_of(c.get(new))))
            c.each(models.as_seq(now), one)
        try:
            c.loop(work)
        except Return:
            pass
        ty = C.get(T.nth(data, root), LTY, "name")
        if c.case(name, OPT) == 1:
            n = ("tid", ("op", "rootname", fld(name, OPT, 1, 0)))
        else:
            n = ("tk", "Ast")
        return concat(c.get(tokens), Q.quote("pub type #N = #T;", N=n, T=ty))

    def view(I, st, v):
        # the name given to the root is some name not used yet
        def go(t):
            if not isinstance(t, tuple):
                return t
            if len(t) == 2 and t[0] == "tid" and t[1][:2] == ("op", "freshident"):
                if t[1][3] != C.get(("sym", "self"), BE, "used_names"):
                    return t
                return ("tid", ("op", "rootname", fld(("sym", "name"), OPT, 1, 0)))
            return tuple(go(y) for y in t)
        return [(st, go(v))]
    C.check(rule + ".emit", C.method(BACKEND, BE, "emit_code"), P, ["self", "name", "span", "id"], ref, panics_ok=True, view=view, shape=True)


# ------------------------------------------------------------------ identifiers
def outcomes(C, body, P, names):
    I = C.interp(P)
    a, m = I.sym_args(body, names)
    st = St()
    st.mem.update(m)
    outs = [o for o in I.call_body(st, body, a) if o.kind == "ret"]
    return I, outs


def verdicts(C, rule, body, I, bad):
    C.done(I)
    name = fname(body)
    if not bad:
        C.record(rule, name, "ok", "%d paths" % I.paths, loc=body.loc)
    for status, facts, why in bad[:3]:
        C.record(rule, name, status, "when [%s]: %s" % (show_facts(facts), why), loc=body.loc)


def is_fresh(v):
    return isinstance(v, tuple) and v[:2] == ("op", "freshident")


def within(x, s):
    """every member of x is one of s (s was made from x by adding)"""
    while True:
        if s == x:
            return True
        if s[0] == "union":
            return within(x, s[1]) or within(x, s[2])
        return False


def unique(C, rule="names.unique"):
    """no identifier is given out twice"""
    b = C.fn(LW + "fresh_ident")
    try:
        I, outs = outcomes(C, b, {}, ["used", "prefix", "count", "span"])
        bad = []
        for o in outs:
            r, uf = o.val, o.st.mem[("A", "used")]
            if unk_in(r) or unk_in(uf):
                bad.append(("undecided", o.st.F, "the result is not understood"))
                continue
            base = entry_of(I, uf)
            as_text = ("op", "to_string", r)
            key = as_text if contains_term(uf, ("single", as_text)) else r
            if not contains_term(uf, ("single", key)):
                bad.append(("violation", o.st.F, "the identifier %s is not remembered as given out" % T.show(r)[:200]))
            elif not any(k[0] == "in" and k[1] == key and v is False and base_ok(I, k[2]) for k, v in o.st.F.bl.items()):
                bad.append(("violation", o.st.F, "the identifier %s may have been given out before" % T.show(r)[:200]))
            elif not base:
                bad.append(("violation", o.st.F, "identifiers given out before are forgotten"))
        verdicts(C, rule, b, I, bad)
    except Undecided as e:
        C.record(rule, fname(b), "undecided", str(e), loc=b.loc)

    P = {LW + "fresh_ident": fresh_prim(C)}
    b = C.fn(BE + "::new_type_name")
    try:
        I, outs = outcomes(C, b, P, ["self", "prefix", "name", "span"])
        bad = []
        slf = ("sym", "self")
        for o in outs:
            v = o.st.mem[("A", "self")]
            n, x = fld(o.val, "()", 0, 0), fld(o.val, "()", 0, 1)
            used, uf = C.get(slf, BE, "used_names"), C.get(v, BE, "used_names")
            if unk_in(o.val) or unk_in(v):
                bad.append(("undecided", o.st.F, "the result is not understood"))
            elif n != slen(C.get(slf, BE, "data")):
                bad.append(("violation", o.st.F, "the type is numbered %s, not by its place in the table" % T.show(n)[:200]))
            elif not (is_fresh(x) and within(used, x[3]) and contains_term(uf, ("single", x)) and within(used, uf)):
                bad.append(("violation", o.st.F, "the type name %s may be that of another type" % T.show(x)[:200]))
            elif o.st.F.var.get(("sym", "name")) == 1 and not T_contains(x[2], fld(("sym", "name"), OPT, 1, 0)):
                bad.append(("violation", o.st.F, "the type is not named after its rule"))
            elif any(C.get(v, BE, f) != C.get(slf, BE, f) for f in state_fields(C) if f not in ("used_names", "name_map") and C.fidx(BE, f) not in C.p.extra_fields().get((BE, 0), ())):
                bad.append(("violation", o.st.F, "naming a type changes the other tables"))
        verdicts(C, rule, b, I, bad)
    except Undecided as e:
        C.record(rule, fname(b), "undecided", str(e), loc=b.loc)

    for k in ("snake", "camel"):
        b = C.fn(BE + "::name_parts_" + k)
        try:
            I = C.interp(P)
            a, m = I.sym_args(b, ["default", "iter"])
            st = St()
            st.mem.update(m)
            bad = []
            for o in I.call_body(st, b, a):
                if o.kind != "ret":
                    continue
                n0 = set(I.loops)
                for s, q in I.force(o.st, o.val):
                    pass
                infos = [I.loops[l] for l in I.loops if l not in n0 and I.loops[l].where == "collect"]
                if len(infos) != 1:
                    raise Undecided("names of the parts")
                bad += part_names(C, I, infos[0])
            verdicts(C, rule, b, I, bad)
        except Undecided as e:
            C.record(rule, fname(b), "undecided", str(e), loc=b.loc)


def valid(C, rule="names.valid"):
    """a name put into another case still begins with a letter or an underscore"""
    N, CT = CH + "name::Name", CH + "name::Content"
    for tr, m in (("heck::camel::CamelCase", "to_camel_case"), ("heck::snake::SnakeCase", "to_snake_case")):
        b = C.method(tr, CT, m)
        try:
            I, outs = outcomes(C, b, RN_TXT, ["self"])
            bad, slf = [], ("sym", "self")
            for o in outs:
                v, k = o.val, o.st.F.var.get(slf)
                if unk_in(v) or v[0] != "adt" or v[1] != CT or k is None:
                    bad.append(("undecided", o.st.F, "the result is not understood"))
                    continue
                spanned = C.variant(CT, "Spanned")
                txt, src = v[3][0], fld(slf, CT, k, 0)
                if v[2] == spanned:
                    if txt[:2] != ("op", "new") or len(txt) != 4:
                        bad.append(("undecided", o.st.F, "the result is not understood"))
                        continue
                    txt = txt[2]
                if k == spanned:
                    src = ("op", "unraw", src)
                conv = ("op", m, src)
                if not contains_term(txt, conv):
                    bad.append(("violation", o.st.F, "the text is %s, not the name in the other case" % T.show(txt)[:200]))
                elif v[2] != k:
                    bad.append(("violation", o.st.F, "the place the name was written is lost"))
                elif txt == conv:
                    known, other = starts(o.st.F, conv)
                    if "is_alphabetic" not in known:
                        bad.append(("undecided" if other else "violation", o.st.F, "the text %s may begin with a digit, or be empty" % T.show(txt)[:200]))
                elif not begins_with_letter(txt):
                    bad.append(("undecided", o.st.F, "the text %s is not understood" % T.show(txt)[:200]))
            verdicts(C, rule, b, I, bad)
        except Undecided as e:
            C.record(rule, fname(b), "undecided", str(e), loc=b.loc)
        ev = m[3:]
        C.check(rule, C.method(tr, N, m), {b.canon: opaque(ev)}, ["self"],
                lambda c, n, ev=ev: C.build(N, content=c.ev(ev, C.get(n, N, "content")), kind=C.get(n, N, "kind")))


def begins_with_letter(t):
    ps = parts(t)
    if ps and ps[0][0] == "e" and ps[0][1][0] == "char":
        return ps[0][1][1] == 95 or chr(ps[0][1][1]).isalpha()
    if t[0] != "text" or t[1][0] != "seq" or not t[1][1]:
        return False
    h = t[1][1][0]
    return h[0] == "e" and h[1][0] == "txt" and bool(h[1][1]) and (h[1][1][0] == "_" or h[1][1][0].isalpha())


def starts(F, t):
    """predicates the first character of `t` is known to satisfy; and whether anything else is known of `t`"""
    known, other = set(), False
    for f, v in F.bl.items():
        if f[0] == "op" and len(f) == 3 and f[2] == T.nth(t, Int(0)):
            if v:
                known.add(f[1])
        elif contains_term(f, t):
            other = True
    h = (T.nth(t, Int(0)), 1),
    if F.iv.get(h, (None,))[:2] == (95, 95):
        known.add("is_alphabetic")
    ok = ((slen(t), 1),)
    return known, other or any(contains_term(k, t) and k not in (h, ok) for m in (F.var, F.vp, F.nvar, F.iv) for k in m)


def part_names(C, I, info):
    bad = []
    used = {ph: e for ph, (e, vs) in info.phis.items() if any(v[0] == "union" for v in vs)}
    out = [ph for ph, (e, vs) in info.phis.items() if e == EMPTY and ph[2][0] == "V"]
    if len(out) != 1:
        raise Undecided("names of the parts")
    for s, d, _ in info.backs:
        xs = parts(I.read_loc(s, out[0][2], out[0][3]))[1:]
        if len(xs) != 1 or xs[0][0] != "e":
            bad.append(("violation", s.F, "a part is given no name, or several"))
            continue
        x = xs[0][1]
        if unk_in(x):
            bad.append(("undecided", s.F, "the name is not understood"))
            continue
        ok = is_fresh(x) and x[3] in used
        if ok:
            ph = x[3]
            after = I.read_loc(s, ph[2], ph[3])
            ok = within(ph, after) and contains_term(after, ("single", x))
        if not ok:
            bad.append(("violation", s.F, "the name %s may be that of another part" % T.show(x)[:200]))
    return bad


def contains_term(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(contains_term(y, x) for y in t)


T_contains = contains_term


def base_ok(I, u):
    return entry_of(I, u)


def entry_of(I, u):
    """u holds at least what `used` held at the start"""
    x = ("sym", "used")
    todo, seen = [u], set()
    while todo:
        v = todo.pop()
        if v == x:
            continue
        if v in seen:
            continue
        seen.add(v)
        if v[0] == "union":
            # one half is enough
            halves = [h for h in (v[1], v[2]) if h[0] != "single"]
            if len(halves) != 1:
                return False
            todo.append(halves[0])
        elif v[0] == "phi" and v[1] in I.loops and v in I.loops[v[1]].phis:
            e, vs = I.loops[v[1]].phis[v]
            todo += [e] + list(vs)
        else:
            return False
    return True
