"""Substitution, renaming and reduction: laws over De Bruijn terms.

How a mapper or folder treats a variable *is* its meaning; every other method
must hand each child, exactly once, to itself lifted under the binders that
child is below.  `lift k` of a behaviour f is: i < k stays, otherwise
f(i - k) shifted by k.  The laws are stated over behaviours, so they do not
depend on how the state is represented."""
from base import *
from spec import compare, enumerate_paths, Infeasible, PanicHere, run_spec
import models

SUB = AST + "substitute::"
SUBST = SUB + "Substitute"
REDUCE = SUB + "Reduce"
RERR = AST + "error::ReductionError"
KINDS = ("epsilon", "literal", "cat", "alt", "fix", "variable", "call", "lambda", "let")
VAR = {"epsilon": "Epsilon", "literal": "Literal", "cat": "Cat", "alt": "Alt", "fix": "Fix",
       "variable": "Variable", "call": "Call", "lambda": "Lambda", "let": "Let"}


# ------------------------------------------------------------- shifts
def var_expr(C, i):
    return C.wrap(EXPR, "Variable", mk_adt(AST + "Variable", 0, (i,)))


def shift(C, e, d, n):
    """expression e with the free variables at or above d moved by n"""
    if n == Int(0):
        return e
    if e[0] == "ev" and e[1] == "shift" and e[3] == d:
        return shift(C, e[2], d, add(e[4], n))
    if e[0] == "adt" and e[1] == EXPR and e[2] == C.variant(EXPR, "Variable") and d == Int(0):
        return var_expr(C, add(fld(e[3][0], AST + "Variable", 0, 0), n))
    return ("ev", "shift", e, d, n)


def shift_ne(C, v, d, n):
    return C.build(NE, name=C.get(v, NE, "name"), span=C.get(v, NE, "span"), expr=shift(C, C.get(v, NE, "expr"), d, n))


def index_of(C, v):
    return fld(v, AST + "Variable", 0, C.fidx(AST + "Variable", "index"))


def run_mapper(C, I, st, content, i, path=None):
    """outcomes of the mapper on a variable: Outcome.val = new index"""
    body = C.method(MAPPER, path or content_path(I, st, content), "map_variable")
    s = st.copy()
    r = [("X", I.fresh(), k) for k in ("m", "n", "v")]
    s.mem[r[0]] = content
    s.mem[r[1]] = ("sym", "$name")
    s.mem[r[2]] = mk_adt(AST + "Variable", 0, (i,))
    outs = I.call_body(s, body, [("ref", r[0], ()), ("ref", r[1], ()), ("sym", "$span"), ("ref", r[2], ())], 1, ())
    for o in outs:
        if o.kind == "ret":
            o.val = index_of(C, o.st.mem[r[2]])
    return outs


def content_path(I, st, c):
    if c[0] == "adt":
        return c[1]
    raise Undecided("unknown mapper or folder %s" % T.show(c))


def summarize_mapper(C, I, st, content):
    """(d, n) when the mapper moves every variable >= d by n"""
    i = ("sym", "$i")
    outs = run_mapper(C, I, st, content, i)
    rets = [o for o in outs if o.kind == "ret"]
    ds = {sub(o.val, i) for o in rets} - {Int(0)}
    if not rets:
        return None
    if not ds:
        return Int(0), Int(0)
    if len(ds) > 1:
        return None
    n = ds.pop()
    cands = [Int(0)]
    if content[0] == "adt":
        cands += [x for x in content[3] if x[0] in ("aff", "sym", "len", "fld") and x not in cands]
    for d in cands:
        spec = run_spec(I, st, lambda c: add(i, n) if c.branch(le(d, i)) else i)
        mm, pairs = compare(I, outs, spec, [], True)
        if not mm and pairs:
            return d, n
    return None


def map_prim(C):
    def h(I, st, fn, args, atys, dty):
        content = I.content(st, args[1])
        root, path = I.deref_root(st, args[0])
        v = I.read_loc(st, root, path)
        st = st.copy()
        s = summarize_mapper(C, I, st, content)
        if s is None:
            e = ("ev", "mapped", C.get(v, NE, "expr"), content)
            v = C.build(NE, name=C.get(v, NE, "name"), span=C.get(v, NE, "span"), expr=e)
        else:
            v = shift_ne(C, v, *s)
        I.write_loc(st, root, path, v)
        st.ev = st.ev + (("ev", "mapcall", content),)
        return [(st, UNIT)]
    return h


# ------------------------------------------------------------- lifting
def lift_index(C, I, st, run, base, content, ks, ident, shifted):
    """the k of ks for which `content` behaves as `base` lifted by k"""
    i = ("sym", "$i")
    for k in ks:
        if k == Int(0) and content == base:
            return k
        try:
            code = run(content, i, st)

            def spec(c):
                if c.branch(lt(i, k)):
                    return ident(i)
                outs = run(base, sub(i, k), c.st)
                o = c.pick([(x.st, x) for x in outs])
                if o.kind != "ret":
                    raise Infeasible()
                return shifted(o.val, k)
            ref = run_spec(I, st, spec)
            mm, pairs = compare(I, code, ref, [], True)
        except Undecided:
            continue
        if pairs and not mm:
            return k
    return None


def mapper_types(C):
    """every Mapper of the chomp crate that is given to `map` anywhere"""
    return sorted({im["self_ty"].path for im in C.p.impls
                   if im.get("trait") == MAPPER and im["self_ty"].k == "adt"})


def children(kind, C, c, x, f):
    """x rebuilt with f(child, binders) applied to each child, in order"""
    A = lambda n: AST + VAR[n]
    if kind in ("cat", "alt"):
        P = A(kind)
        first = f(c, C.get(x, P, "first"), Int(0))
        rest = c.map(C.get(x, P, "rest"), lambda c, e: mk_tup((fld(e, "()", 0, 0), f(c, fld(e, "()", 0, 1), Int(0)))))
        return C.build(P, first=first, rest=rest)
    if kind == "fix":
        return C.build(A("fix"), inner=f(c, C.get(x, A("fix"), "inner"), Int(0)))
    if kind == "call":
        on = f(c, C.get(x, A("call"), "on"), Int(0))
        args = c.map(C.get(x, A("call"), "args"), lambda c, e: f(c, e, Int(0)))
        return C.build(A("call"), on=on, args=args)
    if kind == "lambda":
        a = C.get(x, A("lambda"), "args")
        return C.build(A("lambda"), args=a, inner=f(c, C.get(x, A("lambda"), "inner"), slen(a)))
    if kind == "let":
        bound = f(c, C.get(x, A("let"), "bound"), Int(0))
        body = f(c, C.get(x, A("let"), "body"), Int(1))
        return C.build(A("let"), name=C.get(x, A("let"), "name"), bound=bound, body=body)
    return x


def renaming(C, rule="subst.rename"):
    """each Mapper: children are mapped once, under the right binders"""
    n = 0
    for path in mapper_types(C):
        n += 1
        self0 = sym_struct(C, path, "self")

        def run(content, i, st, path=path):
            return run_mapper(C, C._I, st, content, i, path)

        def mp(I, st, fn, args, atys, dty):
            content = I.content(st, args[1])
            ks = [Int(0), Int(1)]
            ks += [slen(C.get(("sym", "x"), AST + "Lambda", "args"))] if lam[0] else []
            k = lift_index(C, I, st, run, self0, content, ks, lambda i: i, lambda v, k: add(v, k))
            root, p = I.deref_root(st, args[0])
            v = I.read_loc(st, root, p)
            st = st.copy()
            e = ("ev", "mapped", C.get(v, NE, "expr"), ("op", "lift", k) if k is not None else content)
            I.write_loc(st, root, p, C.build(NE, name=C.get(v, NE, "name"), span=C.get(v, NE, "span"), expr=e))
            return [(st, UNIT)]

        def view(I, st, v):
            st = st.copy()
            c = st.mem[("A", "self")]
            k = lift_index(C, I, st, run, self0, c, [Int(0)], lambda i: i, lambda v, k: add(v, k))
            st.mem[("A", "self")] = ("op", "lift", k) if k is not None else c
            return [(st, v)]

        for kind in KINDS:
            if kind == "variable":
                continue
            lam = [kind == "lambda"]

            def spec(c, slf, name, span, x, kind=kind):
                def f(c, child, k):
                    return C.build(NE, name=C.get(child, NE, "name"), span=C.get(child, NE, "span"),
                                   expr=("ev", "mapped", C.get(child, NE, "expr"), ("op", "lift", k)))
                c.set(x, children(kind, C, c, c.get(x), f))
                return UNIT
            C.check(rule, C.method(MAPPER, path, "map_" + kind), {VISITABLE + "::map": mp}, ["self", "name", "span", "x"],
                    spec, mems={("A", "self"): self0}, view=view, panics_ok=True)
    if not n:
        C.record(rule, "Mapper", "ok", "no renaming is used")


def sym_struct(C, path, name):
    """the symbolic struct value `name`, field by field"""
    a = C.p.adts.get(path)
    if a is None or a["kind"] != "struct":
        raise Missing(path)
    return mk_adt(path, 0, tuple(fld(("sym", name), path, 0, i) for i in range(len(a["variants"][0]["fields"]))))


# ------------------------------------------------------------- erasure
def erase_content(I, v):
    if v[0] == "adt" and v[1] == SUBST:
        n = I.p.nfields(SUBST, 0)
        j = I.p.field_index(SUBST, "expr")
        return ("adt", SUBST, 0, tuple(erase_ne(I, fld(v, SUBST, 0, k)) if k == j else fld(v, SUBST, 0, k) for k in range(n)))
    return v


def fold_prim_of(full, post=None):
    def h(I, st, fn, args, atys, dty):
        a = [I.content(st, args[0]), I.content(st, args[1])]
        if post is not None:
            a[1] = post(I, st, a[1])
        if not full:
            a[0] = erase_ne(I, a[0])
            a[1] = erase_content(I, a[1])
        return I.event(st, "fold", a)
    return h


def fold_ev(c, full, ne, folder):
    if not full:
        ne, folder = erase_ne(c.I, ne), erase_content(c.I, folder)
    return c.ev("fold", ne, folder)


def base_prims(C, full):
    from rules_typed import merge_all_prim
    return {
        VISITABLE + "::map": map_prim(C),
        CH + "name::Name::merge": merge_prim,
        CH + "name::Name::merge_all": merge_all_prim,
    }


def core_of(rule, full):
    def f(path):
        if not full and any(x in ("name", "span") for x in path):
            return None
        return rule
    return f


# ------------------------------------------------------------- substitution
def substitute(C, full=False, rule="subst"):
    self0 = sym_struct(C, SUBST, "self")
    merge = CH + "name::Name::merge"
    get = lambda v, f: C.get(v, SUBST, f)

    def run(content, i, st):
        I = C._I
        saved = I.prims
        I.prims = dict(base_prims(C, full))
        body = C.method(FOLDER, SUBST, "fold_variable")
        s = st.copy()
        r = ("X", I.fresh(), "s")
        s.mem[r] = content
        try:
            outs = I.call_body(s, body, [("ref", r, ()), ("sym", "$name"), ("sym", "$span"), mk_adt(AST + "Variable", 0, (i,))], 1, ())
        finally:
            I.prims = saved
        for o in outs:
            if o.kind == "ret" and not full:
                o.val = erase_ne(I, o.val)
        return outs

    def ident(i):
        v = C.build(NE, name=("sym", "$name"), span=("sym", "$span"), expr=var_expr(C, i))
        return v if full else erase_ne(C._I, v)

    def shifted(v, k):
        return shift_ne(C, v, Int(0), k)

    kx = [False]

    def post(I, st, content):
        ks = [Int(0), Int(1)]
        if kx[0]:
            ks.append(slen(C.get(("sym", "x"), AST + "Lambda", "args")))
        k = lift_index(C, I, st, run, self0, content, ks, ident, shifted)
        return ("op", "lift", k) if k is not None else content

    def view(I, st, v):
        st = st.copy()
        c = st.mem[("A", "self")]
        k = lift_index(C, I, st, run, self0, c, [Int(0)], ident, shifted)
        st.mem[("A", "self")] = ("op", "lift", k) if k is not None else c
        return [(st, v)]

    pr = base_prims(C, full)
    pr[VISITABLE + "::fold"] = fold_prim_of(full, post)
    for kind in KINDS:
        if kind == "variable":
            continue
        kx[0] = kind == "lambda"

        def spec(c, slf, name, span, x, kind=kind):
            y = children(kind, C, c, x, lambda c, e, k: fold_ev(c, full, e, ("op", "lift", k)))
            return C.build(NE, name=name, span=span, expr=C.wrap(EXPR, VAR[kind], y))
        C.check(rule + ".structure", C.method(FOLDER, SUBST, "fold_" + kind), pr, ["self", "name", "span", "x"], spec,
                core_of(rule + ".structure", full), mems={("A", "self"): self0}, view=view, panics_ok=True)

    def var(c, slf, name, span, x, late=False):
        s = c.get(slf)
        i = index_of(C, x)
        e = get(s, "expr")
        if late:
            # nothing is shifted below a binder: as many are crossed as the
            # index has grown by
            e = shift_ne(C, e, Int(0), get(s, "index"))
        if c.branch(eq_int(i, get(s, "index"))):
            nm = merged2(C.get(e, NE, "name"), name)
            return C.build(NE, name=nm, span=C.get(e, NE, "span"), expr=C.get(e, NE, "expr"))
        if c.branch(lt(get(s, "index"), i)):
            return C.build(NE, name=name, span=span, expr=var_expr(C, sub(i, Int(1))))
        return C.build(NE, name=name, span=span, expr=var_expr(C, i))
    C.check(rule + ".variable", C.method(FOLDER, SUBST, "fold_variable"), base_prims(C, full), ["self", "name", "span", "x"], var,
            core_of(rule + ".variable", full), mems={("A", "self"): self0}, alts=(lambda c, *a: var(c, *a, late=True),))


# ------------------------------------------------------------- reduction
def reduce(C, full=False, rule="reduce"):
    pr = base_prims(C, full)
    pr[VISITABLE + "::fold"] = fold_prim_of(full)
    R = mk_adt(REDUCE, 0, ())
    if C.p.nfields(REDUCE, 0) != 0:
        raise Missing("Reduce without state")
    from rules_typed import kind_view
    view = None if full else kind_view

    def ne(name, span, kind, x):
        return C.build(NE, name=name, span=span, expr=C.wrap(EXPR, VAR[kind], x))

    def fd(c, e, folder=R):
        return c.q(fold_ev(c, full, e, folder))

    def go(kind, spec, lab, alts=()):
        C.check(rule + "." + lab, C.method(FOLDER, REDUCE, "fold_" + kind), pr, ["self", "name", "span", "x"], spec,
                core_of(rule + "." + lab, full), view=view, roots=[], mems={("A", "self"): R}, alts=alts)

    for kind in ("epsilon", "literal", "cat", "alt", "variable"):
        def spec(c, slf, name, span, x, kind=kind):
            return Ok(ne(name, span, kind, children(kind, C, c, x, lambda c, e, k: fd(c, e))))
        go(kind, spec, "structure")

    def lam(c, slf, name, span, x):
        return Ok(ne(name, span, "lambda", x))
    go("lambda", lam, "structure")

    def fix(c, slf, name, span, x):
        inner = fd(c, C.get(x, AST + "Fix", "inner"))
        e = C.get(inner, NE, "expr")
        if c.case(e, EXPR) == C.variant(EXPR, "Lambda"):
            l = fld(e, EXPR, C.variant(EXPR, "Lambda"), 0)
            l2 = C.build(AST + "Lambda", args=C.get(l, AST + "Lambda", "args"), inner=fd(c, C.get(l, AST + "Lambda", "inner")))
            inner = C.build(NE, name=C.get(inner, NE, "name"), span=C.get(inner, NE, "span"), expr=C.wrap(EXPR, "Lambda", l2))
        return Ok(ne(name, span, "fix", C.build(AST + "Fix", inner=inner)))
    go("fix", fix, "structure")

    def sub_(c, index, e):
        return C.build(SUBST, index=index, expr=e)

    def call(c, slf, name, span, x, forward=False):
        on = fd(c, C.get(x, AST + "Call", "on"))
        args = C.get(x, AST + "Call", "args")
        e = C.get(on, NE, "expr")
        if c.case(e, EXPR) != C.variant(EXPR, "Lambda"):
            raise Return(err("CallNotAFunction", on=e, span=span))
        l = fld(e, EXPR, C.variant(EXPR, "Lambda"), 0)
        params = C.get(l, AST + "Lambda", "args")
        if not c.branch(eq_int(slen(params), slen(args))):
            raise Return(err("WrongArgCount", **{"lambda": l, "args": args, "span": span}))
        out = c.cell(C.get(l, AST + "Lambda", "inner"))

        def step(c, e):
            # e = ((position, argument), parameter), last argument first
            i, arg = fld(fld(e, "()", 0, 0), "()", 0, 0), fld(fld(e, "()", 0, 0), "()", 0, 1)
            nm = merged2(C.get(arg, NE, "name"), Some(fld(e, "()", 0, 1)))
            arg = C.build(NE, name=nm, span=C.get(arg, NE, "span"), expr=shift(C, C.get(arg, NE, "expr"), Int(0), i))
            c.set(out, fold_ev(c, full, c.get(out), sub_(c, Int(0), arg)))
        def ahead(c, e):
            # first argument first: as many binders are left as arguments follow
            i, arg = fld(fld(e, "()", 0, 0), "()", 0, 0), fld(fld(e, "()", 0, 0), "()", 0, 1)
            left = sub(sub(slen(args), i), Int(1))
            nm = merged2(C.get(arg, NE, "name"), Some(fld(e, "()", 0, 1)))
            arg = C.build(NE, name=nm, span=C.get(arg, NE, "span"), expr=shift(C, C.get(arg, NE, "expr"), Int(0), left))
            c.set(out, fold_ev(c, full, c.get(out), sub_(c, left, arg)))
        it = ("it", "zip", ("it", "enum", ("it", "seq", args), Int(0)), ("it", "seq", params))
        c.each(None, ahead if forward else step, it if forward else models.rev_it(c.I, it))
        r = fd(c, c.get(out))
        nm = merged(seq_lit(name, C.get(on, NE, "name"), C.get(r, NE, "name")))
        return Ok(C.build(NE, name=nm, span=span, expr=C.get(r, NE, "expr")))

    def err(v, **fs):
        if not full:
            return Err(("sym", "ReductionError::" + v))
        return Err(C.build(RERR, v, **fs))
    go("call", call, "call", (lambda c, *a: call(c, *a, forward=True),))

    def let(c, slf, name, span, x):
        A = AST + "Let"
        r = fold_ev(c, full, C.get(x, A, "body"), sub_(c, Int(0), C.get(x, A, "bound")))
        r = fd(c, r)
        return Ok(C.build(NE, name=merged2(C.get(r, NE, "name"), name), span=span, expr=C.get(r, NE, "expr")))
    go("let", let, "let")


# ------------------------------------------------------------- dispatch
def dispatch(C, rule="visit"):
    for trait, fn, meth in ((VISITOR, "visit", "visit_"), (MAPPER, "map", "map_"), (FOLDER, "fold", "fold_")):
        pr = {trait + "::" + meth + k: opaque(meth + k) for k in KINDS}

        def spec(c, slf, f, meth=meth, fn=fn):
            v = slf if fn != "map" else c.get(slf)
            e = C.get(v, NE, "expr")
            k = c.case(e, EXPR)
            names = {C.variant(EXPR, VAR[q]): q for q in KINDS}
            name = C.get(v, NE, "name")
            return c.ev(meth + names[k], c.get(f), name, C.get(v, NE, "span"), fld(e, EXPR, k, 0))
        C.check(rule + ".dispatch", C.method(VISITABLE, NE, fn), pr, ["x", "f"], spec, roots=[])
        pr = {VISITABLE + "::" + fn: opaque(fn)}
        try:
            b = C.method(VISITABLE, "alloc::boxed::Box", fn)
        except Missing:
            continue
        C.check(rule + ".box", b, pr, ["x", "f"], lambda c, s, f, fn=fn: c.ev(fn, c.get(s) if s[0] == "ref" else s, c.get(f)), roots=[])
