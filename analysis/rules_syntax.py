"""The concrete syntax: what is read where, and what is written out again."""
from base import *
import models

NB = "chomp::nibble::"
PARSE = "syn::parse::Parse"
TOTOK = "quote::to_tokens::ToTokens"
W = ("A", "input")
OUTER = ("sym", "input")
KIND = "next token"
KINDS = ("Underscore", "Let", "Match", "Keyword", "Ident", "LitStr", "Bang", "Paren", "Div", "Eq", "Colon", "Dot", "Or", "Semi", "other")
WORDS = ("Underscore", "Let", "Match", "Keyword", "Ident")
TOKENS = {"Underscore", "Let", "Match", "Bang", "Div", "Eq", "Colon", "Dot", "Or", "Semi"}
LISTS = {"parse_separated_nonempty": "list", "parse_separated_nonempty_with": "list", "parse_terminated": "terminated", "parse_terminated_with": "terminated"}
PARENS = "syn::group::Parens"
BOX = "alloc::boxed::Box"


def kinds(C):
    C.p.adts.setdefault(KIND, {"path": KIND, "variants": [{"name": k, "fields": []} for k in KINDS]})


def last(path):
    return path.split("::")[-1]


def what(t):
    """the syntactic category a type stands for, or None"""
    while t is not None and t.k == "adt" and t.path == BOX and t.args:
        t = t.args[0]
    if t is None or t.k != "adt":
        return None
    n = last(t.path)
    if t.path.startswith("syn::token::") and n in TOKENS:
        return n
    if t.path.startswith(NB):
        return n
    if t.path in ("proc_macro2::Ident", "syn::ident::Ident"):
        return "Ident"
    if t.path == "syn::lit::LitStr":
        return "LitStr"
    if t.path == "syn::punctuated::Punctuated":
        a, b = what(t.args[0]), what(t.args[1])
        return a and b and ("list", a, b)
    return None


def root(v):
    return W if v == OUTER else ("A", ("inside", v))


def state(st, v):
    return st.mem.get(root(v), ("op", "start"))


def advance(st, v, T_):
    st = st.copy()
    st.mem[root(v)] = ("op", "after", T_, state(st, v))
    return st


def ahead(s, n=0):
    """the token `n` places after the next one of state s"""
    while s[:2] == ("op", "after") and (s[2] in TOKENS or s[2] in ("Ident", "LitStr", "word", "parens")):
        s, n = s[3], n + 1
    return ("op", "next", s) if n == 0 else ("op", "ahead", s, Int(n))


def is_next(s, names, n=0):
    k = ahead(s, n)
    out = None
    for n in names:
        a = ("isv", k, KIND, KINDS.index(n))
        out = a if out is None else Or(out, a)
    return out


def read(I, st, v, T_):
    w = state(st, v)
    r = ("op", "parse", T_, w)
    ks = (T_,) if T_ in TOKENS or T_ in ("Ident", "LitStr") else {"word": WORDS, "parens": ("Paren",)}.get(T_)
    o = []
    for s, k in I.fork_variant(st, r, RES):
        if ks is not None:
            # a token can be read exactly where it is the next one
            for n in set(KINDS) - set(ks) if k == 0 else ks:
                f = s.F and s.F.assume(("isv", ahead(w), KIND, KINDS.index(n)), False, I.p)
                s = s.copy()
                s.F = f
            if s.F is None:
                continue
        o.append((advance(s, v, T_) if k == 0 else s, r))
    return o


def stream(I, st, a):
    while a[0] == "ref":
        a = I.read_loc(st, a[1], a[2])
    return a


def prims():
    def parse(I, st, fn, args, atys, dty):
        T_ = what(fn.args[-1]) if fn.args else None
        return read(I, st, stream(I, st, args[0]), T_) if T_ else None

    def call(I, st, fn, args, atys, dty):
        f = args[1]
        if f[0] != "fndef":
            return [x for x in apply_fn(I, st, f, args[0])]
        n = f[1].path
        if last(n) == "parse_any":
            return read(I, st, stream(I, st, args[0]), "word")
        T_ = what(f[1].args[0]) if f[1].args else None
        if n in P and last(n) in LISTS:
            return P[n](I, st, f[1], [args[0]], atys[:1], dty)
        if n == PARSE + "::parse" and T_:
            return read(I, st, stream(I, st, args[0]), T_)
        return apply_fn(I, st, f, args[0])

    def apply_fn(I, st, f, x):
        return [(s, v) for s, v in I.call_value(st, f, [x])]

    def lookahead(I, st, fn, args, atys, dty):
        return [(st, ("op", "lookahead", state(st, stream(I, st, args[0]))))]

    def token(I, st, fn, args):
        t = fn.args[-1] if fn.args else None
        n = last((t.path if t is not None else None) or "")
        if n == "PeekFn":
            return WORDS
        return (n,) if n in KINDS else None

    def peek(I, st, fn, args, atys, dty):
        ns = token(I, st, fn, args)
        a = stream(I, st, args[0])
        s = a[2] if a[:2] == ("op", "lookahead") else state(st, a)
        return [(st, is_next(s, ns, {"peek2": 1, "peek3": 2}.get(last(fn.path), 0)))] if ns else None

    def separated(kind):
        def h(I, st, fn, args, atys, dty):
            """a list read by a method of its own"""
            a = [what(x) for x in fn.args[:2]]
            if len(args) > 1 and not (args[1][0] == "fndef" and args[1][1].path == PARSE + "::parse" and what(args[1][1].args[0]) == a[0]):
                return None
            return read(I, st, stream(I, st, args[0]), (kind,) + tuple(a)) if all(a) else None
        return h

    def parens(I, st, fn, args, atys, dty):
        return read(I, st, stream(I, st, args[0]), "parens")

    def empty(I, st, fn, args, atys, dty):
        return [(st, ("op", "no more", state(st, stream(I, st, args[0]))))]

    def error(I, st, fn, args, atys, dty):
        return [(st, ("rejected",))]
    B = "syn::parse::ParseBuffer::"
    P = {B + "parse": parse, B + "call": call, B + "lookahead1": lookahead, B + "peek": peek, B + "peek2": peek, B + "peek3": peek, B + "is_empty": empty, B + "error": error,
         "syn::lookahead::Lookahead1::peek": peek, "syn::lookahead::Lookahead1::error": error, "syn::group::parse_parens": parens,
         PARSE + "::parse": parse, "syn::error::Error::new": error,
         "syn::ext::IdentExt::parse_any": lambda I, st, fn, args, atys, dty: read(I, st, stream(I, st, args[0]), "word")}
    for n, kind in LISTS.items():
        P["syn::punctuated::Punctuated::" + n] = separated(kind)

    def add_to(kind):
        def h(I, st, fn, args, atys, dty):
            st = st.copy()
            r, p = I.deref_root(st, args[0])
            I.write_loc(st, r, p, concat(I.read_loc(st, r, p), seq_lit((kind, I.content(st, args[1])))))
            return [(st, UNIT)]
        return h
    P["syn::punctuated::Punctuated::new"] = lambda I, st, fn, args, atys, dty: [(st, EMPTY)]
    P["syn::punctuated::Punctuated::push_value"] = add_to("value of")
    P["syn::punctuated::Punctuated::push_punct"] = add_to("separator of")
    return P


class Reader:
    """the reference: reads one category after the other"""

    def __init__(self, c, v=OUTER):
        self.c, self.v = c, v

    def __call__(self, T_):
        c = self.c
        c.st.mem.setdefault(root(self.v), ("op", "start"))
        r = c.pick(read(c.I, c.st, self.v, T_))
        if c.case(r, RES) == 1:
            raise Return(Err(("rejected",)))
        return fld(r, RES, 0, 0)

    def next(self, *names):
        return self.c.branch(is_next(state(self.c.st, self.v), names))

    def word(self):
        return self.next(*WORDS)


def reject(c):
    raise Return(Err(("rejected",)))


def out(I, st, v):
    """which error is reported, and what is left after one, is not compared"""
    if v[0] == "adt" and v[1] == RES and v[2] == 1:
        st = st.copy()
        for r in [r for r in st.mem if r[0] == "A"]:
            st.mem[r] = ("rejected",)
        return [(st, Err(("rejected",)))]
    if v[0] == "op" and v[1] == "parse":
        o = []
        for s, k in I.fork_variant(st, v, RES):
            o += out(I, s, Ok(fld(v, RES, 0, 0)) if k == 0 else Err(("rejected",)))
        return o
    return [(st, v)]


def grammar(C, rule="syntax.read"):
    kinds(C)

    def rd(name, *fs):
        def reads(f):
            return lambda c, inp: Ok(f(c, Reader(c)))
        spec, *alts = map(reads, fs)
        C.check(rule, C.method(PARSE, NB + name, "parse"), prims(), None, spec, args=[OUTER], mems={W: ("op", "start")}, roots=[W], view=out, alts=alts)

    def fields(name, *cats):
        """the categories are read in this order, each into its field"""
        def f(c, r):
            return C.build(NB + name, **{k: r(T_) for k, T_ in cats})
        rd(name, f)

    def lst(name, a, b):
        def done(c, s):
            raise Return(Ok(("adt", NB + name, 0, (c.get(s),))))

        def put(c, s, r, T_):
            c.push(s, ("separator of" if T_ == b else "value of", r(T_)))

        def ahead_(c, r):
            s = c.cell(EMPTY)
            put(c, s, r, a)

            def step(c):
                r = Reader(c)
                if not r.next(b):
                    done(c, s)
                put(c, s, r, b)
                put(c, s, r, a)
            c.loop(step)

        def behind(c, r):
            s = c.cell(EMPTY)

            def step(c):
                r = Reader(c)
                put(c, s, r, a)
                if not r.next(b):
                    done(c, s)
                put(c, s, r, b)
            c.loop(step)
        rd(name, lambda c, r: ("adt", NB + name, 0, (r(("list", a, b)),)), ahead_, behind)

    def variant(name, v, x):
        return C.wrap(NB + name, v, x)

    def term(c, r):
        for toks, v, T_ in ((("Underscore",), "Epsilon", "Underscore"), (("LitStr",), "Literal", "LitStr"), (("Bang",), "Fix", "Fix"),
                            (("Paren",), "Parens", "ParenExpression"), (WORDS, "Ident", "word")):
            if r.next(*toks):
                return variant("Term", v, r(T_))
        reject(c)
    rd("Term", term)

    def paren(c, r):
        p = r("parens")
        inner = C.get(p, PARENS, "content")
        e = Reader(c, inner)("Expression")
        return C.build(NB + "ParenExpression", paren_token=C.get(p, PARENS, "token"), expr=e)
    rd("ParenExpression", paren)
    fields("Fix", ("bang_token", "Bang"), ("expr", "Term"))

    def call(c, r):
        s = c.cell(seq_lit(r("Term")))

        def step(c):
            r = Reader(c)
            if not r.next("LitStr", "Bang", "Paren", *WORDS):
                raise Return(Ok(("adt", NB + "Call", 0, (c.get(s),))))
            c.push(s, r("Term"))
        c.loop(step)

    def call_(c, r):
        s = c.cell(EMPTY)

        def step(c):
            r = Reader(c)
            c.push(s, r("Term"))
            if not r.next("LitStr", "Bang", "Paren", *WORDS):
                raise Return(Ok(("adt", NB + "Call", 0, (c.get(s),))))
        c.loop(step)
    rd("Call", call, call_)
    lst("Cat", "Call", "Dot")
    lst("Alt", "Labelled", "Or")
    fields("Label", ("colon_tok", "Colon"), ("label", "word"))

    def labelled(c, r):
        cat = r("Cat")
        return C.build(NB + "Labelled", cat=cat, label=Some(r("Label")) if r.next("Colon") else NONE)
    rd("Labelled", labelled)

    def lam(c, r):
        a = r("Div")
        s = c.cell(EMPTY)

        def step(c):
            r = Reader(c)
            c.push(s, r("word"))
            if r.next("Div"):
                b = r("Div")
                raise Return(Ok(C.build(NB + "Lambda", slash_tok_left=a, args=c.get(s), slash_tok_right=b, expr=r("Alt"))))
            if not r.word():
                reject(c)
        c.loop(step)

    def lam_(c, r):
        a = r("Div")
        s = c.cell(seq_lit(r("word")))

        def step(c):
            r = Reader(c)
            if r.next("Div"):
                b = r("Div")
                raise Return(Ok(C.build(NB + "Lambda", slash_tok_left=a, args=c.get(s), slash_tok_right=b, expr=r("Alt"))))
            if not r.word():
                reject(c)
            c.push(s, r("word"))
        c.loop(step)
    rd("Lambda", lam, lam_)
    rd("Expression", lambda c, r: variant("Expression", "Lambda", r("Lambda")) if r.next("Div") else variant("Expression", "Alt", r("Alt")))
    fields("GoalStatement", ("match_token", "Match"), ("expr", "Expression"), ("semi_token", "Semi"))

    def let(c, r):
        k, n = r("Let"), r("word")
        s = c.cell(EMPTY)

        def step(c):
            r = Reader(c)
            if r.next("Eq"):
                xs = {f: r(T_) for f, T_ in (("eq_token", "Eq"), ("expr", "Expression"), ("semi_token", "Semi"), ("next", "Statement"))}
                raise Return(Ok(C.build(NB + "LetStatement", let_token=k, name=n, args=c.get(s), **xs)))
            if not r.word():
                reject(c)
            c.push(s, r("word"))
        c.loop(step)
    rd("LetStatement", let)

    def statement(c, r):
        if r.next("Let"):
            return variant("Statement", "Let", r("LetStatement"))
        if r.next("Match"):
            return variant("Statement", "Goal", r("GoalStatement"))
        reject(c)
    rd("Statement", statement)


# ------------------------------------------------------------- writing out
OUT = ("A", "tokens")


def write_prims():
    def put(st, I, a, ps):
        r, p = I.deref_root(st, a)
        st = st.copy()
        I.write_loc(st, r, p, concat(I.read_loc(st, r, p), mk_seq(tuple(ps))))
        return [(st, UNIT)]

    def one(I, st, fn, args, atys, dty):
        v, t = I.content(st, args[0]), fn.args[0]
        while t.k == "ref":
            t = t.t
        if t.k == "adt" and t.path == OPT:
            o = []
            for s, k in I.fork_variant(st, v, OPT):
                o += put(s, I, args[1], [("e", ("tok", fld(v, OPT, 1, 0)))]) if k else [(s, UNIT)]
            return o
        return put(st, I, args[1], [("e", ("tok", v))])

    def many(I, st, fn, args, atys, dty):
        S = models.as_seq(I.content(st, args[1]))
        return put(st, I, args[0], each(S))

    def each(S):
        E, X = ("elem", -7, S), ("idx", -7, S)
        return [T.mk_map(S, E, X, (("e", ("tok", E)),))]

    def parted(always):
        def h(I, st, fn, args, atys, dty):
            """the elements, with a token between them (and after the last, if `always`)"""
            S = models.as_seq(I.content(st, args[1]))
            sep = ("tok", I.content(st, args[2]))
            E, X = ("elem", -7, S), ("idx", -7, S)
            if always:
                return put(st, I, args[0], [T.mk_map(S, E, X, (("e", ("tok", E)), ("e", sep)))])
            o = []
            for s, e in I.branch(st, models.emptiness(S)):
                R = T.drop(S)
                E, X = ("elem", -7, R), ("idx", -7, R)
                o += put(s, I, args[0], [] if e else [("e", ("tok", T.nth(S, Int(0)))), T.mk_map(R, E, X, (("e", sep), ("e", ("tok", E))))]) or ()
            return o
        return h

    def surround(I, st, fn, args, atys, dty):
        """the delimiters stand around what the closure writes"""
        o = []
        inner = ("A", "inside")
        s0 = st.copy()
        s0.mem[inner] = EMPTY
        for s, v in I.call_value(s0, args[2], [("ref", inner, ())]):
            body = s.mem.get(inner)
            w = put(s, I, args[1], [("e", ("around", I.content(st, args[0]), body))])
            if w is None:
                return None
            o += w
        return o
    P = {TOTOK + "::to_tokens": one, TOTOK + "::into_token_stream": None, "quote::ext::TokenStreamExt::append_all": many,
         "quote::ext::TokenStreamExt::append_separated": parted(False), "quote::ext::TokenStreamExt::append_terminated": parted(True),
         "syn::token::Paren::surround": surround, "quote::ext::TokenStreamExt::append": lambda I, st, fn, args, atys, dty: put(st, I, args[0], [("e", ("tok", I.content(st, args[1])))])}
    return {k: v for k, v in P.items() if v}


def written(C, rule="syntax.written"):
    """every construct writes out the tokens it was read from, in their order"""
    def wr(name, f):
        def spec(c, x, o):
            x = c.get(x) if x[0] == "ref" else x
            c.set(o, mk_seq(tuple(f(c, x))))
            return UNIT
        C.check(rule, C.method(TOTOK, NB + name, "to_tokens"), write_prims(), None, spec, args=[("sym", "self"), ("ref", OUT, ())],
                mems={OUT: EMPTY}, roots=[OUT])

    def tok(v):
        return ("e", ("tok", v))

    def fields(name, *fs):
        wr(name, lambda c, x: [(all_(C.get(x, NB + name, f[1:])) if f[0] == "*" else tok(C.get(x, NB + name, f))) for f in fs])

    def all_(S):
        E, X = ("elem", -7, S), ("idx", -7, S)
        return T.mk_map(S, E, X, (tok(E),))

    def variants(name):
        wr(name, lambda c, x: [tok(fld(x, NB + name, c.case(x, NB + name), 0))])
    fields("Fix", "bang_token", "expr")
    wr("ParenExpression", lambda c, x: [("e", ("around", C.get(x, NB + "ParenExpression", "paren_token"), mk_seq((tok(C.get(x, NB + "ParenExpression", "expr")),))))])
    variants("Term")
    wr("Call", lambda c, x: [all_(fld(x, NB + "Call", 0, 0))])
    wr("Cat", lambda c, x: [tok(fld(x, NB + "Cat", 0, 0))])
    wr("Alt", lambda c, x: [tok(fld(x, NB + "Alt", 0, 0))])
    fields("Label", "colon_tok", "label")

    def labelled(c, x):
        L = C.get(x, NB + "Labelled", "label")
        return [tok(C.get(x, NB + "Labelled", "cat"))] + ([tok(fld(L, OPT, 1, 0))] if c.case(L, OPT) == 1 else [])
    wr("Labelled", labelled)
    fields("Lambda", "slash_tok_left", "*args", "slash_tok_right", "expr")
    variants("Expression")
    fields("GoalStatement", "match_token", "expr", "semi_token")
    fields("LetStatement", "let_token", "name", "*args", "eq_token", "expr", "semi_token", "next")
    variants("Statement")
