"""The example parsers: what the expression or document that was read is worth."""
from base import *
import terms as T
from spec import PanicHere
from models import ITER
import models
import rules_auto as RA
import rules_runtime as RR
from rules_auto import adt, stem, strip, FROM, TOSTR, literal_text, is_char
from rules_runtime import PARSER, PARSE, rest_of, pos_of, head_, bump

AR = "chomp_bench::arith::"
JS = "chomp_bench::json::"
SELF = ("A", "input")
IN = RR.IN
ERR = Err(ANY)


class Tree(RA.Tree):
    """a syntax tree whose lists may be of tuples: their components, in order"""

    def __init__(self, C, prefix):
        RA.Tree.__init__(self, C, prefix)
        self.comps = {}
        for L, i in list(self.lists.items()):
            if i.k == "tuple":
                self.comps[L] = list(i.args)

    def named(self, name, *fields):
        """the type of that name (numbers aside) with these fields"""
        c = [p for p in self.p.adts if p.startswith(self.prefix) and stem(p) == name
             and all(any(stem(f["name"]) == x or stem(v["name"]) == x for v in self.p.adts[p]["variants"] for f in v["fields"]) for x in fields)]
        if len(c) != 1:
            raise Missing(self.prefix + name)
        return c[0]

    def items(self, I, st, v, L, ty=None):
        if L not in self.comps:
            return RA.Tree.items(self, I, st, v, L, ty)
        comps = self.comps[L]
        n = len(comps)

        def go(st, v, path):
            """[(state, leaves)]: the last may be the items of a whole list"""
            v = I.content(st, v) if v[0] == "ref" else v
            if path == L and st.F.variant(v) is None and path != ty:
                return [(st, [("rest", v)])]
            out = []
            for s, k in I.fork_variant(st, v, path):
                acc = [(s, [])]
                for j, f in enumerate(self.p.adts[path]["variants"][k]["fields"]):
                    x = fld(v, path, k, j)
                    a = adt(f["ty"])
                    nxt = []
                    for s2, xs in acc:
                        if any(c.k == "adt" and c.path == a for c in map(strip, comps)):
                            nxt.append((s2, xs + [x]))
                        elif a == L or (a and any(self.reaches(a, L, c) for c in comps)):
                            nxt += [(s3, xs + ys) for s3, ys in go(s2, x, a)]
                        else:
                            nxt.append((s2, xs))
                    acc = nxt
                out += acc
            return out
        v = I.content(st, v) if v[0] == "ref" else v
        if ty is None and st.F.variant(v) is None:
            return [(st, ("op", "items", v))]
        out = []
        for s, xs in go(st, v, ty or L):
            S, cur = EMPTY, []
            for x in xs:
                if x[0] == "rest" and not cur:
                    S = concat(S, ("op", "items", x[1]))
                    continue
                if x[0] == "rest":
                    raise Missing("the items of " + L)
                cur.append(x)
                if len(cur) == n:
                    S, cur = concat(S, seq_lit(mk_tup(tuple(cur)))), []
            if cur:
                raise Missing("the items of " + L)
            out.append((s, S))
        return out


def conversions(C, t, prefix, good):
    """nested conversions of parts of the tree are their values"""
    def into(I, st, fn, args, atys, dty):
        ts = [x for x in fn.args]
        if len(ts) == 2 and any((adt(x) or "").startswith(prefix) for x in ts) and any(good(x) for x in ts):
            return [(st, ("op", "value", I.content(st, args[0])))]
        return None
    P = {"core::convert::Into::into": into, "core::convert::From::from": into}
    RA.list_prims(C, t, P)
    P[TOSTR] = RA.shown
    P[RA.FORMAT] = RA.format_one

    def parse(I, st, fn, args, atys, dty):
        """what the grammar takes for a number is one"""
        v = I.content(st, args[0])
        t_ = fn.args[-1] if fn.args else None
        return [(st, Ok(("op", "number", v, Str(t_.g if t_ is not None else "?"))))]
    for n in ("str::parse", "core::str::parse"):
        P[n] = parse
    return P


def conversion(C, prefix, name, good):
    found = [(b, adt(b.locals[1])) for b in C.p.bodies.values()
             if b.trait == FROM and b.self_ty is not None and good(b.self_ty) and (adt(b.locals[1]) or "").startswith(prefix)
             and stem(adt(b.locals[1])) == name and b.canon.endswith("::from")]
    if len(found) != 1:
        raise Missing("the value of %s%s" % (prefix, name))
    return found[0]


def whole(t, C, P, rule, b, T_):
    """blanks before the goal are skipped"""
    skips = [i for i, v in enumerate(C.p.adts[T_]["variants"])]
    def nest(x):
        for i, v in enumerate(C.p.adts[T_]["variants"]):
            p = adt(v["fields"][0]["ty"])
            fs = C.p.adts[p]["variants"][0]["fields"] if p in C.p.adts else []
            k = [j for j, f in enumerate(fs) if adt(f["ty"]) == T_]
            if len(k) == 1:
                yield i, p, k[0]
    rec = list(nest(T_))
    if len(rec) != 1 or len(skips) != 2:
        raise Missing("the goal of " + T_)
    return rec[0]


def is_i64(x):
    x = strip(x)
    return x.k == "prim" and x.g == "i64"


def arith_values(C, rule="example.arith"):
    """the value of a tree of the grammar"""
    pre = AR + "nibble::"
    t = Tree(C, pre)
    P = conversions(C, t, pre, is_i64)
    I_ = None

    def val(x):
        return ("op", "value", x)

    def go(name, spec, alts=()):
        b, T_ = conversion(C, pre, name, is_i64)
        C.check(rule, b, P, ["x"], lambda c, x: spec(c, x, T_), panics_ok=True, alts=[lambda c, x, a=a: a(c, x, T_) for a in alts])

    def goal(c, x, T_):
        i, p, k = whole(t, C, P, rule, None, T_)
        cur = c.cell(x)

        def step(c):
            v = c.get(cur)
            j = c.case(v, T_)
            if j != i:
                raise Return(val(fld(v, T_, j, 0)))
            c.set(cur, fld(fld(v, T_, i, 0), p, 0, k))
        c.loop(step)

    def goal1(c, x, T_):
        i, p, k = whole(t, C, P, rule, None, T_)
        j = c.case(x, T_)
        return val(fld(x, T_, j, 0)) if j != i else val(fld(fld(x, T_, i, 0), p, 0, k))
    go("Ast", goal, [goal1])

    def chain(first):
        def spec(c, x, T_):
            v, _ = t.field(x, T_, first)
            r, L = t.field(x, T_, "opt")
            S = c.pick(t.items(c.I, c.st, r, L))
            acc = c.cell(val(v))

            def step(c, e):
                o = adt(t.comps[L][0])
                k = c.case(fld(e, "()", 0, 0), o)
                w = literal_text(C, adt(C.p.adts[o]["variants"][k]["fields"][0]["ty"]))
                y = val(fld(e, "()", 0, 1))
                a = c.get(acc)
                if w not in "+-*/":
                    raise Missing("the operator %s" % w)
                c.set(acc, add(a, y) if w == "+" else sub(a, y) if w == "-" else c.I.mul(a, y) if w == "*" else ("op", "Div", a, y))
            c.each(S, step)
            return c.get(acc)
        return spec
    go("Arith", chain("prod"))
    go("Prod", chain("term"))

    def term(c, x, T_):
        r, R_ = t.field(x, T_, "raw_term")
        n = t.case(c, r, R_, "Pos", "Neg", "Parens")
        k = t.variant(R_, n)
        y, Y_ = fld(r, R_, k, 0), adt(C.p.adts[R_]["variants"][k]["fields"][0]["ty"])
        if n == "Pos":
            return val(y)
        if n == "Neg":
            return sub(Int(0), val(t.field(y, Y_, "number")[0]))
        return val(t.field(y, Y_, "expr")[0])
    go("Term", term)
    for name in ("Pos", "Number"):
        go(name, lambda c, x, T_: ("op", "number", ("op", "shown", x), Str("i64")))


def arith_lists(C, rule="example.lists"):
    RA_lists(C, rule, Tree(C, AR + "nibble::"))


def RA_lists(C, rule, t):
    S = ("A", "self")
    if not t.lists:
        raise Missing("lists of the syntax tree")
    P = {}
    RA.list_prims(C, t, P)
    for L in sorted(t.lists):
        def spec(c, slf, L=L):
            v = c.get(slf)
            k = c.case(v, L)
            n = C.p.adts[L]["variants"][k]["fields"]
            full = mk_adt(L, k, tuple(fld(v, L, k, j) for j in range(len(n))))
            xs = c.pick(t.items(c.I, c.st, full, L))
            if not c.nonempty(xs):
                c.set(slf, EMPTY)
                return NONE
            c.set(slf, drop(xs, 1))
            return Some(T.nth(xs, Int(0)))

        def view(I, st, v, L=L):
            m = st.mem[S]
            if m[0] == "seq" or m[:2] == ("op", "items"):
                return [(st, v)]
            out = []
            for s, xs in t.items(I, st, m, L):
                s = s.copy()
                s.mem[S] = xs
                out.append((s, v))
            return out
        C.check(rule, C.method(RA.ITR, L, "next"), P, None, spec, args=[("ref", S, ())], mems={S: ("sym", "list")}, roots=[S], view=view)


# ------------------------------------------------------------ by hand
def char_class(I, st, f):
    """the characters a predicate holds for: ((first, holds), ...), or None"""
    ks = {0}

    def near(x):
        if isinstance(x, bool):
            return
        if isinstance(x, int):
            ks.update(n for n in (abs(x) - 1, abs(x), abs(x) + 1) if n >= 0)
        elif isinstance(x, tuple):
            for y in x:
                near(y)
    for s, v in I.call_value(st, f, [("sym", "one char")]):
        near(v)
        for c in s.F.iv.items():
            near(c)
    out = []
    for n in sorted(k for k in ks if k <= 0x10ffff):
        r = {v for _, v in I.call_value(st, f, [T.Char(n)])}
        if len(r) != 1 or not r <= {TRUE, FALSE}:
            return None
        r = r.pop() == TRUE
        if not out or out[-1][1] != r:
            out.append((n, r))
    return tuple(out)


def klass(chars):
    out = [(0, False)]
    for n in sorted(set(map(ord, chars))):
        if out[-1] == (n, False):
            out[-1] = (n, True)
        elif out[-1][1] is False:
            out.append((n, True))
        out.append((n + 1, False))
    return tuple(x for i, x in enumerate(out) if i == 0 or out[i - 1][1] != x[1])


def skipped(v, k):
    return mk_tup((("op", "after", rest_of(v), Str(repr(k))), ("op", "pos after", v, Str(repr(k)))))


def input_prims(readers=()):
    """the input is a sequence of characters; the readers called are their own rules"""
    P = RR.contract()

    def consume(I, st, fn, args, atys, dty):
        w = args[1] if args[1][0] == "str" else I.content(st, args[1])
        if w[0] != "str":
            return None
        r, p = I.deref_root(st, args[0])
        out, work = [], [(st, 0)]
        while work:
            s, i = work.pop()
            if i == len(w[1]):
                out.append((s, Ok(UNIT)))
                continue
            v = I.read_loc(s, r, p)
            for s2, e in I.branch(s, emptiness(rest_of(v))):
                if e:
                    out.append((s2, ERR))
                    continue
                for s3, same in I.branch(s2, eq_int(nth(rest_of(v), Int(0)), Int(ord(w[1][i])))):
                    if not same:
                        out.append((s3, ERR))
                        continue
                    s3 = s3.copy()
                    I.write_loc(s3, r, p, RR.adv(v))
                    work.append((s3, i + 1))
        return out

    def skip(I, st, fn, args, atys, dty):
        k = char_class(I, st, args[1])
        if k is None:
            raise Undecided("what is skipped")
        r, p = I.deref_root(st, args[0])
        st = st.copy()
        I.write_loc(st, r, p, skipped(I.read_loc(st, r, p), k))
        return [(st, UNIT)]
    P[PARSER + "::consume_str"] = consume
    P[PARSER + "::skip_while"] = skip

    def reader(name):
        return lambda I, st, fn, args, atys, dty: RR.opaque_take(I, st, name, args[0])
    for canon, name in readers:
        P[canon] = reader(name)
    return P


def accepted(root=SELF):
    """what is reported of an input that is not accepted, and where reading stopped, are not compared"""
    def view(I, st, v):
        out = []
        for s, k in I.fork_variant(st, v, RES):
            if k == 0:
                out.append((s, Ok(fld(v, RES, 0, 0))))
            else:
                s = s.copy()
                s.mem[root] = ANY
                out.append((s, ERR))
        return out
    return view


def expect(c, inp, w):
    for ch in w:
        h = head_(c, inp)
        if h is None or not c.branch(eq_int(h, Int(ord(ch)))):
            raise Return(ERR)
        bump(c, inp)


def skip(c, inp, chars):
    c.set(inp, skipped(c.get(inp), klass(chars)))


def take(c, inp, name):
    return c.pick(RR.opaque_take(c.I, c.st, name, inp))


def is_in(c, h, ranges):
    return any_branch(c, h, ranges)


def any_branch(c, h, ranges):
    for lo, hi in ranges:
        if c.branch(le(Int(ord(lo)), h) if hi == "\U0010ffff" else And(le(Int(ord(lo)), h), le(h, Int(ord(hi))))):
            return True
    return False


def arith_read(C, rule="example.arith.read"):
    names = ["take_number", "take_term", "take_product", "take_expr"]
    P = input_prims([(AR + n, n) for n in names])

    def go(name, spec, *alts):
        pr = {k: v for k, v in P.items() if k != AR + name} if name not in ("take_term", "take_expr") else P
        b = C.fn(AR + name)
        C.check(rule, b, pr, None, spec, args=[("ref", SELF, ())], mems={SELF: IN}, roots=[SELF], view=accepted(), panics_ok=True, alts=alts)

    def number(c, inp):
        out = c.cell(NONE)

        def step(c):
            h = head_(c, inp)
            o = c.get(out)
            if h is None or not any_branch(c, h, [("0", "9")]):
                raise Return(Ok(fld(o, OPT, 1, 0)) if c.case(o, OPT) == 1 else ERR)
            bump(c, inp)
            n = fld(o, OPT, 1, 0) if c.case(o, OPT) == 1 else Int(0)
            c.set(out, Some(add(c.I.mul(n, Int(10)), sub(h, Int(48)))))
        c.loop(step)
    def told(c, inp):
        """the same, "any yet" apart from the number"""
        out, some = c.cell(Int(0)), c.cell(FALSE)

        def step(c):
            h = head_(c, inp)
            if h is None or not any_branch(c, h, [("0", "9")]):
                raise Return(Ok(c.get(out)) if c.branch(c.get(some)) else ERR)
            bump(c, inp)
            c.set(some, TRUE)
            c.set(out, add(c.I.mul(c.get(out), Int(10)), sub(h, Int(48))))
        c.loop(step)
    go("take_number", number, told)

    def term(c, inp):
        h = head_(c, inp)
        if h is None:
            return ERR
        if c.branch(eq_int(h, Int(ord("-")))):
            bump(c, inp)
            skip(c, inp, " ")
            v = sub(Int(0), c.q(take(c, inp, "take_number")))
        elif c.branch(eq_int(h, Int(ord("(")))):
            bump(c, inp)
            skip(c, inp, " ")
            v = c.q(take(c, inp, "take_expr"))
            expect(c, inp, ")")
        elif any_branch(c, h, [("0", "9")]):
            v = c.q(take(c, inp, "take_number"))
        else:
            return ERR
        skip(c, inp, " ")
        return Ok(v)
    go("take_term", term)

    def chain(inner, ops):
        def spec(c, inp):
            acc = c.cell(c.q(take(c, inp, inner)))

            def step(c):
                h = head_(c, inp)
                w = None
                for x in ops:
                    if h is not None and w is None and c.branch(eq_int(h, Int(ord(x)))):
                        w = x
                if w is None:
                    raise Return(Ok(c.get(acc)))
                bump(c, inp)
                skip(c, inp, " ")
                y = c.q(take(c, inp, inner))
                a = c.get(acc)
                c.set(acc, add(a, y) if w == "+" else sub(a, y) if w == "-" else c.I.mul(a, y) if w == "*" else ("op", "Div", a, y))
            c.loop(step)
        return spec
    go("take_product", chain("take_term", "*/"))
    go("take_expr", chain("take_product", "+-"))

    def parse(c, inp):
        skip(c, inp, " ")
        v = c.q(take(c, inp, "take_expr"))
        return Ok(v) if c.branch(emptiness(rest_of(c.get(inp)))) else ERR
    go("parse_expr", parse)


# ------------------------------------------------------------ documents
VALUE = JS + "Value"
BLANKS = " \t\n\r"
HEX = "0123456789abcdefABCDEF"
ESCAPES = {'"': '"', "\\": "\\", "/": "/", "b": "\x08", "f": "\x0c", "n": "\n", "r": "\r", "t": "\t"}
PLAIN = [("\x20", "\x21"), ("\x23", "\x5b"), ("\x5d", "\U0010ffff")]
STR1, KEYED = "text of a document", "member"


def scalar(n):
    return ("op", "scalar", n)


def surrogate(c, n, lo=0xd800, hi=0xdfff):
    return c.branch(And(le(Int(lo), n), le(n, Int(hi))))


def pair_prims(P):
    """two halves of a pair, the first half first"""
    def decode(I, st, fn, args, atys, dty):
        a, b = args
        return [(s, ("op", "pair", b, a) if low else ("op", "pair", a, b)) for s, low in I.branch(st, And(le(Int(0xdc00), a), le(a, Int(0xdfff))))]
    P[JS + "decode_pair"] = decode

    def to_char(I, st, fn, args, atys, dty):
        if any(is_char(x) for x in fn.args) and any(strip(x).k == "prim" and strip(x).g == "u32" for x in fn.args):
            return [(st, Ok(scalar(args[0])))]
        return None
    for n in ("TryInto::try_into", "TryFrom::try_from"):
        P["core::convert::" + n] = to_char

    def from_u32(I, st, fn, args, atys, dty):
        return [(st, Some(scalar(args[0])))]
    for n in ("char::from_u32", "core::char::from_u32", "core::char::methods::from_u32"):
        P[n] = from_u32
    return P


def json_pair(C, rule="example.json.pair"):
    """the character that a pair of surrogates stands for"""
    hi, lo = ("sym", "high"), ("sym", "low")
    facts = [(f, True) for x, a, b in ((hi, 0xd800, 0xdbff), (lo, 0xdc00, 0xdfff)) for f in (le(Int(a), x), le(x, Int(b)))]

    def spec(c, a, b):
        return add(add(c.I.mul(sub(hi, Int(0xd800)), Int(0x400)), sub(lo, Int(0xdc00))), Int(0x10000))
    C.check(rule, C.fn(JS + "decode_pair"), {}, None, spec, args=[hi, lo], facts=facts)


def json_good(x):
    x = strip(x)
    return x.k == "prim" and x.g == "f64" or x.k == "adt" and (x.path in (VALUE, "alloc::string::String", "alloc::vec::Vec") or x.path.endswith("::HashMap"))


class Doc(Tree):
    """the characters of a string are decoded by their own rule"""

    def items(self, I, st, v, L, ty=None):
        if ty is None and is_char(self.lists[L]):
            return [(st, ("op", "items", I.content(st, v) if v[0] == "ref" else v))]
        return Tree.items(self, I, st, v, L, ty)


def json_values(C, rule="example.json"):
    pre = JS + "nibble::"
    t = Doc(C, pre)
    P = conversions(C, t, pre, json_good)

    def val(x):
        return ("op", "value", x)

    def go(name, spec, alts=()):
        b, T_ = conversion(C, pre, name, json_good)
        C.check(rule, b, P, ["x"], lambda c, x: spec(c, x, T_), alts=[lambda c, x, a=a: a(c, x, T_) for a in alts])

    def last(c, v, T_, j):
        k = C.p.adts[T_]["variants"][j]["fields"][0]
        w, W_ = fld(v, T_, j, 0), adt(k["ty"])
        return val(t.field(w, W_, "value")[0])

    def goal(c, x, T_):
        i, p, k = whole(t, C, P, rule, None, T_)
        cur = c.cell(x)

        def step(c):
            v = c.get(cur)
            j = c.case(v, T_)
            if j != i:
                raise Return(last(c, v, T_, j))
            c.set(cur, fld(fld(v, T_, i, 0), p, 0, k))
        c.loop(step)

    def goal1(c, x, T_):
        i, p, k = whole(t, C, P, rule, None, T_)
        j = c.case(x, T_)
        return last(c, x, T_, j) if j != i else val(fld(fld(x, T_, i, 0), p, 0, k))
    go("Ast", goal, [goal1])

    def value(c, x, T_):
        n = t.case(c, x, T_, "Null", "True", "False", "Number", "String", "Object", "Array")
        y = val(fld(x, T_, t.variant(T_, n), 0))
        if n == "Null":
            return mk_adt(VALUE, C.variant(VALUE, "Null"), ())
        if n in ("True", "False"):
            return C.wrap(VALUE, "Bool", B(n == "True"))
        return C.wrap(VALUE, n, y)
    go("Value", value)
    go("Number", lambda c, x, T_: ("op", "number", ("op", "shown", x), Str("f64")))
    go("String", lambda c, x, T_: ("op", "items", t.field(x, T_, "star")[0]))

    def members(c, x, T_):
        S, L = t.field(x, T_, "opt")
        S = c.map(c.pick(listed(c, S, L)), lambda c, m: mk_tup(tuple(val(t.field(m, t.lists[ls(L)].path, f)[0]) for f in ("key", "value"))))
        return T.mextend(("mempty",), S)

    def ls(L):
        if L in t.lists:
            return L
        b = C.p.method("core::iter::traits::collect::IntoIterator", L, "into_iter")
        return adt(b.locals[0])

    def listed(c, S, L):
        return t.items(c.I, c.st, S, ls(L), None if L in t.lists else L)

    def elements(c, x, T_):
        S, L = t.field(x, T_, "opt")
        return c.map(c.pick(listed(c, S, L)), lambda c, e: val(e))
    go("Object", members)
    go("Array", elements)


def json_lists(C, rule="example.lists"):
    t = Doc(C, JS + "nibble::")
    chars = {L for L in t.lists if is_char(t.lists[L])}
    for L in chars:
        del t.lists[L]
    RA_lists(C, rule, t)


def number_prims(P):
    def number(I, st, fn, args, atys, dty):
        if args[1] != Int(16):
            return [(st, Ok(("op", "digits of another base", I.content(st, args[0]))))]
        return [(st, Ok(("op", "number", I.content(st, args[0]))))]
    for n in ("u16::from_str_radix", "u32::from_str_radix", "core::num::from_str_radix"):
        P[n] = number
    return P


def json_chars(C, rule="example.json.chars"):
    """a step of reading the characters of a string"""
    pre = JS + "nibble::"
    t = Doc(C, pre)
    L = [l for l in t.lists if is_char(t.lists[l])]
    if len(L) != 1:
        raise Missing("the characters of a string")
    L = L[0]
    b = C.method(RA.ITR, L, "next")
    S = ("A", "self")
    P = number_prims(pair_prims({}))

    def as_char(I, st, fn, args, atys, dty):
        if any(is_char(x) for x in fn.args) and any((adt(x) or "").startswith(pre) for x in fn.args):
            return [(st, ("op", "char", I.content(st, args[0])))]
        return None
    for n in ("Into::into", "From::from"):
        P["core::convert::" + n] = as_char
    k0, k1 = t.variant(L, "None"), t.variant(L, "Some")
    some = adt(C.p.adts[L]["variants"][k1]["fields"][0]["ty"])

    def spec_(strict):
        def spec(c, slf):
            def one():
                v = c.get(slf)
                if c.case(v, L) == k0:
                    c.set(slf, mk_adt(L, k0, (ANY,)))
                    return None
                p = fld(v, L, k1, 0)
                c.set(slf, t.field(p, some, "rec")[0])
                return t.field(p, some, "char")

            def code(u, U):
                xs = [i for i, f in enumerate(C.p.adts[U]["variants"][0]["fields"]) if stem(f["name"]) == "hex"]
                if len(xs) != 4:
                    raise Missing("the digits of " + U)
                return ("op", "number", seq_lit(*[("op", "char", fld(u, U, 0, i)) for i in xs]))

            def kind(v, K):
                """what an escape is, and of what"""
                fs = C.p.adts[K]["variants"][0]["fields"]
                k = [i for i, f in enumerate(fs) if adt(f["ty"]) in C.p.adts and {"Ascii", "Unicode"} == {stem(w["name"]) for w in C.p.adts[adt(f["ty"])]["variants"]}]
                if len(k) != 1:
                    raise Missing("the kinds of escape")
                A = adt(fs[k[0]]["ty"])
                y = fld(v, K, 0, k[0])
                n = t.case(c, y, A, "Ascii", "Unicode")
                i = t.variant(A, n)
                return n, fld(y, A, i, 0), adt(C.p.adts[A]["variants"][i]["fields"][0]["ty"])
            r = one()
            if r is None:
                return NONE
            v, T_ = r
            n = t.case(c, v, T_, "Literal", "Escape")
            y = fld(v, T_, t.variant(T_, n), 0)
            Y = adt(C.p.adts[T_]["variants"][t.variant(T_, n)]["fields"][0]["ty"])
            if n == "Literal":
                return Some(("op", "char", y))
            n, z, Z = kind(y, Y)
            if n == "Ascii":
                i = c.case(z, Z)
                w = literal_text(C, adt(C.p.adts[Z]["variants"][i]["fields"][0]["ty"]))
                if w not in ESCAPES:
                    raise Missing("the character of the escape %s" % w)
                return Some(T.Char(ord(ESCAPES[w])))
            u = code(z, Z)
            if not surrogate(c, u):
                return Some(scalar(u))
            r = one()
            if r is None or t.case(c, r[0], r[1], "Literal", "Escape") == "Literal":
                raise PanicHere()
            i = t.variant(r[1], "Escape")
            n, z, Z = kind(fld(r[0], r[1], i, 0), adt(C.p.adts[r[1]]["variants"][i]["fields"][0]["ty"]))
            if n == "Ascii":
                raise PanicHere()
            w = code(z, Z)
            if strict and not surrogate(c, w):
                raise PanicHere()
            if surrogate(c, u, 0xdc00):
                return Some(scalar(("op", "pair", w, u)))
            return Some(scalar(("op", "pair", u, w)))
        return spec

    def view(I, st, v):
        """the end of a list is the end of a list"""
        m = st.mem[S]
        out = []
        for s, k in I.fork_variant(st, m, L) if m[0] == "adt" else [(st, None)]:
            if k == k0:
                s = s.copy()
                s.mem[S] = ("sym", "no more")
            out.append((s, v))
        return out
    C.check(rule, b, P, None, spec_(True), args=[("ref", S, ())], mems={S: ("sym", "list")}, roots=[S], view=view, panics_ok=True, alts=[spec_(False)])


def json_read(C, rule="example.json.read"):
    """documents read by hand"""
    inner = [b for b in C.p.bodies.values() if b.canon.startswith(JS) and "::nibble::" not in b.canon and "::lalr" not in b.canon]

    def gives(b, ok):
        r = b.locals[0]
        return r.k == "adt" and r.path == RES and ok(r.args[0])
    u16 = [b for b in inner if b.nargs == 1 and gives(b, lambda x: x.k == "prim" and x.g == "u16")]
    text = [b for b in inner if b.nargs == 1 and gives(b, lambda x: adt(x) == "alloc::string::String")]
    mem = [b for b in inner if b.nargs == (2 if "{closure" in b.df.rsplit("::", 1)[-1] else 1) and gives(b, lambda x: x.k == "tuple" and len(x.args) == 2)]
    take_b = C.method(PARSE, VALUE, "take")
    if len(u16) != 1 or len(text) != 1 or len(mem) != 1:
        raise Missing("the readers of four digits (%d), strings (%d) and members (%d)" % (len(u16), len(text), len(mem)))
    u16, text, mem = u16[0], text[0], mem[0]

    def base():
        P = number_prims(pair_prims(input_prims()))

        def chars_from(I, st, fn, args, atys, dty):
            """as many characters of the set as there is room for"""
            S = I.content(st, args[1])
            xs = parts(S)
            if not all(x[0] == "e" and x[1][0] in ("char", "aff") for x in xs):
                raise Undecided("a set of characters")
            K = klass("".join(chr(x[1][1]) for x in xs))
            n = I.content(st, args[2])
            n = n[3] if n[:2] == ("op", "repeat") else T.slen(n)
            if not is_int(n):
                raise Undecided("a number of characters")
            r, p = I.deref_root(st, args[0])
            br, bp = I.deref_root(st, args[2])
            v = I.read_loc(st, r, p)
            e = ("ev", "chars of", Str(repr(K)), n, v)
            out = []
            for s, k in I.fork_variant(st, e, RES):
                s = s.copy()
                if k == 0:
                    I.write_loc(s, br, bp, fld(e, RES, 0, 0))
                    I.write_loc(s, r, p, mk_tup((("ev", "rest_after", e), ("ev", "pos_after", e))))
                    out.append((s, Ok(UNIT)))
                else:
                    out.append((s, ERR))
            return out
        P[PARSER + "::take_chars_from"] = chars_from

        def parse(I, st, fn, args, atys, dty):
            t_ = fn.args[-1] if fn.args else None
            r = ("op", "number read", I.content(st, args[0]), Str(t_.g if t_ is not None else "?"))
            return [(s, Ok(fld(r, RES, 0, 0)) if k == 0 else ERR) for s, k in I.fork_variant(st, r, RES)]
        for n in ("str::parse", "core::str::parse"):
            P[n] = parse

        def reads_value(I, st, f):
            """whether a closure reads one value and gives it as it is"""
            X, was = ("A", "probe"), ("sym", "probe")
            st = st.copy()
            st.mem[X] = was
            w = st.copy()
            e = RR.opaque_take(I, w, "value", ("ref", X, ()))
            (w, e), = e
            for s, v in I.call_value(st, f, (("ref", X, ()),)):
                if v is models.PANIC or s.mem[X] != w.mem[X] or v not in (e, Ok(fld(e, RES, 0, 0))) and v[:3] != ("adt", RES, 1):
                    return False
            return True

        def separated(I, st, fn, args, atys, dty):
            inp, f, sep, stop, tail, first = args
            r, p = I.deref_root(st, inp)
            o = I.content(st, f)
            what = Str("?")
            if o[0] == "fndef":
                what = Str("value") if PARSE + "::take" in repr(o) or take_b.canon in repr(o) else what
                if mem.canon in repr(o):
                    what = Str(KEYED)
            elif o[0] == "clo" and C.p.bodies.get(o[1]) is mem:
                what = Str(KEYED)
            elif o[0] == "clo" and reads_value(I, st, f):
                what = Str("value")

            def chars(S):
                xs = parts(I.content(st, S))
                if not all(x[0] == "e" and x[1][0] in ("char", "aff") for x in xs):
                    raise Undecided("a set of characters")
                return Str(repr(klass("".join(chr(x[1][1]) for x in xs))))
            e = ("ev", "items", ("op", "separated", what, sep, stop, chars(first), I.read_loc(st, r, p)))
            st = st.copy()
            I.write_loc(st, r, p, mk_tup((("ev", "rest_after", e), ("ev", "pos_after", e))))
            return [(st, ("it", "seq", ("op", "results", e)))]
        P[PARSER + "::iter_strict"] = separated

        def reader(name):
            return lambda I, st, fn, args, atys, dty: RR.opaque_take(I, st, name, args[0])
        P[u16.canon] = reader("four digits")
        P[text.canon] = reader("string")
        P[take_b.canon] = reader("value")
        P[PARSER + "::take"] = reader("value")
        P[PARSE + "::take"] = reader("value")
        return P

    def go(b, spec, without=(), pre=(), **kw):
        P = {k: v for k, v in base().items() if k not in without}
        C.check(rule, b, P, None, spec, args=list(pre) + [("ref", SELF, ())], mems={SELF: IN}, roots=[SELF], view=accepted(), **kw)

    def digits(c, inp):
        e = ("ev", "chars of", Str(repr(klass(HEX))), Int(4), c.get(inp))
        if c.case(e, RES) == 1:
            return ERR
        c.set(inp, mk_tup((("ev", "rest_after", e), ("ev", "pos_after", e))))
        n = c.cell(Int(0))

        def step(c, h):
            for lo, hi, d in (("0", "9", 48), ("a", "f", 87), ("A", "F", 55)):
                if any_branch(c, h, [(lo, hi)]):
                    c.set(n, add(c.I.mul(c.get(n), Int(16)), sub(h, Int(d))))
                    return
            raise PanicHere()
        c.each(fld(e, RES, 0, 0), step)
        return Ok(c.get(n))
    go(u16, digits, [u16.canon], panics_ok=True)

    def next_(c, inp):
        h = head_(c, inp)
        if h is None:
            raise Return(ERR)
        bump(c, inp)
        return h

    def string(reverse):
        def spec(c, inp):
            expect(c, inp, '"')
            s = c.cell(EMPTY)

            def step(c):
                h = next_(c, inp)
                if c.branch(eq_int(h, Int(ord('"')))):
                    raise Return(Ok(c.get(s)))
                if any_branch(c, h, PLAIN):
                    c.push(s, h)
                    return
                if not c.branch(eq_int(h, Int(ord("\\")))):
                    raise Return(ERR)
                h = next_(c, inp)
                for w in ESCAPES:
                    if c.branch(eq_int(h, Int(ord(w)))):
                        c.push(s, T.Char(ord(ESCAPES[w])))
                        return
                if not c.branch(eq_int(h, Int(ord("u")))):
                    raise Return(ERR)
                n = c.q(take(c, inp, "four digits"))
                if not surrogate(c, n):
                    c.push(s, scalar(n))
                    return
                expect(c, inp, "\\u")
                m = c.q(take(c, inp, "four digits"))
                if surrogate(c, n, 0xdc00):
                    if not reverse or not surrogate(c, m, 0xd800, 0xdbff):
                        raise Return(ERR)
                    n, m = m, n
                elif not surrogate(c, m, 0xdc00, 0xdfff):
                    raise Return(ERR)
                c.push(s, scalar(("op", "pair", n, m)))
            c.loop(step)
        return spec
    go(text, string(True), [text.canon], alts=[string(False)])

    def member(c, *a):
        inp = a[-1]
        skip(c, inp, BLANKS)
        k = c.q(take(c, inp, "string"))
        skip(c, inp, BLANKS)
        expect(c, inp, ":")
        v = c.q(take(c, inp, "value"))
        return Ok(mk_tup((k, v)))
    go(mem, member, pre=[("sym", "closure")] * (mem.nargs - 1))

    def collected(c, S, coll):
        xs = c.cell(EMPTY)
        c.each(S, lambda c, x: c.push(xs, c.q(x)))
        return c.get(xs) if coll == "Vec" else T.mextend(("mempty",), c.get(xs))

    def value(c, inp):
        skip(c, inp, BLANKS)
        h = head_(c, inp)
        if h is None:
            return ERR

        def several(what, first, close, coll):
            bump(c, inp)
            skip(c, inp, BLANKS)
            r = ("ev", "items", ("op", "separated", Str(what), T.Char(ord(",")), T.Char(ord(close)), Str(repr(klass(first + BLANKS))), c.get(inp)))
            c.set(inp, mk_tup((("ev", "rest_after", r), ("ev", "pos_after", r))))
            v = collected(c, ("op", "results", r), coll)
            expect(c, inp, close)
            return v
        for w, v in (("null", mk_adt(VALUE, C.variant(VALUE, "Null"), ())), ("true", C.wrap(VALUE, "Bool", TRUE)), ("false", C.wrap(VALUE, "Bool", FALSE))):
            if c.branch(eq_int(h, Int(ord(w[0])))):
                expect(c, inp, w)
                break
        else:
            if c.branch(eq_int(h, Int(ord('"')))):
                v = C.wrap(VALUE, "String", c.q(take(c, inp, "string")))
            elif c.branch(eq_int(h, Int(ord("[")))):
                v = C.wrap(VALUE, "Array", several("value", "tfn0123456789-\"[{", "]", "Vec"))
            elif c.branch(eq_int(h, Int(ord("{")))):
                v = C.wrap(VALUE, "Object", several(KEYED, '"', "}", "HashMap"))
            elif any_branch(c, h, [("0", "9"), ("-", "-")]):
                s = c.cell(seq_lit(h))
                bump(c, inp)

                def read(c):
                    h = head_(c, inp)
                    if h is None or not any_branch(c, h, [("0", "9"), ("+", "+"), ("-", "-"), (".", "."), ("e", "e"), ("E", "E")]):
                        r = ("op", "number read", c.get(s), Str("f64"))
                        if c.case(r, RES) == 1:
                            raise Return(ERR)
                        skip(c, inp, BLANKS)
                        raise Return(Ok(C.wrap(VALUE, "Number", fld(r, RES, 0, 0))))
                    c.push(s, h)
                    bump(c, inp)
                c.loop(read)
            else:
                return ERR
        skip(c, inp, BLANKS)
        return Ok(v)
    go(take_b, value, [take_b.canon])


# ------------------------------------------------------------ writing documents
def json_write(C, rule="example.json.write"):
    """a document is written as a document that reads as the same"""
    import rules_errors as RE
    F = RE.F
    esc = [b for b in C.p.bodies.values() if b.canon.startswith(JS) and "::nibble::" not in b.canon and "::lalr" not in b.canon and b.nargs == 2
           and b.locals[1].k == "ref" and b.locals[1].t.k == "prim" and b.locals[1].t.g == "str"]
    if len(esc) != 1:
        raise Missing("the writer of strings")
    esc = esc[0]
    base = RE.fmt_prims()

    def tidy(h):
        """constants are text, and text is in one piece"""
        def g(I, st, fn, args, atys, dty):
            k = next((k for k, a in enumerate(args) if a[0] == "ref" and I.deref_root(st, a)[0] == F), None)
            if k is None:
                return h(I, st, fn, args, atys, dty)
            st0 = st.copy()
            st0.mem[F] = EMPTY
            out = []
            r = h(I, st0, fn, args, atys, dty)
            if r is None:
                return None
            for s, v in r:
                s = s.copy()
                s.mem[F] = concat(st.mem[F], plain(s.mem[F]))
                out.append((s, v))
            return out
        return g

    def plain(v):
        ps = []
        for p in parts(v):
            if p[0] == "e" and p[1][:2] == ("shown", "display") and not p[1][3] and p[1][2][0] in ("str", "char"):
                w = p[1][2]
                p = ("e", ("txt", w[1] if w[0] == "str" else chr(w[1])))
            if p[0] == "e" and p[1][:2] == ("shown", "display") and p[1][2] in (TRUE, FALSE) and not p[1][3]:
                p = ("e", ("txt", p[1][2][0]))
            if p[0] == "e" and p[1][0] == "shown" and p[1][3] and len(p[1][3]) == 3:
                how = p[1][3]
                flags, width, prec = how
                if width is not None and prec is None:
                    p = ("e", p[1][:3] + (("zeros" if flags >> 24 & 1 else "blanks", width),))
            if ps and p[0] == "e" and p[1][0] == "txt" and ps[-1][0] == "e" and ps[-1][1][0] == "txt":
                ps[-1] = ("e", ("txt", ps[-1][1][1] + p[1][1]))
            elif not (p[0] == "e" and p[1] == ("txt", "")):
                ps.append(p)
        return mk_seq(tuple(ps))
    P = {k: tidy(v) for k, v in base.items()}

    def quoted(I, st, fn, args, atys, dty):
        st = st.copy()
        st.mem[F] = concat(st.mem[F], seq_lit(("shown", "quoted", I.content(st, args[0]), ())))
        return [(st, Ok(UNIT))]
    Q = dict(P)
    Q[esc.canon] = quoted

    def entries(I, st, fn, args, atys, dty):
        """in some order"""
        t_ = strip(fn.args[0]) if fn.args else None
        if fn.trait and not (t_ is not None and t_.k == "adt" and t_.path.endswith("::HashMap")):
            return None
        return [(st, ("it", "seq", ("op", "entries", I.content(st, args[0]))))]
    Q["std::collections::hash::map::HashMap::iter"] = Q["core::iter::traits::collect::IntoIterator::into_iter"] = entries

    def put(c, *xs):
        st = c.st.copy()
        for x in xs:
            st.mem[F] = concat(st.mem[F], seq_lit(("txt", x) if isinstance(x, str) else x))
        c.st = st

    def view(I, st, v):
        st = st.copy()
        st.mem[F] = plain(st.mem[F])
        return [(st, v)]

    def sh(v, kind="display", how=()):
        return ("shown", kind, v, how)

    ESCAPED = {v: k for k, v in ESCAPES.items() if k != "/"}

    def string(c, s, f):
        put(c, '"')

        def step(c, h):
            for v, k in ESCAPED.items():
                if c.branch(eq_int(h, Int(ord(v)))):
                    put(c, "\\" + k)
                    return
            if any_branch(c, h, [("\x20", "\U0010ffff")]):
                put(c, sh(h))
                return
            put(c, "\\u", HEX4(h))
        c.each(s, step)
        put(c, '"')
        return Ok(UNIT)

    def HEX4(h):
        return ("shown", "upper_hex", h, ("zeros", 4))
    C.check(rule, esc, P, None, string, args=[("sym", "text"), ("ref", F, ())], mems={F: EMPTY}, roots=[F], view=view)

    b = C.method(RE.DISPLAY, VALUE, "fmt")

    def document(shape):
        def spec(c, v, f):
            v = c.get(v) if v[0] == "ref" else v
            k = C.p.adts[VALUE]["variants"][c.case(v, VALUE)]["name"]
            if k == "Null":
                put(c, "null")
            elif k in ("Bool", "Number"):
                put(c, sh(fld(v, VALUE, C.variant(VALUE, k), 0)))
            elif k == "String":
                put(c, sh(fld(v, VALUE, C.variant(VALUE, k), 0), "quoted"))
            else:
                S = fld(v, VALUE, C.variant(VALUE, k), 0)
                one = (lambda c, e: put(c, sh(e))) if k == "Array" else (lambda c, e: put(c, sh(fld(e, "()", 0, 0), "quoted"), " : ", sh(fld(e, "()", 0, 1))))
                S = S if k == "Array" else ("op", "entries", S)
                put(c, "[" if k == "Array" else "{")
                shape[k](c, S, one)
                put(c, "]" if k == "Array" else "}")
            return Ok(UNIT)
        return spec

    def back(c, S, one):
        if c.nonempty(S):

            def step(c, e):
                one(c, e)
                put(c, ", ")
            c.each(T.dropr(S), step)
            one(c, T.last(S))

    def front(c, S, one):
        """the first one last: in no order anyway"""
        if c.nonempty(S):
            def step(c, e):
                one(c, e)
                put(c, ", ")
            c.each(drop(S, 1), step)
            one(c, nth(S, Int(0)))

    def sepped(c, S, one):
        """the separator goes with what follows it"""
        if c.nonempty(S):
            def step(c, e):
                put(c, ", ")
                one(c, e)
            one(c, nth(S, Int(0)))
            c.each(drop(S, 1), step)

    def flagged(c, S, one):
        """the same, the first one told by a flag"""
        first = c.cell(TRUE)

        def step(c, e):
            if not c.branch(c.get(first)):
                put(c, ", ")
            c.set(first, FALSE)
            one(c, e)
        c.each(S, step)

    def numbered(c, S, one):
        """the same, the first one told by its number"""
        def step(c, e):
            if c.branch(le(Int(1), fld(e, "()", 0, 0))):
                put(c, ", ")
            one(c, fld(e, "()", 0, 1))
        c.each(S, step, it=("it", "enum", ("it", "seq", S), Int(0)))
    for i, var in enumerate(C.p.adts[VALUE]["variants"]):
        k = var["name"]
        shapes = [document({k: g}) for g in {"Array": (back, sepped, flagged, numbered), "Object": (front, back, sepped, flagged, numbered)}.get(k, (None,))]
        C.check(rule, b, Q, None, shapes[0], alts=shapes[1:], args=[("sym", "value"), ("ref", F, ())], mems={F: EMPTY}, roots=[F], view=view,
                facts=[(("isv", ("sym", "value"), VALUE, i), True)])


# ------------------------------------------------------------ the grammars themselves
def grammar(C, rule, pre, digits, want, parts_):
    """the characters of each class, and the fixed texts of each construct in order"""
    t = Doc(C, pre)
    import rules_errors as RE

    def report(path, got, exp):
        b = C.p.method(RE.DISPLAY, path, "fmt")
        C.record(rule, path, "ok" if got == exp else "violation", "" if got == exp else "made of %s, expected %s" % (got, exp), loc=b.loc if b is not None else "")
    for name, find, exp in want:
        path = find(t)
        got = RA.alphabet(C, path)
        if got is None:
            raise Missing("the characters of " + name)
        report(path, sorted(got), sorted(exp))
    ds = [p for p in C.p.adts if p.startswith(pre) and stem(p) == "Digit"]
    report(ds[0] if ds else pre, sorted("".join(sorted(RA.alphabet(C, p) or ["?"])) for p in ds), digits)
    for name, fields, exp in parts_:
        path = t.named(name, *fields)
        vs = C.p.adts[path]["variants"]
        if len(vs) != 1:
            raise Missing(path)
        fs = [adt(f["ty"]) for f in vs[0]["fields"]]
        got = [literal_text(C, p) for p in fs if p and p.startswith(pre) and stem(p) == "Lit"] if fs else [literal_text(C, path)]
        report(path, got, exp)


def ops_of(t, name):
    L = t.field(("sym", "x"), t.named(name, "opt"), "opt")[1]
    if L not in t.comps:
        raise Missing("the operators of " + name)
    return adt(t.comps[L][0])


def arith_grammar(C, rule="example.arith.grammar"):
    def blank(t):
        T_ = t.named("Ast")
        return adt([f["ty"] for i, p, k in [whole(t, C, None, rule, None, T_)] for f in C.p.adts[p]["variants"][0]["fields"]][0])
    grammar(C, rule, AR + "nibble::", ["0123456789"],
            [("operators of sums", lambda t: ops_of(t, "Arith"), "+-"),
             ("operators of products", lambda t: ops_of(t, "Prod"), "*/"), ("blanks before", blank, " ")],
            [("Neg", ["number"], ["-"]), ("Parens", ["expr"], ["(", ")"])])


def json_grammar(C, rule="example.json.grammar"):
    printable = [chr(n) for n in range(32, 127) if chr(n) not in '"\\']
    grammar(C, rule, JS + "nibble::", ["0123456789", "123456789"],
            [("hexadecimal digits", lambda t: t.named("Hex"), HEX), ("plain characters", lambda t: t.named("Literal"), printable),
             ("escapes", lambda t: t.named("Ascii"), ESCAPES), ("blanks", lambda t: t.named("WsChar"), BLANKS)],
            [("String", ["star"], ['"', '"']), ("Object", ["opt"], ["{", "}"]), ("Array", ["opt"], ["[", "]"]), ("Member", ["key", "value"], [":"]),
             ("Unicode", ["hex"], ["u"]), ("True", [], ["true"]), ("False", [], ["false"]), ("Null", [], ["null"]), ("Negative", ["unsigned_number"], ["-"])])
