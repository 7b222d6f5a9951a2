"""The self-hosted front end: its syntax tree denotes what the other front
end's does."""
from base import *
import re
import models
from absint import FnRef
import rules_convert as RC
import rules_errors as RE
from models import MODELS, ITER

AU = "autonibble::"
CONVERT, CCTX, CERR, NAME, CONTENT = RC.CONVERT, RC.CCTX, RC.CERR, RC.NAME, RC.CONTENT
ITR = "core::iter::traits::iterator::Iterator"
FROM = "core::convert::From"
CHAR = "char"


def stem(n):
    return re.sub(r"[0-9]+$", "", n.split("::")[-1])


def strip(t):
    while t is not None and (t.k == "ref" or (t.k == "adt" and t.path == "alloc::boxed::Box" and t.args)):
        t = t.t if t.k == "ref" else t.args[0]
    return t


def adt(t):
    t = strip(t)
    return t.path if t is not None and t.k == "adt" else None


def is_char(t):
    t = t.args[0] if t.k == "adt" and t.path == RES and t.args else t
    return t.k == "prim" and t.g == CHAR


class Tree:
    """the types of the syntax tree, by name without the number the code generator adds"""

    def __init__(self, C, prefix=AU):
        self.C, self.p, self.prefix = C, C.p, prefix
        self.conv = {}
        self.lists = {}
        for im in C.p.impls:
            s = adt(im["self_ty"])
            if not s or not s.startswith(prefix):
                continue
            if im.get("trait") == CONVERT:
                self.conv.setdefault(stem(s), []).append(s)
            if im.get("trait") == ITR:
                b = C.p.method(ITR, s, "next")
                if b is not None:
                    self.lists[s] = strip(b.locals[0].args[0])

    def ty(self, name):
        c = self.conv.get(name, [])
        if len(c) != 1:
            raise Missing("the conversion of " + name)
        return c[0]

    def variant(self, path, name):
        k = [i for i, v in enumerate(self.p.adts[path]["variants"]) if stem(v["name"]) == name]
        if len(k) != 1:
            raise Missing("%s::%s" % (path, name))
        return k[0]

    def case(self, c, v, path, *names):
        """the variant's name, which is one of `names`"""
        k = c.case(v, path)
        n = stem(self.p.adts[path]["variants"][k]["name"])
        if n not in names:
            raise Missing("%s::%s" % (path, n))
        return n

    def field(self, v, path, name, variant=0):
        fs = self.p.adts[path]["variants"][variant]["fields"]
        k = [i for i, f in enumerate(fs) if stem(f["name"]) == name or f["name"] == name]
        if len(k) != 1:
            raise Missing("%s.%s" % (path, name))
        return fld(v, path, variant, k[0]), adt(fs[k[0]]["ty"])

    # the elements of a list, first to last: the items that occur in it, in the order of the text
    def reaches(self, path, L, item, seen=None):
        """whether items can occur in it"""
        seen = set() if seen is None else seen
        if path in seen or path not in self.p.adts or not path.startswith(self.prefix):
            return False
        seen.add(path)
        return any(self.leaf(f["ty"], item) or adt(f["ty"]) == L or (adt(f["ty"]) and self.reaches(adt(f["ty"]), L, item, seen))
                   for v in self.p.adts[path]["variants"] for f in v["fields"])

    def leaf(self, ty, item):
        t = strip(ty)
        if not is_char(item):
            return t.k == "adt" and t.path == item.path
        return t.k == "adt" and stem(t.path) == "LiteralChar"

    def items(self, I, st, v, L, ty=None):
        """[(state, sequence)]"""
        item = self.lists[L]
        path = ty or L
        v = I.content(st, v) if v[0] == "ref" else v
        if path == L and st.F.variant(v) is None:
            return [(st, ("op", "items", v))]
        out = []
        for s, k in I.fork_variant(st, v, path):
            acc = [(s, EMPTY)]
            for j, f in enumerate(self.p.adts[path]["variants"][k]["fields"]):
                x = fld(v, path, k, j)
                nxt = []
                for s2, S in acc:
                    if self.leaf(f["ty"], item):
                        e = ("op", "char", x) if is_char(item) else x
                        nxt.append((s2, concat(S, seq_lit(e))))
                    elif adt(f["ty"]) == L or (adt(f["ty"]) and self.reaches(adt(f["ty"]), L, item)):
                        nxt += [(s3, concat(S, R)) for s3, R in self.items(I, s2, x, L, adt(f["ty"]))]
                    else:
                        nxt.append((s2, S))
                acc = nxt
            out += acc
        return out


def prims(C, t):
    P = dict(RC.prims(C, True))

    def convert(I, st, fn, args, atys, dty):
        s = strip(fn.args[0]) if fn.args else None
        if s is not None and s.k == "adt" and s.path in inline:
            return None
        if fn.args and fn.args[0].k == "adt" and fn.args[0].path == "alloc::boxed::Box":
            return I.event(st, "convert", [I.content(st, args[0]), args[1]])
        return I.event(st, "convert", [args[0], args[1]])
    inline = {x for n in ("Fix", "Variable", "Lambda") for x in t.conv.get(n, [])}
    P[CONVERT + "::convert"] = convert
    list_prims(C, t, P)

    def into(k):
        def h(I, st, fn, args, atys, dty):
            t_ = [x for x in fn.args if is_char(x)]
            if t_ and any((adt(x) or "").startswith(AU) for x in fn.args):
                return [(st, ("op", "char", I.content(st, args[0])))]
            return None
        return h
    for n in ("Into::into", "From::from", "TryInto::try_into", "TryFrom::try_from"):
        P["core::convert::" + n] = into(n)
    return P


def list_prims(C, t, P):
    """iterating a list of the tree is iterating its items"""
    def as_list(path):
        m = MODELS[path]

        def h(I, st, fn, args, atys, dty):
            s = fn.args[0] if fn.args else None
            if s is None or s.k != "adt":
                return None
            if s.path not in t.lists and path.endswith("into_iter"):
                b = C.p.method("core::iter::traits::collect::IntoIterator", s.path, "into_iter") if s.path.startswith(t.prefix) else None
                L = adt(b.locals[0]) if b is not None else None
                if L not in t.lists:
                    return None
                return [(s3, ("it", "seq", S)) for o in I.call_body(st, b, args) for s3, S in t.items(I, o.st, o.val, L)]
            if s.path not in t.lists:
                return None
            if args[0][0] == "it" or args[0][0] == "ref" and I.read_loc(st, args[0][1], args[0][2])[0] == "it":
                return m(I, st, FnRef(fn[:4] + (None,) + fn[5:]), args, atys, dty)
            if args[0][0] == "ref":
                return None
            out = []
            for s2, S in t.items(I, st, args[0], s.path):
                if path.endswith("IntoIterator::into_iter"):
                    out.append((s2, ("it", "seq", S)))
                    continue
                out += m(I, s2, fn, [("it", "seq", S)] + list(args[1:]), atys, dty)
            return out
        return h
    for path in MODELS:
        if path.startswith(ITER) or path.endswith("IntoIterator::into_iter") and path not in P:
            P[path] = as_list(path)
    return P


def convert(C, rule="front.convert"):
    t = Tree(C)
    pr = prims(C, t)
    CALL = ("op", "call_site")

    def ne(name, expr):
        return C.build(NE, name=name, expr=expr, span=ANY)

    def view(I, st, v):
        """locations are not known to this front end"""
        o = []
        for s, k in I.fork_variant(st, v, RES):
            x = fld(v, RES, k, 0)
            if k == 0:
                o.append((s, Ok(nospan(C, x))))
            else:
                o.append((s, Err(x)))
        return o

    def go(name, *specs, roots=(("A", "ctx"),)):
        T_ = t.ty(name)
        spec, *alts = [lambda c, x, ctx, s=s: s(c, x, ctx, T_) for s in specs]
        C.check(rule, C.method(CONVERT, T_, "convert"), pr, ["x", "ctx"], spec, view=view, roots=list(roots), alts=alts)

    def cv(c, x, ctx):
        return c.q(c.ev("convert", x, ctx))

    def items(c, v, L):
        return c.pick(t.items(c.I, c.st, v, L))

    def names_of(c, v, path):
        """a list of names is one name and the rest"""
        L = [l for l in t.lists if stem_of_item(t, l, "Ident")]
        if len(L) != 1:
            raise Missing("the list of names")
        return c.pick(t.items(c.I, c.st, mk_adt(L[0], t.variant(L[0], "List"), (v,)), L[0]))

    def op(name, first, each_, mk):
        def spec(c, x, ctx, T_):
            a, _ = t.field(x, T_, first)
            r, L = t.field(x, T_, "opt")
            f = cv(c, a, ctx)
            S = items(c, r, L)
            if not c.nonempty(S):
                return Ok(f)
            return Ok(ne(NONE, mk(f, c.map(S, lambda c, e: each_(cv(c, e, ctx))))))
        go(name, spec)

    def pairs(kind):
        return lambda f, S: C.wrap(EXPR, kind, C.build(AST + kind, first=f, rest=S))

    def pair(e):
        return mk_tup((CALL, e))
    op("Call", "term", lambda e: e, lambda f, S: C.wrap(EXPR, "Call", C.build(AST + "Call", on=f, args=S)))
    op("Cat", "call", pair, pairs("Cat"))
    op("Alt", "labelled", pair, pairs("Alt"))

    def labelled(c, x, ctx, T_):
        v = cv(c, t.field(x, T_, "cat")[0], ctx)
        l, L = t.field(x, T_, "opt")
        lab = NONE
        if t.case(c, l, L, "None", "Label") == "Label":
            y = fld(l, L, t.variant(L, "Label"), 0)
            lab = Some(RC.mk_name(C, ("op", "content", t.field(y, adt(C.p.adts[L]["variants"][t.variant(L, "Label")]["fields"][0]["ty"]), "ident")[0]), "Label"))
        return Ok(ne(merged2(lab, C.get(v, NE, "name")), C.get(v, NE, "expr")))
    go("Labelled", labelled)

    def payload(v, T_, n):
        k = t.variant(T_, n)
        return fld(v, T_, k, 0), adt(C.p.adts[T_]["variants"][k]["fields"][0]["ty"])

    def term(c, x, ctx, T_):
        n = t.case(c, x, T_, "Epsilon", "Literal", "Parens", "Fix", "Variable")
        v, P_ = payload(x, T_, n)
        if n == "Epsilon":
            return Ok(ne(NONE, C.wrap(EXPR, "Epsilon", mk_adt(AST + "Epsilon", 0, ()))))
        if n == "Literal":
            L = [l for l in t.lists if is_char(t.lists[l])]
            if len(L) != 1:
                raise Missing("the characters of a literal")
            w, W_ = t.field(v, P_, "contents")
            S = c.pick(t.items(c.I, c.st, mk_adt(L[0], t.variant(L[0], "Plus"), (w,)), L[0]))
            if t.lists[L[0]].k == "adt":
                S = c.map(S, lambda c, e: c.q(e))
            return Ok(ne(NONE, C.wrap(EXPR, "Literal", S)))
        if n == "Parens":
            return c.ev("convert", t.field(v, P_, "expr")[0], ctx)
        if n == "Fix":
            i = cv(c, t.field(v, P_, "term")[0], ctx)
            return Ok(ne(NONE, C.wrap(EXPR, "Fix", C.build(AST + "Fix", inner=i))))
        nm = RC.mk_name(C, ("op", "content", v), "Variable")
        r = c.call(C.fn(CCTX + "::lookup"), c.get(ctx), nm)
        if c.case(r, OPT) == 0:
            raise Return(Err(mk_adt(CERR, C.variant(CERR, "UndeclaredName"), (nm,))))
        return Ok(ne(Some(nm), C.wrap(EXPR, "Variable", C.build(AST + "Variable", index=fld(r, OPT, 1, 0)))))
    go("Term", term)

    def lam(c, args, body, ctx):
        names = c.map(args, lambda c, a: RC.mk_name(C, ("op", "content", a), "Variable"))
        s0 = c.get(ctx)
        c.set(ctx, C.build(CCTX, bindings=concat(C.get(s0, CCTX, "bindings"), c.map(names, lambda c, n: C.get(n, NAME, "content")))))
        r = c.ev("convert", body, ctx)
        c.set(ctx, s0)
        return ne(NONE, C.wrap(EXPR, "Lambda", C.build(AST + "Lambda", args=names, inner=c.q(r))))

    def expr(c, x, ctx, T_):
        n = t.case(c, x, T_, "Alt", "Lambda")
        v, P_ = payload(x, T_, n)
        if n == "Alt":
            return c.ev("convert", v, ctx)
        return Ok(lam(c, names_of(c, *t.field(v, P_, "names")), t.field(v, P_, "alt")[0], ctx))
    go("Expr", expr)

    def stmt(c, x, ctx, T_):
        n = t.case(c, x, T_, "Let", "Goal")
        v, P_ = payload(x, T_, n)
        e = t.field(v, P_, "expr")[0]
        if n == "Goal":
            return c.ev("convert", e, ctx)
        S = names_of(c, *t.field(v, P_, "names"))
        name, args = T.nth(S, Int(0)), drop(S, 1)
        bound = lam(c, args, e, ctx) if c.nonempty(args) else cv(c, e, ctx)
        nm = RC.mk_name(C, ("op", "content", name), "Let")
        s0 = c.get(ctx)
        c.set(ctx, C.build(CCTX, bindings=concat(C.get(s0, CCTX, "bindings"), seq_lit(C.get(nm, NAME, "content")))))
        body = cv(c, t.field(v, P_, "stmt")[0], ctx)
        return Ok(ne(NONE, C.wrap(EXPR, "Let", C.build(AST + "Let", name=nm, bound=C.build(NE, name=Some(nm), expr=C.get(bound, NE, "expr"), span=ANY), body=body))))
    go("Stmt", stmt, roots=())

    def ast(c, x, ctx, T_):
        cur = c.cell(x)

        def step(c):
            v = c.get(cur)
            if t.case(c, v, T_, "Branch", "Stmt") == "Stmt":
                raise Return(c.ev("convert", payload(v, T_, "Stmt")[0], ctx))
            w, W_ = payload(v, T_, "Branch")
            c.set(cur, t.field(w, W_, "skip")[0])
        c.loop(step)

    def ast_(c, x, ctx, T_):
        if t.case(c, x, T_, "Branch", "Stmt") == "Stmt":
            return c.ev("convert", payload(x, T_, "Stmt")[0], ctx)
        return c.ev("convert", t.field(*payload(x, T_, "Branch"), "skip")[0], ctx)
    go("Ast", ast, ast_, roots=())


def stem_of_item(t, l, name):
    i = t.lists[l]
    return i.k == "adt" and stem(i.path) == name


def nospan(C, v):
    """locations erased, also below"""
    def go(x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == "ev":
            return x
        if x[0] == "adt" and x[1] == NE:
            a = C.p.adts[NE]["variants"][0]["fields"]
            return ("adt", NE, 0, tuple(ANY if a[i]["name"] == "span" else go(y) for i, y in enumerate(x[3])))
        return tuple(go(y) if isinstance(y, tuple) else y for y in x)
    if v[0] == "adt":
        return go(v)
    a = C.p.adts[NE]["variants"][0]["fields"]
    return ("adt", NE, 0, tuple(ANY if f["name"] == "span" else fld(v, NE, 0, i) for i, f in enumerate(a)))


def lists(C, rule="front.lists"):
    """a step of the iteration gives the first item, and the others are left, in order"""
    t = Tree(C)
    S = ("A", "self")
    if not t.lists:
        raise Missing("lists of the syntax tree")
    for L in sorted(t.lists):
        def spec(c, slf, L=L):
            v = c.get(slf)
            k = c.case(v, L)
            n = C.p.adts[L]["variants"][k]["fields"]
            full = mk_adt(L, k, tuple(fld(v, L, k, j) for j in range(len(n))))
            xs = c.pick(t.items(c.I, c.st, full, L))
            if not c.nonempty(xs):
                c.set(slf, EMPTY)
                return NONE
            c.set(slf, drop(xs, 1))
            return Some(T.nth(xs, Int(0)))

        def view(I, st, v, L=L):
            m = st.mem[S]
            if m[0] == "seq" or m[:2] == ("op", "items"):
                return [(st, v)]
            out = []
            for s, xs in t.items(I, st, m, L):
                s = s.copy()
                s.mem[S] = xs
                out.append((s, v))
            return out
        C.check(rule, C.method(ITR, L, "next"), prims(C, t), None, spec, args=[("ref", S, ())], mems={S: ("sym", "list")}, roots=[S], view=view)


# ------------------------------------------------------- characters and names
ESC = {'"': '"', "'": "'", "n": "\n", "r": "\r", "t": "\t", "\\": "\\", "0": "\0"}


def literal_text(C, path):
    """what a value of the type of a literal is written as, or None"""
    b = C.p.method(RE.DISPLAY, path, "fmt")
    if b is None:
        return None
    I = C.interp(RE.fmt_prims())
    st = St()
    st.mem[RE.F] = EMPTY
    o = I.call_body(st, b, [("sym", "self"), ("ref", RE.F, ())])
    if len(o) != 1 or o[0].kind != "ret":
        return None
    v = o[0].st.mem[RE.F]
    ps = parts(v)
    return ps[0][1][1] if len(ps) == 1 and ps[0][0] == "e" and ps[0][1][0] == "txt" else None


def shown(I, st, fn, args, atys, dty):
    return [(st, ("op", "shown", I.content(st, args[0])))]


def format_one(I, st, fn, args, atys, dty):
    """writing one value and nothing else is showing it"""
    v = args[0]
    ps = parts(v[1]) if v[0] == "fmt" else ()
    if len(ps) == 1 and ps[0][0] == "e" and ps[0][1][:2] == ("shown", "display") and not ps[0][1][3]:
        return [(st, ("op", "shown", ps[0][1][2]))]
    return None


TOSTR = "alloc::string::ToString::to_string"
FORMAT = "alloc::fmt::format"


def characters(C, rule="front.char"):
    """an escape stands for the character it names"""
    t = Tree(C)

    def number(I, st, fn, args, atys, dty):
        """digits that the grammar allows are always a number"""
        if args[1] != Int(16):
            return [(st, ("op", "digits of another base", args[0]))]
        return [(st, Ok(spelt(I.content(st, args[0]))))]

    def digit(I, st, fn, args, atys, dty):
        if args[1] != Int(16):
            return [(st, ("op", "digits of another base", args[0]))]
        return [(st, Some(spelt(seq_lit(args[0]))))]

    def spelt(v):
        """the number of some digits: of each of them, where they can be told apart"""
        if v[0] != "seq" or not v[1] or any(p[0] != "e" for p in v[1]):
            return ("op", "number", v)
        n = Int(0)
        for p in v[1]:
            n = add(mul(n, 16), ("op", "number", seq_lit(p[1])))
        return n

    def mul(v, k):
        c, L = T.to_aff(v)
        return T.mk_aff(c * k, tuple((t, n * k) for t, n in L))

    def two(v):
        c, L = T.to_aff(v)
        return len(L) <= 2 and c == 0 and all(t[:2] == ("op", "number") and t[2][0] == "seq" and len(t[2][1]) == 1 and k in (1, 16) for t, k in L)

    def to_char(I, st, fn, args, atys, dty):
        v = I.content(st, args[0])
        if two(v):
            return [(st, Ok(v))]      # two digits, the first of them octal
        if v[:2] == ("op", "number"):
            r = ("op", "scalar", v)
            return [(s, Ok(fld(r, RES, 0, 0)) if k == 0 else Err(fld(r, RES, 1, 0))) for s, k in I.fork_variant(st, r, RES)]
        return nested(I, st, fn, args, atys, dty)

    def nested(I, st, fn, args, atys, dty):
        if any(is_char(x) for x in fn.args) and any(x.k == "prim" and x.s in ("u8", "u32") for x in fn.args):
            v = I.content(st, args[0])
            if two(v):
                return [(st, v)]
        if any(is_char(x) for x in fn.args) and any((adt(x) or "").startswith(AU) for x in fn.args):
            return [(st, ("op", "char", I.content(st, args[0])))]
        return None
    def from_u32(I, st, fn, args, atys, dty):
        rs = to_char(I, st, fn, args, atys, dty)
        return rs and [(s, Some(fld(v, RES, 0, 0)) if k == 0 else NONE) for s0, v in rs for s, k in I.fork_variant(s0, v, RES)]
    P = {TOSTR: shown, FORMAT: format_one, "char::from_u32": from_u32, "core::char::from_u32": from_u32, "core::char::methods::from_u32": from_u32, "u32::from_str_radix": number, "u8::from_str_radix": number, "core::num::from_str_radix": number,
         "char::to_digit": digit, "core::char::methods::to_digit": digit}
    for n in ("Into::into", "From::from"):
        P["core::convert::" + n] = nested
    for n in ("TryInto::try_into", "TryFrom::try_from"):
        P["core::convert::" + n] = to_char

    def conversion(name):
        """the conversion of a construct to a character, and whether it can fail"""
        out = []
        for b in C.p.bodies.values():
            if b.self_ty is None or not is_char(b.self_ty) or not (b.canon.endswith("::from") or b.canon.endswith("::try_from")):
                continue
            a = adt(b.locals[1])
            if a and a.startswith(AU) and stem(a) == name:
                out.append((b, a, b.canon.endswith("::try_from")))
        return out

    def one(name, spec):
        found = conversion(name)
        found = [x for x in found if name != "Unicode" or any(stem(f["name"]) == "up_to" for f in C.p.adts[x[1]]["variants"][0]["fields"])]
        if len(found) != 1:
            raise Missing("the character of " + name)
        b, path, fallible = found[0]
        C.check(rule, b, P, ["x"], lambda c, x: spec(c, x, path, fallible))

    def literal_char(c, x, path, fallible):
        n = t.case(c, x, path, "Literal", "Escape")
        v = fld(x, path, t.variant(path, n), 0)
        return Ok(("op", "char", v)) if fallible and n == "Literal" else ("op", "char", v)
    one("LiteralChar", literal_char)

    def escape(c, x, path, fallible):
        fs = C.p.adts[path]["variants"][0]["fields"]
        k = [i for i, f in enumerate(fs) if adt(f["ty"]) in C.p.adts and {"Ascii", "Oct", "Unicode"} <= {stem(v["name"]) for v in C.p.adts[adt(f["ty"])]["variants"]}]
        if len(k) != 1:
            raise Missing("the kinds of escape")
        K = adt(fs[k[0]]["ty"])
        v = fld(x, path, 0, k[0])
        n = t.case(c, v, K, "Ascii", "Oct", "Unicode")
        y = fld(v, K, t.variant(K, n), 0)
        if n == "Ascii":
            A = adt(C.p.adts[K]["variants"][t.variant(K, n)]["fields"][0]["ty"])
            i = c.case(y, A)
            w = literal_text(C, adt(C.p.adts[A]["variants"][i]["fields"][0]["ty"]))
            if w not in ESC:
                raise Missing("the character of the escape %s" % w)
            r = T.Char(ord(ESC[w]))
        elif n == "Oct":
            r = ("op", "char", y)
        else:
            return ("op", "char", y)
        return Ok(r) if fallible else r
    one("Escape", escape)

    def oct_(c, x, path, fallible):
        v = spelt(seq_lit(("op", "char", t.field(x, path, "oct_digit")[0]), ("op", "char", t.field(x, path, "hex_digit")[0])))
        return Ok(v) if fallible else v
    one("Oct", oct_)

    def unicode(c, x, path, fallible):
        n = ("op", "number", ("op", "shown", t.field(x, path, "up_to")[0]))
        r = ("op", "scalar", n)
        if not fallible:
            return fld(r, RES, 0, 0)
        if c.case(r, RES) == 0:
            return Ok(fld(r, RES, 0, 0))
        return Err(mk_adt(CERR, C.variant(CERR, "InvalidChar"), (n,)))
    one("Unicode", unicode)


def names(C, rule="front.name"):
    """a name is the text it was read from"""
    n = 0

    def view(I, st, v):
        return [(s, text(fld(v, CONTENT, k, 0))) for s, k in I.fork_variant(st, v, CONTENT)]

    def text(x):
        """what one value is shown as, however it is put"""
        if x[0] == "text":
            ps = parts(x[1])
            if len(ps) == 1 and ps[0][0] == "e" and ps[0][1][:2] == ("shown", "display") and not ps[0][1][3]:
                return ("op", "shown", ps[0][1][2])
        return x
    P = {TOSTR: shown, FORMAT: format_one, "proc_macro2::Ident::new": lambda I, st, fn, args, atys, dty: [(st, I.content(st, args[0]))]}
    for b in C.p.bodies.values():
        if b.trait == FROM and b.self_ty is not None and b.self_ty.k == "adt" and b.self_ty.path == CONTENT and (adt(b.locals[1]) or "").startswith(AU):
            n += 1
            C.check(rule, b, P, ["x"], lambda c, x: mk_adt(CONTENT, C.variant(CONTENT, "Spanless"), (("op", "shown", x),)), view=view)
    if not n:
        raise Missing("names of the syntax tree")


def alphabet(C, path, seen=()):
    """the texts of the literals that make up a class of characters"""
    if path in seen or path not in C.p.adts:
        return None
    w = literal_text(C, path) if not any(stem(f["name"]) == "Branch" for f in C.p.adts[path]["variants"]) else None
    if w is not None:
        return [w]
    out = []
    for v in C.p.adts[path]["variants"]:
        if len(v["fields"]) != 1 or not adt(v["fields"][0]["ty"]):
            return None
        r = alphabet(C, adt(v["fields"][0]["ty"]), seen + (path,))
        if r is None:
            return None
        out += r
    return out


DIGITS = "0123456789"
LETTERS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
CLASSES = {
    "OctDigit": "01234567", "HexDigit": DIGITS + "abcdefABCDEF", "PatternWhitespace": "\t\n\x0b\x0c\r \x85\u200e\u200f\u2028\u2029",
    "XidStart": LETTERS, "XidContinue": LETTERS + "_" + DIGITS,
}


def classes(C, rule="front.class"):
    """the classes of characters: digits, blanks, and what names and literals are made of"""
    found = {}
    for path in C.p.adts:
        if path.startswith(AU) and stem(path) in CLASSES and len(C.p.adts[path]["variants"]) > 1:
            found.setdefault(stem(path), []).append(path)
    plain = [adt(f["ty"]) for path in C.p.adts if path.startswith(AU) and stem(path) == "LiteralChar"
             for v in C.p.adts[path]["variants"] if stem(v["name"]) == "Literal" for f in v["fields"]]
    want = dict(CLASSES)
    want["LiteralChar"] = "".join(chr(n) for n in range(32, 127) if chr(n) not in '"\\')
    found["LiteralChar"] = plain
    for name in sorted(want):
        if len(found.get(name, ())) != 1:
            raise Missing("the class of characters " + name)
        path = found[name][0]
        got = alphabet(C, path)
        if got is None:
            raise Missing("the characters of " + name)
        wrong = sorted(set(got) ^ set(want[name]))
        miss, extra = [w for w in wrong if w not in got], [w for w in wrong if w in got]
        text = "; ".join(["%s is missing" % ", ".join(map(repr, miss))] * bool(miss) + ["%s should not be in it" % ", ".join(map(repr, extra))] * bool(extra))
        b = C.p.method(RE.DISPLAY, path, "fmt")
        C.record(rule, path, "violation" if wrong else "ok", text or "%d characters" % len(got), loc=b.loc if b is not None else "")
