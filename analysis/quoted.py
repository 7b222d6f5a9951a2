"""Meaning of generated code: a small evaluator over token streams with
repetitions, and the reader of reference templates."""
import re
import terms as T
from terms import *
from absint import Undecided

UNIT_ = ("tup", ())


# ------------------------------------------------------------------ templates
TOK = re.compile(r"""\s+|(?P<life>'[a-z_]+\b(?!'))|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<str>"(?:[^"\\]|\\.)*")|(?P<num>[0-9]+)|(?P<p>::|->|=>|==|\|\||&&|\.\.|[-+*/%^!|&=<>@.,;:\#?(){}\[\]])""")


def lex(s):
    i = 0
    out = []
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise ValueError("template: " + s[i:i + 20])
        i = m.end()
        if m.lastgroup:
            out.append(m.group(m.lastgroup))
    return out


def quote(s, **holes):
    """reference token stream; #x splices a token or stream, #(S: ...)sep* is
    written as a hole holding a stream"""
    toks = lex(s)
    pos = [0]
    close = {"(": ")", "{": "}", "[": "]"}

    def go(end):
        out = []
        while pos[0] < len(toks):
            t = toks[pos[0]]
            pos[0] += 1
            if t == end:
                return mk_seq(tuple(out))
            if t in close:
                out.append(("e", ("grp", t, go(close[t]))))
            elif t == "#" and toks[pos[0]] in holes:
                h = holes[toks[pos[0]]]
                pos[0] += 1
                if h[0] in ("tid", "tlit", "tk", "grp"):
                    out.append(("e", h))
                else:
                    out.extend(parts(h))
            else:
                out.append(("e", ("tk", t)))
        if end is not None:
            raise ValueError("template: unclosed")
        return mk_seq(tuple(out))
    return go(None)


def rep(S, f, sep=None):
    """one copy of f(element, index) per element of S"""
    E, X = ("elem", -7, S), ("idx", -7, S)
    body = parts(f(E, X))
    if sep is not None:
        body = (("e", ("sep", seq_lit(("tk", sep)))),) + body
    return mk_seq((T.mk_map(S, E, X, body),))


# ------------------------------------------------------------------ reading
class Rep:
    def __init__(self, S, E, X, nodes, sep):
        self.S, self.E, self.X, self.nodes, self.sep = S, E, X, nodes, sep

    def wrap(self, *body):
        return (T.mk_map(self.S, self.E, self.X, tuple(body)),)


class Read:
    def __init__(self):
        self.n = 100

    def nodes(self, stream):
        out = []
        for p in parts(stream):
            if p[0] == "e":
                t = p[1]
                if t[0] == "grp":
                    out.append(("grp", t[1], self.nodes(t[2])))
                elif t[0] in ("tk", "tid", "tlit"):
                    out.append(t)
                else:
                    raise Undecided("token %s" % (t[0],))
            elif p[0] == "map":
                self.n += 1
                S = p[1]
                E, X = ("elem", -self.n, S), ("idx", -self.n, S)
                body = T.open_map(p, E, X)
                sep = None
                if body and body[0][0] == "e" and body[0][1][0] == "sep":
                    sep = self.nodes(body[0][1][1])
                    body = body[1:]
                out.append(Rep(S, E, X, self.nodes(mk_seq(body)), sep))
            elif p[0] == "all":
                out.append(("toks", p[1]))
            else:
                raise Undecided("tokens under a condition")
        return out


def is_tk(n, s):
    return isinstance(n, tuple) and n[0] == "tk" and n[1] == s


class Cursor:
    def __init__(self, nodes):
        self.ns = nodes
        self.i = 0

    def peek(self, k=0):
        return self.ns[self.i + k] if self.i + k < len(self.ns) else None

    def next(self):
        n = self.peek()
        self.i += 1
        return n

    def at(self, *ss):
        return all(is_tk(self.peek(k), s) for k, s in enumerate(ss))

    def eat(self, s):
        if self.at(s):
            self.i += 1
            return True
        return False

    def want(self, s):
        if not self.eat(s):
            raise Undecided("generated code: expected %s, found %s" % (s, str(self.peek())[:80]))

    def grp(self, d):
        n = self.peek()
        if isinstance(n, tuple) and n[0] == "grp" and n[1] == d:
            self.i += 1
            return n[2]
        return None

    def done(self):
        return self.i >= len(self.ns)


def term(nodes):
    """token nodes as a comparable term"""
    out = []
    for n in nodes:
        if isinstance(n, Rep):
            body = parts(term(n.nodes))
            if n.sep:
                body = (("e", ("sep", term(n.sep))),) + body
            out += n.wrap(*body)
        elif n[0] == "grp":
            out.append(("e", ("grp", n[1], term(n[2]))))
        elif n[0] == "toks":
            out.append(("all", n[1]))
        else:
            out.append(("e", n))
    return mk_seq(tuple(out))


def split(nodes, sep):
    """comma-separated pieces: [('one', nodes) | ('rep', Rep, inner nodes)]"""
    out, cur = [], []
    for n in nodes:
        if is_tk(n, sep):
            if cur:
                out.append(("one", cur))
            cur = []
        elif isinstance(n, Rep):
            inner = n.nodes
            ok = n.sep is not None and len(n.sep) == 1 and is_tk(n.sep[0], sep)
            if inner and is_tk(inner[-1], sep):
                inner, ok = inner[:-1], True
            if cur or not ok:
                raise Undecided("repetition inside a list element")
            out.append(("rep", n, inner))
        else:
            cur.append(n)
    if cur:
        out.append(("one", cur))
    return out


PATHS = {"Display": "Display", "Parse": "Parse", "From": "From"}


def items(stream):
    """descriptor of a stream of items: a sequence of item descriptions"""
    R = Read()
    c = Cursor(R.nodes(stream))
    out = []
    attrs = []
    while not c.done():
        n = c.peek()
        if isinstance(n, Rep):
            raise Undecided("repeated items")
        if n[0] == "toks":
            c.next()
            out.append(("all", n[1]))
            continue
        if c.eat("#"):
            g = c.grp("[")
            if g is None:
                raise Undecided("attribute")
            if is_tk(g[0], "doc"):
                continue
            if is_tk(g[0], "derive"):
                names = sorted(x[1] for x in g[1][2] if x[0] == "tk" and x[1] != ",")
                attrs.append(("derive",) + tuple(names))
            else:
                attrs.append(("attr", term(g)))
            continue
        a = tuple(sorted(attrs))
        attrs = []
        if c.at("use"):
            u = []
            while not c.at(";"):
                u.append(c.next())
            c.next()
            out.append(("e", ("use", term(u))))
            continue
        vis = c.eat("pub")
        if c.eat("struct"):
            name = c.next()
            fs = c.grp("{")
            kind = "named"
            if fs is None:
                fs = c.grp("(")
                kind = "tuple"
                c.want(";") if fs is not None or True else None
                if fs is None:
                    fs, kind = [], "unit"
            out.append(("e", ("struct", name, vis, a, kind, fields(fs, kind))))
        elif c.eat("enum"):
            name = c.next()
            vs = c.grp("{")
            if vs is None:
                raise Undecided("enum")
            out.append(("e", ("enum", name, vis, a, variants(vs))))
        elif c.eat("type"):
            name = c.next()
            c.want("=")
            t = []
            while not c.at(";"):
                if c.done():
                    raise Undecided("type alias")
                t.append(c.next())
            c.next()
            out.append(("e", ("alias", name, vis, term(t))))
        elif c.eat("impl"):
            tr = []
            while not c.at("for"):
                if c.done():
                    raise Undecided("impl")
                tr.append(c.next())
            c.next()
            ty = []
            while not (isinstance(c.peek(), tuple) and c.peek()[0] == "grp" and c.peek()[1] == "{"):
                if c.done():
                    raise Undecided("impl")
                ty.append(c.next())
            body = c.grp("{")
            out.append(("e", impl(tr, ty, body)))
        else:
            raise Undecided("item %s" % str(n)[:60])
    return mk_seq(tuple(out))


def fields(nodes, kind):
    out = []

    def one(ns):
        d = Cursor(ns)
        while d.eat("#"):
            d.grp("[")
        vis = d.eat("pub")
        nm = ("sym", "-")
        if kind == "named":
            nm = d.next()
            d.want(":")
        return ("field", vis, nm, term(d.ns[d.i:]))
    for x in split(nodes, ","):
        if x[0] == "one":
            out.append(("e", one(x[1])))
        else:
            out += x[1].wrap(("e", one(x[2])))
    return mk_seq(tuple(out))


def variants(nodes):
    out = []

    def one(ns):
        d = Cursor(ns)
        nm = d.next()
        g = d.grp("(")
        if not d.done():
            raise Undecided("enum variant")
        return ("variant", nm, term(g) if g is not None else ("sym", "-"))
    for x in split(nodes, ","):
        if x[0] == "one":
            out.append(("e", one(x[1])))
        else:
            out += x[1].wrap(("e", one(x[2])))
    return mk_seq(tuple(out))


def trait_name(tr):
    """last segment of the trait path, and its arguments"""
    i = next((k for k, n in enumerate(tr) if is_tk(n, "<")), len(tr))
    head = tr[i - 1]
    if not (isinstance(head, tuple) and head[0] == "tk"):
        raise Undecided("trait path")
    args = tr[i + 1:-1] if i < len(tr) else []
    return head[1], term(args)


def impl(tr, ty, body):
    name, args = trait_name(tr)
    c = Cursor(body)
    fns = []
    while not c.done():
        while c.eat("#"):
            c.grp("[")
        if not c.at("fn"):
            raise Undecided("impl item")
        c.next()
        fname = c.next()
        depth = 0
        while True:
            n = c.peek()
            if n is None:
                raise Undecided("function")
            if is_tk(n, "<"):
                depth += 1
            elif is_tk(n, ">"):
                depth -= 1
            elif depth == 0 and isinstance(n, tuple) and n[0] == "grp" and n[1] == "(":
                break
            c.next()
        params = c.grp("(")
        while not (isinstance(c.peek(), tuple) and c.peek()[0] == "grp" and c.peek()[1] == "{"):
            if c.done():
                raise Undecided("function")
            c.next()
        b = c.grp("{")
        env = {}
        for k, x in enumerate(split(params, ",")):
            if x[0] != "one":
                raise Undecided("parameters")
            ns = [n for n in x[1] if not is_tk(n, "&") and not is_tk(n, "mut")]
            key = ns[0]
            env[key] = ("sym", "self") if is_tk(key, "self") else ("sym", "p%d" % k)
        ev = Eval(env, name, ty)
        try:
            r = ev.block(b)
            eff = mk_seq(tuple(ev.eff))
        except Undecided as x:
            # only what looks at this impl is affected
            r, eff = ("unk", "generated code: " + str(x)), EMPTY
        fns.append(("e", ("fn", fname, eff, r)))
    return ("impl", name, args, term(ty), mk_seq(tuple(fns)))


class Eval:
    """effects (in order) and result of a generated function body"""

    def __init__(self, env, trait="", ty=()):
        self.env = dict(env)
        self.eff = []
        self.bind = []
        self.reps = []
        self.site = 0
        self.ty = list(ty)

    # effects are tagged by the site that makes them, so that a value says which one it came from
    def fx(self, *what):
        self.eff.append(("e", what))

    def sub(self):
        e = Eval(self.env)
        e.bind = list(self.bind)
        e.reps = list(self.reps)
        e.site = self.site + 1000
        e.ty = self.ty
        return e

    def block(self, nodes):
        c = Cursor(nodes)
        val = UNIT_
        while not c.done():
            n = c.peek()
            if isinstance(n, Rep):
                c.next()
                self.rep_stmt(n)
                val = UNIT_
                continue
            if c.eat("let"):
                c.eat("mut")
                key = c.next()
                if c.eat(":"):
                    while not c.at("="):
                        if c.done():
                            raise Undecided("let")
                        c.next()
                c.want("=")
                v = self.expr(c)
                c.want(";")
                if not (isinstance(key, tuple) and key[0] in ("tk", "tid")):
                    raise Undecided("let pattern")
                self.env[key] = v
                val = UNIT_
                continue
            if c.eat("return"):
                v = self.expr(c)
                c.eat(";")
                if not c.done():
                    raise Undecided("early return")
                return v
            val = self.expr(c)
            if c.eat(";"):
                val = UNIT_
            elif not c.done():
                raise Undecided("generated code: %s" % str(c.peek())[:80])
        return val

    def rep_stmt(self, R):
        if R.sep:
            raise Undecided("separated statements")
        s = Eval(self.env)
        s.bind = list(self.bind)
        s.reps = self.reps + [R]
        s.site = self.site
        s.ty = self.ty
        outer = set(self.env)
        s.block(R.nodes)
        self.site = s.site + 1
        self.eff += R.wrap(*s.eff)
        for k, v in s.env.items():
            if k not in outer:
                self.bind.append((R, k, v))

    def lookup(self, key):
        if key in self.env:
            return self.env[key]
        for R, k, v in reversed(self.bind):
            for Q in self.reps:
                if Q.S == R.S:
                    m = {R.E: Q.E, R.X: Q.X}
                    if subst(k, m) == key:
                        return subst(v, m)
        return None

    def expr(self, c, nostruct=False):
        v = self.primary(c, nostruct)
        while True:
            if c.eat("?"):
                v = self.unwrap(v)
            elif c.at("as") and is_tk(c.peek(1), "char"):
                c.next()
                c.next()
            elif c.at("."):
                c.next()
                n = c.next()
                g = c.grp("(")
                if g is not None:
                    if not (isinstance(n, tuple) and n[0] == "tk"):
                        raise Undecided("method name")
                    v = self.method(v, n[1], g)
                else:
                    v = ("get", v, n)
            else:
                return v

    def unwrap(self, v):
        if v[0] == "res":
            return v[1]
        if v[0] == "opt":
            return v[1]
        raise Undecided("? on %s" % v[0])

    def args(self, nodes):
        out = []
        for x in split(nodes, ","):
            if x[0] == "one":
                c = Cursor(x[1])
                v = self.expr(c)
                if not c.done():
                    raise Undecided("argument")
                out.append(("e", v))
            else:
                R = x[1]
                s = self.inner(R)
                c = Cursor(x[2])
                v = s.expr(c)
                if not c.done() or s.eff:
                    raise Undecided("repeated argument")
                out += R.wrap(("e", v))
        return mk_seq(tuple(out))

    def inner(self, R):
        s = Eval(self.env)
        s.bind = list(self.bind)
        s.reps = self.reps + [R]
        s.site = self.site
        s.ty = self.ty
        return s

    def arg1(self, nodes):
        a = self.args(nodes)
        ps = parts(a)
        if len(ps) != 1 or ps[0][0] != "e":
            raise Undecided("one argument expected")
        return ps[0][1]

    def method(self, v, m, g):
        P = v == ("sym", "p0")
        if P and m == "take" and not g:
            self.site += 1
            self.fx("take")
            X = tuple(R.X for R in self.reps)
            return ("res", ("took", Int(self.site)) + X)
        if P and m == "consume_str":
            a = self.arg1(g)
            self.fx("consume", text(a))
            return ("res", UNIT_)
        if P and m == "next" and not g:
            self.site += 1
            self.fx("next")
            return ("opt", ("char", Int(self.site)) + tuple(R.X for R in self.reps))
        if P and m in ("take_chars_from", "skip_while"):
            self.fx(m, self.args(g))
            return ("res", ("chars", m))
        if m in ("unwrap", "expect") and v[0] == "opt":
            return v[1]
        if m in DIFFERENT:
            return ("op", m, text(v), self.args(g))
        if P and m == "peek" and not g:
            return ("peeked",)
        if P and m == "pos" and not g:
            return ("pos",)
        if m == "fmt":
            a = self.arg1(g)
            if a != ("sym", "p1"):
                raise Undecided("fmt")
            self.fx("show", v)
            return ("res", UNIT_)
        if v == ("sym", "p1") and m in ("write_str", "write_char"):
            a = self.arg1(g)
            self.fx("show", text(a))
            return ("res", UNIT_)
        if v == ("sym", "p1") and m == "write_fmt":
            raise Undecided("write_fmt")
        if m in ("map", "and_then") and v[0] == "res":
            f = self.closure(g)
            r = f(v[1])
            if m == "map":
                return ("res", r)
            return r
        if m in ("into",) and not g:
            return ("into", v)
        if m in ("as_ref", "as_str", "clone", "borrow", "to_string", "to_owned", "deref", "as_mut") and not g:
            return v
        raise Undecided("method %s" % m)

    def closure(self, g):
        c = Cursor(g)
        c.eat("move")
        if c.eat("||"):
            return lambda v: self.tail(c, {})
        if c.eat("|"):
            pat = []
            while not c.at("|"):
                if c.done():
                    raise Undecided("closure")
                pat.append(c.next())
            c.next()
            rest = c.ns[c.i:]

            def f(v):
                env = {}
                if len(pat) == 1 and isinstance(pat[0], tuple) and pat[0][0] in ("tk", "tid") and pat[0][1] != "_":
                    env[pat[0]] = v
                return self.tail(Cursor(rest), env)
            return f
        # a path used as a function
        p = self.path(c)
        if not c.done():
            raise Undecided("closure")
        return lambda v: self.apply(p, seq_lit(v))

    def tail(self, c, env):
        old = dict(self.env)
        self.env.update(env)
        v = self.expr(c)
        if not c.done():
            raise Undecided("closure body")
        self.env = old
        return v

    def path(self, c):
        segs = []
        c.eat("::")
        while True:
            n = c.next()
            if not (isinstance(n, tuple) and n[0] in ("tk", "tid", "toks")):
                raise Undecided("path %s" % str(n)[:60])
            segs.append(n)
            if not c.eat("::"):
                return tuple(segs)

    def selfname(self, seg):
        """the implementing type, however it is spelt"""
        return is_tk(seg, "Self") or (len(self.ty) == 1 and seg == self.ty[0])

    def apply(self, p, args):
        last = p[-1]
        if len(p) == 1 or (last[0] == "tk" and last[1] in ("Ok", "Err", "Some")):
            if is_tk(last, "Ok"):
                return ("res", parts(args)[0][1])
            if is_tk(last, "Err"):
                return ("err", parts(args)[0][1])
            if is_tk(last, "Some"):
                return ("some", parts(args)[0][1])
            if self.selfname(last):
                return ("mk", ("self",), args)
        if len(p) == 2 and self.selfname(p[0]):
            return ("mk", p[1], args)
        if p[-2:] == (("tk", "char"), ("tk", "from")) or p[-2:] == (("tk", "Into"), ("tk", "into")):
            return ("into", parts(args)[0][1])
        ps = parts(args)
        if last[0] == "tk" and len(p) >= 2 and p[-2][0] in ("tk", "tid", "toks") and all(x[0] == "e" for x in ps):
            xs = [x[1] for x in ps]
            if last[1] == "fmt" and is_tk(p[-2], "Display") and len(xs) == 2 and xs[1] == ("sym", "p1"):
                self.fx("show", text(xs[0]))
                return ("res", UNIT_)
            if last[1] in ("take", "consume_str", "peek", "pos", "next") and is_tk(p[-2], "Parse" if last[1] == "take" and not is_tk(p[-2], "Parser") else "Parser") \
                    and xs[:1] == [("sym", "p0")] and len(xs) <= 2:
                if last[1] == "consume_str":
                    self.fx("consume", text(xs[1]))
                    return ("res", UNIT_)
                return self.method(xs[0], last[1], [])
        if len(p) >= 2 and is_tk(p[-2], "TakeError"):
            return ("mkerr", p[-1], args)
        raise Undecided("call of %s" % (p,).__str__()[:80])

    def primary(self, c, nostruct=False):
        n = c.peek()
        if n is None:
            raise Undecided("expression")
        if isinstance(n, Rep):
            raise Undecided("repeated expression")
        if n[0] == "grp":
            c.next()
            if n[1] == "(":
                if not n[2]:
                    return UNIT_
                return self.arg1(n[2])
            if n[1] == "{":
                return self.sub_block(n[2])
            return ("array", self.args(n[2]))
        if n[0] == "tlit":
            c.next()
            return ("lit", n[1])
        if c.eat("&"):
            c.eat("mut")
            return self.expr(c, nostruct)
        if c.eat("*"):
            return self.expr(c, nostruct)
        if c.eat("match"):
            return self.match(c)
        if n[0] == "tk" and n[1][:1] == '"':
            c.next()
            return ("lit", Str(unescape(n[1])))
        if n[0] == "tk" and n[1][:1].isdigit():
            c.next()
            return ("lit", ("num", n[1]))
        v = None
        if not is_tk(c.peek(1), "::"):
            v = self.lookup(n)
        if v is not None:
            c.next()
            return v
        p = self.path(c)
        if c.at("!"):
            c.next()
            g = c.grp("(")
            if g is None or not is_tk(p[-1], "write"):
                raise Undecided("macro")
            return self.write(g)
        g = c.grp("(")
        if g is not None:
            return self.apply(p, self.args(g))
        g = None if nostruct else c.grp("{")
        if g is not None:
            if len(p) == 1 and self.selfname(p[0]):
                return ("mk", ("self",), self.struct_fields(g))
            raise Undecided("struct literal")
        if len(p) == 1 and self.selfname(p[0]):
            return ("mk", ("self",), EMPTY)
        if len(p) == 2 and self.selfname(p[0]):
            return ("mk", p[1], EMPTY)
        if len(p) == 1 and is_tk(p[0], "None"):
            return ("none",)
        raise Undecided("name %s" % (p,).__str__()[:80])

    def sub_block(self, nodes):
        old = dict(self.env)
        v = self.block(nodes)
        self.env = old
        return v

    def struct_fields(self, nodes):
        out = []

        def one(ev, ns):
            d = Cursor(ns)
            nm = d.next()
            if d.done():
                v = ev.lookup(nm)
                if v is None:
                    raise Undecided("field shorthand")
                return ("fv", nm, v)
            d.want(":")
            v = ev.expr(d)
            if not d.done():
                raise Undecided("field value")
            return ("fv", nm, v)
        for x in split(nodes, ","):
            if x[0] == "one":
                out.append(("e", one(self, x[1])))
            else:
                s = self.inner(x[1])
                out += x[1].wrap(("e", one(s, x[2])))
                self.site = s.site + 1
                if s.eff:
                    # takes made while building: in order of the fields
                    self.eff += x[1].wrap(*s.eff)
        return mk_seq(tuple(out))

    def write(self, g):
        xs = split(g, ",")
        if any(x[0] != "one" for x in xs) or len(xs) < 2:
            raise Undecided("write!")
        vals = []
        for x in xs:
            c = Cursor(x[1])
            vals.append(self.expr(c))
            if not c.done():
                raise Undecided("write!")
        if vals[0] != ("sym", "p1") or vals[1][0] != "lit" or vals[1][1][0] != "str":
            raise Undecided("write!")
        f = vals[1][1][1]
        rest = vals[2:]
        i = 0
        for piece in re.findall(r"\{\{|\}\}|\{\}|\{[^}]*\}|[^{}]+", f):
            if piece == "{}":
                if i >= len(rest):
                    raise Undecided("write! arguments")
                self.fx("show", text(rest[i]))
                i += 1
            elif piece in ("{{", "}}"):
                self.fx("show", ("lit", Str(piece[0])))
            elif piece[0] == "{":
                arg, _, opt = piece[1:-1].partition(":")
                if arg == "":
                    if i >= len(rest):
                        raise Undecided("write! arguments")
                    v = rest[i]
                    i += 1
                elif arg.isdigit() and int(arg) < len(rest):
                    v = rest[int(arg)]
                else:
                    v = self.lookup(("tk", arg))
                    if v is None:
                        raise Undecided("write! arguments")
                if opt == "":
                    self.fx("show", text(v))
                elif "$" in opt or opt.startswith("#?"):
                    raise Undecided("write! options")
                else:
                    self.fx("show", ("op", "fmt", opt, text(v)))
            else:
                self.fx("show", ("lit", Str(piece)))
        return ("res", UNIT_)

    def match(self, c):
        scrut = self.expr(c, True)
        g = c.grp("{")
        if g is None:
            raise Undecided("match")
        out = []
        # arms: cut at top-level commas that follow a body
        d = Cursor(g)
        while not d.done():
            n = d.peek()
            if isinstance(n, Rep):
                d.next()
                s = self.sub()
                s.reps = self.reps + [n]
                dd = Cursor(n.nodes)
                a = s.arm(dd, scrut)
                if not dd.done():
                    raise Undecided("match arm")
                out += n.wrap(("e", a))
                d.eat(",")
                continue
            s = self.sub()
            out.append(("e", s.arm(d, scrut)))
        return ("match", scrut, mk_seq(tuple(out)))

    def arm(self, d, scrut):
        pats = []
        while True:
            d.eat("|")
            pats.append(self.pat(d, scrut))
            if d.at("=>"):
                break
            if d.at("if"):
                raise Undecided("match guard")
            if not d.at("|") and not isinstance(d.peek(), (Rep,)) and not (isinstance(d.peek(), tuple) and d.peek()[0] == "toks"):
                raise Undecided("pattern")
        d.want("=>")
        v = self.expr(d)
        d.eat(",")
        return ("arm", mk_seq(tuple(p for q in pats for p in q)), mk_seq(tuple(self.eff)), v)

    def pat(self, d, scrut):
        """parts of the pattern's alternatives"""
        n = d.peek()
        if isinstance(n, Rep):
            d.next()
            if not n.sep or len(n.sep) != 1 or not is_tk(n.sep[0], "|"):
                raise Undecided("pattern repetition")
            s = self.inner(n)
            dd = Cursor(n.nodes)
            p = s.pat(dd, scrut)
            if not dd.done():
                raise Undecided("pattern")
            return n.wrap(*p)
        if isinstance(n, tuple) and n[0] == "toks":
            raise Undecided("opaque pattern")
        if d.eat("_"):
            return (("e", ("any",)),)
        if n[0] == "tlit":
            d.next()
            return (("e", ("plit", n[1])),)
        p = self.path(d)
        g = d.grp("(")
        if g is None:
            if len(p) == 1 and is_tk(p[0], "None"):
                return (("e", ("pnone",)),)
            if len(p) == 1 and p[0][0] == "tk":
                self.env[p[0]] = scrut
                return (("e", ("any",)),)
            raise Undecided("pattern")
        if is_tk(p[-1], "Some"):
            if len(g) == 1 and g[0][0] == "tlit":
                return (("e", ("psome", g[0][1])),)
            if len(g) == 1 and g[0][0] == "tk":
                if g[0][1] != "_":
                    self.env[g[0]] = ("cur",)
                return (("e", ("psomeany",)),)
            # Some(#(#cs)|*)
            dd = Cursor(g)
            out = []
            while not dd.done():
                dd.eat("|")
                for q in self.pat(dd, ("cur",)):
                    out.append(q)
            return tuple(subst(tuple(out), {}) and rewrap(out))
        if len(p) == 2 and self.selfname(p[0]):
            if len(g) == 1 and g[0][0] in ("tk", "tid"):
                if not is_tk(g[0], "_"):
                    self.env[g[0]] = ("payload",)
                return (("e", ("pvar", p[1])),)
        if len(p) == 2 and p[0][0] == "tid":
            if len(g) == 1 and g[0][0] in ("tk", "tid"):
                if not is_tk(g[0], "_"):
                    self.env[g[0]] = ("payload",)
                return (("e", ("pvar", p[0], p[1])),)
        raise Undecided("pattern")


# functions of a text (or a shown value) that are not the identity
DIFFERENT = set("""escape_debug escape_default escape_unicode trim trim_start trim_end trim_matches trim_start_matches trim_end_matches
to_uppercase to_lowercase to_ascii_uppercase to_ascii_lowercase repeat len is_empty""".split())


def rewrap(ps):
    out = []
    for p in ps:
        if p[0] == "e" and p[1][0] == "plit":
            out.append(("e", ("psome", p[1][1])))
        elif p[0] == "map":
            out.append((p[0], p[1], tuple(rewrap(p[2]))))
        else:
            raise Undecided("pattern")
    return out


def text(a):
    """a literal and the string it denotes are shown alike"""
    if a[0] == "lit" and a[1][0] == "op" and a[1][1] == "litstr":
        return ("lit", a[1][2])
    return a


def unescape(s):
    return s[1:-1].encode().decode("unicode_escape")
