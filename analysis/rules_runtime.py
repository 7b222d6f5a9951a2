"""The runtime of the generated parsers: what a parser consumes, what it
leaves, what it reports, and where it says it is.

A parser is abstracted to the pair (characters not yet consumed, position);
the three required methods of the trait are its contract, every provided
method and every user of it is analysed against that contract, and the only
implementation of it is shown to refine it."""
from base import *
from spec import Infeasible, PanicHere, compare
import models

CW = "chewed::parse::"
PARSER = CW + "Parser"
PARSE = CW + "Parse"
ITERW = CW + "IterWrapper"
SEPITER = CW + "Iter"
TAKE = "chewed::error::TakeError"
PERR = "chewed::error::ParseError"
LC = "chewed::position::LineCol"
NEXT = "core::iter::traits::iterator::Iterator::next"

REST, POS = ("sym", "rest"), ("sym", "pos")
IN = ("tup", (REST, POS))


def rest_of(v):
    return fld(v, "()", 0, 0)


def pos_of(v):
    return fld(v, "()", 0, 1)


def adv(v):
    """the input after its first character"""
    s = rest_of(v)
    return mk_tup((drop(s, 1), ("ev", "advance", pos_of(v), nth(s, Int(0)))))


def contract():
    """Parser::next / peek / pos over (rest, position)"""
    def at(I, st, a):
        r, p = I.deref_root(st, a)
        return r, p, I.read_loc(st, r, p)

    def nxt(I, st, fn, args, atys, dty):
        r, p, v = at(I, st, args[0])
        if v[0] == "adt":
            return None
        out = []
        for s, e in I.branch(st, emptiness(rest_of(v))):
            if e:
                out.append((s, NONE))
            else:
                s = s.copy()
                I.write_loc(s, r, p, adv(v))
                out.append((s, Some(nth(rest_of(v), Int(0)))))
        return out

    def peek(I, st, fn, args, atys, dty):
        r, p, v = at(I, st, args[0])
        if v[0] == "adt":
            return None
        return [(s, NONE if e else Some(nth(rest_of(v), Int(0)))) for s, e in I.branch(st, emptiness(rest_of(v)))]

    def pos(I, st, fn, args, atys, dty):
        r, p, v = at(I, st, args[0])
        if v[0] == "adt":
            return None
        return [(st, pos_of(v))]
    return {PARSER + "::next": nxt, PARSER + "::peek": peek, PARSER + "::pos": pos}


def parse_prims():
    """contract + `P::take` / closures as opaque parsers of their own"""
    pr = contract()

    def take(I, st, fn, args, atys, dty):
        return opaque_take(I, st, ("ty", tyname(fn)), args[0])
    pr[PARSE + "::take"] = take

    def ptake(I, st, fn, args, atys, dty):
        r, p = I.deref_root(st, args[0])
        if fn.res is not None or I.read_loc(st, r, p) != IN:
            return None
        return opaque_take(I, st, ("ty", fn.args[1].g if len(fn.args) > 1 else "?"), args[0])
    pr[PARSER + "::take"] = ptake
    return pr


def tyname(fn):
    t = fn.args[0] if fn.args else None
    return t.g if t is not None else "?"


def opaque_take(I, st, who, ref):
    r, p = I.deref_root(st, ref)
    v = I.read_loc(st, r, p)
    st = st.copy()
    e = ("ev", "take", who, v)
    I.write_loc(st, r, p, mk_tup((("ev", "rest_after", e), ("ev", "pos_after", e))))
    return [(st, e)]


def get_in(c, ref):
    return c.get(ref)


def head_(c, ref):
    """None at the end of the input, else the next character"""
    v = c.get(ref)
    if c.branch(emptiness(rest_of(v))):
        return None
    return nth(rest_of(v), Int(0))


def bump(c, ref):
    c.set(ref, adv(c.get(ref)))


def terr(C, v, *xs):
    return Err(mk_adt(TAKE, C.variant(TAKE, v), tuple(xs)))


def err_view(fields):
    """keep `fields` of a TakeError's payload"""
    def view(I, st, v):
        out = []
        for s, k in I.fork_variant(st, v, RES):
            x = fld(v, RES, k, 0)
            if k == 1 and x[0] == "adt" and x[1] == TAKE:
                x = mk_adt(TAKE, x[2], tuple(y if i in fields else ANY for i, y in enumerate(x[3])))
            out.append((s, Ok(x) if k == 0 else Err(x)))
        return out
    return view


def so_far(I, st, v):
    """of the text an error carries: the part of the literal that was already
    read, whichever way it is kept, is written ("before", literal)"""
    def before(t):
        cut = t[:2] == ("op", "bslice")
        S, ph = None, t
        if cut:
            ends = t[3][3] if t[3][0] == "adt" and t[3][1].endswith("::RangeTo") else ()
            S, ph = t[2], ends[0] if len(ends) == 1 else ("none",)
        info = I.loops.get(ph[1]) if ph[0] == "phi" else None
        if info is None or ph not in info.phis or cut and info.S != S:
            return None
        entry, vals = info.phis[ph]
        elem = ("elem", info.id, info.S)
        if cut:
            def width(s, d):
                return d[:2] == ("op", "len_utf8") and (d[2] == elem or s.F.decide(eq_int(d[2], elem)) is True)
            return ("before", S) if entry == Int(0) and all(width(s, sub(x, ph)) for (s, _, _), x in zip(info.backs, vals)) else None
        for (s, _, _), x in zip(info.backs, vals):
            if x == T.concat(ph, seq_lit(elem)):
                continue
            q = parts(x)
            last = q[-1] if q else ("none",)
            if last[0] != "e" or mk_seq(q[:-1]) != ph or s.F.decide(eq_int(last[1], elem)) is not True:
                return None
        return ("before", info.S) if entry == EMPTY else None
    if v[0] == "text":
        def piece(p):
            if p[0] == "e" and p[1][:2] == ("shown", "display") and not p[1][3]:
                x = p[1][2]
                return ("all", x) if x[:2] == ("op", "bslice") or x[0] == "phi" else ("e", x)
            return p
        v = mk_seq(tuple(piece(p) for p in parts(v[1])))
    out = []
    for p in parts(v):
        if p[0] == "all":
            b = before(p[1])
            out.append(("all", b if b is not None else ("unk", "text so far", p[1]) if contains_loop(p[1]) else p[1]))
        else:
            out.append(p)
    return mk_seq(tuple(out))


def contains_loop(t):
    return isinstance(t, tuple) and (t[:1] == ("phi",) or any(contains_loop(x) for x in t))


def full_errors(I, st, v):
    out = []
    for s, k in I.fork_variant(st, v, RES):
        x = fld(v, RES, k, 0)
        if k == 1 and x[0] == "adt" and x[1] == TAKE and len(x[3]) == 3:
            x = mk_adt(TAKE, x[2], (x[3][0], so_far(I, s, x[3][1]) if x[3][1][0] in ("seq", "phi", "op", "text") else x[3][1], x[3][2]))
        out.append((s, Ok(x) if k == 0 else Err(x)))
    return out


def raised(C, rule="errors.raised"):
    """errors carry where they occurred, what was there, and what was expected"""
    consume_str(C, rule, full=True)
    take_chars(C, rule, full=True)
    separated(C, rule, full=True)


def consume_str(C, rule="runtime.consume", fields=(), full=False):
    def spec(c, slf, s):
        def step(c, ch):
            h = head_(c, slf)
            if h is None:
                raise Return(terr(C, "EndOfStream", pos_of(c.get(slf))))
            if not c.branch(eq_int(h, ch)):
                raise Return(terr(C, "BadString", pos_of(c.get(slf)), mk_seq((("all", ("before", s)), ("e", h))), s))
            bump(c, slf)
        c.each(s, step)
        return Ok(UNIT)
    C.check(rule, C.fn(PARSER + "::consume_str"), contract(), ["self", "s"], spec, mems={("A", "self"): IN},
            view=full_errors if full else err_view(fields), facts=[])


def boundary(C, rule="runtime.boundary"):
    """a string is only cut at the byte length of characters it was seen to start with"""
    b = C.fn(PARSER + "::consume_str")
    name = fname(b)
    I = C.interp(contract())
    try:
        a, m = I.sym_args(b, ["self", "s"])
        st = St()
        st.mem.update(m)
        st.mem[("A", "self")] = IN
        outs = I.call_body(st, b, a)
    except Undecided as e:
        C.record(rule, name, "undecided", str(e), loc=b.loc)
        return
    C.done(I)
    found = []
    seen = set()

    def scan(t):
        if not isinstance(t, tuple) or t in seen:
            return
        seen.add(t)
        if len(t) >= 4 and t[0] == "op" and t[1] == "bslice":
            found.append(t)
        for x in t:
            scan(x)
    for o in outs:
        if isinstance(o.val, tuple):
            scan(o.val)
        for v in o.st.mem.values():
            scan(v)
    for t in found:
        S, r = t[2], t[3]
        ends = [x for x in r[3]] if r[0] == "adt" else []
        ok, why = None, "cut at %s" % T.show(r)
        if len(ends) == 1 and ends[0][0] in ("phi", "aff"):
            lin = dict(to_aff(ends[0])[2]) if ends[0][0] == "aff" else {ends[0]: 1}
            ph = [x for x in lin if x[0] == "phi"]
            if len(ph) == 1 and len(lin) == 1 and ends[0] == ph[0]:
                info = I.loops[ph[0][1]]
                entry, vals = info.phis[ph[0]]
                elem = ("elem", info.id, info.S)
                d = {sub(v, ph[0]) for v in vals}
                if entry == Int(0) and info.S == S and d == {("op", "len_utf8", elem)}:
                    ok = True
                elif all(is_int(x) for x in d):
                    ok = False
                    why = "the string is cut after %s bytes per character" % "/".join(str(x[1]) for x in d)
        C.record(rule, name, "ok" if ok else "violation" if ok is False else "undecided", why, loc=b.loc)
    if not found:
        C.record(rule, name, "ok", "no cut", loc=b.loc)


def skip_while(C, rule="runtime.skip"):
    def spec(c, slf, f):
        def step(c):
            h = head_(c, slf)
            if h is None or not c.branch(boolean(c.ev("callf", f, h))):
                raise Return(UNIT)
            bump(c, slf)
        c.loop(step)
    C.check(rule, C.fn(PARSER + "::skip_while"), contract(), ["self", "f"], spec, mems={("A", "self"): IN}, panics_ok=False,
            roots=[("A", "self")])


def boolean(v):
    return v


def take_chars(C, rule="runtime.take_chars", full=False):
    def spec(c, slf, set_, buffer):
        buf = c.get(buffer)

        def step(c, slot):
            h = head_(c, slf)
            here = pos_of(c.get(slf))
            if h is None:
                raise Return(terr(C, "EndOfStream", here))
            bump(c, slf)
            if c.branch(("in", h, set_)):
                c.set(slot, h)
            else:
                raise Return(terr(C, "BadBranch", here, h, set_))
        r, p = c.I.deref_root(c.st, buffer)
        c.each(None, step, ("it", "mutseq", r, p, buf))
        return Ok(UNIT)

    C.check(rule, C.fn(PARSER + "::take_chars_from"), contract(), ["self", "set", "buffer"], spec, mems={("A", "self"): IN},
            view=full_errors if full else err_view((1, 2)))


def parse_all(C, rule="runtime.whole"):
    """parse = take, then nothing may be left"""
    pr = parse_prims()
    root = ("A", "in")

    def spec(c, inp, who="Self"):
        x = c.cell(inp)
        r = c.pick(opaque_take(c.I, c.st, ("ty", who), x))
        if c.case(r, RES) == 1:
            raise Return(Err(mk_adt(PERR, C.variant(PERR, "TakeError"), (fld(r, RES, 1, 0),))))
        v = c.get(x)
        if c.branch(emptiness(rest_of(v))):
            return Ok(fld(r, RES, 0, 0))
        return Err(mk_adt(PERR, C.variant(PERR, "InputContinues"), (pos_of(v),)))
    C.check(rule, C.fn(PARSE + "::parse"), pr, ["in"], spec, args=[IN], panics_ok=False)
    C.check(rule, C.fn(PARSER + "::take"), pr, ["self"], lambda c, s: c.pick(opaque_take(c.I, c.st, ("ty", "P"), s)),
            mems={("A", "self"): IN})
    ev = {PARSE + "::parse": opaque("parse"), PARSE + "::take": opaque("take"),
          PARSER + "::parse": opaque("parse"), PARSER + "::take": opaque("take")}
    C.check(rule, C.fn(PARSER + "::parse"), {k: v for k, v in ev.items() if k.startswith(PARSE + "::")}, ["self"], lambda c, s: c.ev("parse", s))
    # starting on a string: a fresh wrapper around its characters
    w = C.fn(ITERW + "::new")
    for f, e in (("parse_str", "parse"), ("take_str", "take")):
        C.check(rule, C.fn(PARSE + "::" + f), ev, ["s"],
                lambda c, s, e=e: c.ev(e, c.call(w, ("it", "seq", s))))
    # boxes and the empty parser
    BOX = "alloc::boxed::Box"

    def boxed(c, s, e):
        r = c.pick(opaque_take(c.I, c.st, ("ty", "T"), s))
        return Ok(fld(r, RES, 0, 0)) if c.case(r, RES) == 0 else Err(fld(r, RES, 1, 0))
    C.check(rule, C.method(PARSE, BOX, "take"), pr, ["self"], lambda c, s: boxed(c, s, "take"), mems={("A", "self"): IN}, view=res_view)
    try:
        b = C.p.method(PARSE, BOX, "parse")
        if b is not None:
            ev2 = dict(pr)
            ev2.update({PARSE + "::parse": opaque("parse"), PARSER + "::parse": opaque("parse")})
            C.check(rule, b, ev2, ["s"], lambda c, s: c.ev("parse", s), args=[IN], view=res_view, alts=[lambda c, s: spec(c, s, "T")])
    except Missing:
        pass
    EPS = CW + "Epsilon"
    C.check(rule, C.method(PARSE, EPS, "take"), pr, ["self"], lambda c, s: Ok(mk_adt(EPS, 0, ())), mems={("A", "self"): IN})


def res_view(I, st, v):
    out = []
    for s, k in I.fork_variant(st, v, RES):
        x = fld(v, RES, k, 0)
        out.append((s, Ok(x) if k == 0 else Err(x)))
    return out


NL = (0x0A, 0x0B, 0x0C, 0x85, 0x2028, 0x2029)


def chars_next(I, st, fn, args, atys, dty):
    if fn.res is not None:
        return None
    r, p = I.deref_root(st, args[0])
    v = I.read_loc(st, r, p)
    if v[0] == "it":
        return None
    out = []
    for s, e in I.branch(st, emptiness(v)):
        if e:
            out.append((s, NONE))
        else:
            s = s.copy()
            I.write_loc(s, r, p, drop(v, 1))
            out.append((s, Some(nth(v, Int(0)))))
    return out


def wrapper(C, rule="runtime.wrapper", posrule="position"):
    """IterWrapper refines the contract; positions"""
    pr = {NEXT: chars_next}
    f = lambda n: C.fidx(ITERW, n)
    pos, nxt, it = (fld(("sym", "self"), ITERW, 0, f(n)) for n in ("pos", "next", "iter"))
    line, col = (fld(pos, LC, 0, C.fidx(LC, n)) for n in ("line", "col"))

    def w(p, n, i):
        return C.build(ITERW, pos=p, next=n, iter=i)

    def lc(l, c):
        return C.build(LC, line=l, col=c)

    def alpha(c, v):
        """the characters a wrapper has not handed out yet"""
        n = C.get(v, ITERW, "next")
        i = C.get(v, ITERW, "iter")
        if c.case(n, OPT) == 1:
            return concat(seq_lit(fld(n, OPT, 1, 0)), i)
        return i

    def alpha_view(I, st, v):
        from spec import enumerate_paths
        outs = []
        for kind, s, x in enumerate_paths(I, st, lambda c: alpha(c, c.st.mem[("A", "self")])):
            s = s.copy()
            m = s.mem[("A", "self")]
            if m[0] == "tup":
                outs.append((s, v))
                continue
            s.mem[("A", "self")] = mk_tup((x, C.get(m, ITERW, "pos")))
            outs.append((s, v))
        return outs
    self0 = w(pos, nxt, it)

    def fin(c, slf, rest, p):
        c.st = c.st.copy()
        c.st.mem[("A", "self")] = mk_tup((rest, p))

    def comp(path):
        return rule if not path or path[0] != "self" or path[1:2] != ("1",) else posrule

    def view(I, st, v):
        m = st.mem[("A", "self")]
        if m[0] == "tup":
            return [(st, v)]
        return alpha_view(I, st, v)

    def peek(c, slf):
        r = alpha(c, self0)
        fin(c, slf, r, lc(line, col))
        if c.branch(emptiness(r)):
            return NONE
        return Some(nth(r, Int(0)))
    P = lambda n: C.method(PARSER, ITERW, n)
    C.check(rule, P("peek"), pr, ["self"], peek, comp, mems={("A", "self"): self0}, view=view, also=(posrule,))

    def nxt_(c, slf):
        r = alpha(c, self0)
        if c.branch(emptiness(r)):
            fin(c, slf, r, lc(line, col))
            return NONE
        h, t = nth(r, Int(0)), drop(r, 1)
        for n in NL:
            if c.branch(eq_int(h, Int(n))):
                fin(c, slf, t, lc(add(line, Int(1)), Int(0)))
                return Some(h)
        if c.branch(eq_int(h, Int(0x0D))):
            if not c.branch(emptiness(t)) and c.branch(eq_int(nth(t, Int(0)), Int(0x0A))):
                fin(c, slf, t, lc(line, add(col, Int(1))))
            else:
                fin(c, slf, t, lc(add(line, Int(1)), Int(0)))
            return Some(h)
        fin(c, slf, t, lc(line, add(col, Int(1))))
        return Some(h)
    C.check(rule, P("next"), pr, ["self"], nxt_, comp, mems={("A", "self"): self0}, view=view, also=(posrule,))
    C.check(posrule, P("pos"), pr, ["self"], lambda c, s: pos)

    def new(c, i):
        return mk_tup((i, lc(Int(1), Int(0))))

    def nview(I, st, v):
        if v[0] == "tup":
            return [(st, v)]
        from spec import enumerate_paths
        return [(s, mk_tup((x, C.get(v, ITERW, "pos")))) for _, s, x in enumerate_paths(I, st, lambda c: alpha(c, v))]
    C.check(rule, C.fn(ITERW + "::new"), pr, ["iter"], new, lambda p: posrule if p[:1] == ("1",) else rule, view=nview)


def fresh_wrapper(C, rule="runtime.wrapper", posrule="position"):
    """what the first characters look like from a fresh wrapper, however it
    keeps its state"""
    P = lambda n: C.method(PARSER, ITERW, n)
    pr = {NEXT: chars_next}

    def lc(l, c):
        return C.build(LC, line=l, col=c)
    root = ("A", "wrapper")
    chars = ("sym", "chars")
    here = ("ref", root, ())

    def fresh(I):
        outs = []
        for o in I.call_body(St(), C.fn(ITERW + "::new"), [chars]):
            if o.kind == "ret":
                s = o.st.copy()
                s.mem[root] = o.val
                outs.append((s, ()))
        return outs

    for ops in (("next", "next"), ("peek", "next", "peek", "next"), ("peek", "peek", "next", "peek")):
        def ideal(c, what):
            r, l, k, out = chars, Int(1), Int(0), []
            for op in ops:
                if c.branch(emptiness(r)):
                    x = NONE
                elif op == "peek":
                    x = Some(nth(r, Int(0)))
                else:
                    h, r = nth(r, Int(0)), drop(r, 1)
                    x = Some(h)
                    if any(c.branch(eq_int(h, Int(n))) for n in NL) or c.branch(eq_int(h, Int(0x0D))) and \
                            (c.branch(emptiness(r)) or not c.branch(eq_int(nth(r, Int(0)), Int(0x0A)))):
                        l, k = add(l, Int(1)), Int(0)
                    else:
                        k = add(k, Int(1))
                out.append(x if what == "value" else lc(l, k))
            return mk_tup(tuple(out))

        def run(I, what):
            states = fresh(I)
            for op in ops:
                nxt = []
                for s, vs in states:
                    for o in I.call_body(s, P(op), [here]):
                        if o.kind != "ret":
                            nxt.append((o.st, o))
                        elif what == "value":
                            nxt.append((o.st, vs + (o.val,)))
                        else:
                            nxt += [(q.st, vs + (q.val,)) for q in I.call_body(o.st, P("pos"), [o.st.mem[root]]) if q.kind == "ret"]
                states = [x for x in nxt if isinstance(x[1], tuple)]
            return [Outcome("ret", s, mk_tup(vs)) for s, vs in states]
        first_steps(C, rule, P("next"), pr, lambda I: run(I, "value"), lambda c: ideal(c, "value"), "after " + ", ".join(ops))
        first_steps(C, posrule, P("next"), pr, lambda I: run(I, "position"), lambda c: ideal(c, "position"), "after " + ", ".join(ops))


def separated(C, rule="runtime.separated", full=False, fresh=False):
    """Iter::next: item, then either the stop character, or a separator that
    is followed by the start of another item (or, when trailing separators are
    allowed, by the stop character)"""
    G = {}
    g = lambda n: G[n] if n in G else fld(("sym", "self"), SEPITER, 0, C.fidx(SEPITER, n))
    a = C.p.adts.get(SEPITER)
    if a is None:
        raise Missing(SEPITER)
    names = [x["name"] for x in a["variants"][0]["fields"]]
    root = ("A", "input")
    ref = ("ref", root, ())
    if not fresh:
        vals = {n: g(n) for n in names}
        vals["iter"] = ref
        self0 = C.build(SEPITER, **vals)
    pr = contract()

    def item(I, st, f, ref_):
        r, p = I.deref_root(st, ref_)
        v = I.read_loc(st, r, p)
        st = st.copy()
        e = ("ev", "item", v)
        I.write_loc(st, r, p, mk_tup((("ev", "rest_after", e), ("ev", "pos_after", e))))
        return [(st, e)]

    def callm(I, st, fn, args, atys, dty):
        a1 = args[1]
        x = a1[1][0] if a1[0] == "tup" else fld(a1, "()", 0, 0)
        f = args[0]
        if f[0] == "ref":
            f = I.read_loc(st, f[1], f[2])
        if f == g("parse") and x[0] == "ref":
            return item(I, st, f, x)
        return None
    pr["core::ops::function::FnMut::call_mut"] = callm

    def spec(c, slf):
        h = head_(c, ref)
        if h is None or c.branch(eq_int(h, g("stop"))):
            return NONE
        r = c.pick(item(c.I, c.st, None, ref))
        if c.case(r, RES) == 1:
            # a failed item is reported; what follows it does not matter
            raise Return(Some(Err(fld(r, RES, 1, 0))))
        ok = Some(Ok(fld(r, RES, 0, 0)))

        def bad(h, *expected):
            here = pos_of(c.get(ref))
            return Some(terr(C, "EndOfStream", here) if h is None else terr(C, "BadBranch", here, h, *expected))
        h = head_(c, ref)
        if h is None:
            return bad(h)
        if c.branch(eq_int(h, g("sep"))):
            bump(c, ref)
            h = head_(c, ref)
            if h is None:
                return bad(h)
            if c.branch(("in", h, g("first"))):
                return ok
            if c.branch(Not(g("strict_sep"))) and c.branch(eq_int(h, g("stop"))):
                return ok
            return bad(h, g("first"))
        if c.branch(eq_int(h, g("stop"))):
            return ok
        return bad(h, g("sep_stop_set"))

    def view(I, st, v):
        out = []
        for s, k in I.fork_variant(st, v, OPT):
            if k == 0:
                out.append((s, NONE))
                continue
            x = fld(v, OPT, 1, 0)
            for s2, k2 in I.fork_variant(s, x, RES):
                if k2 == 1:
                    s2 = s2.copy()
                    s2.mem[root] = ANY
                out.append((s2, Some(Ok(fld(x, RES, 0, 0)) if k2 == 0 else Err(fld(x, RES, 1, 0) if full else ANY))))
        return out
    if not fresh:
        C.check(rule, C.method("core::iter::traits::iterator::Iterator", SEPITER, "next"), pr, ["self"], spec,
                mems={("A", "self"): self0, root: IN}, roots=[root], view=view)
        if full:
            return
        b = C.fn(PARSER + "::iter_strict")

        def mk(c, slf, p, sep, stop, sss, first):
            d = dict(iter=slf, parse=p, strict_sep=TRUE, sep=sep, stop=stop, sep_stop_set=sss, first=first)
            return C.build(SEPITER, **d)
        C.check(rule, b, {}, ["self", "item", "sep", "stop", "set", "first"], mk, roots=[])
        return

    b = C.fn(PARSER + "::iter_strict")
    args = dict(parse=("sym", "item"), sep=("sym", "sep"), stop=("sym", "stop"), sep_stop_set=("sym", "set"), first=("sym", "first"))
    G.update(args, strict_sep=TRUE, iter=ref)
    nx = C.method("core::iter::traits::iterator::Iterator", SEPITER, "next")
    me = ("A", "list")

    def run(I):
        st = St()
        st.mem[root] = IN
        states, done = [], []
        for o in I.call_body(st, b, [ref] + [args[n] for n in ("parse", "sep", "stop", "sep_stop_set", "first")]):
            if o.kind == "ret":
                s = o.st.copy()
                s.mem[me] = o.val
                states.append((s, ()))
        for n in range(2):
            now = []
            for s, vs in states:
                for o in I.call_body(s, nx, [("ref", me, ())]):
                    if o.kind != "ret":
                        continue
                    for s2, v in view(I, o.st, o.val):
                        more = v != NONE and v != Some(Err(ANY))
                        (now if more else done).append((s2, vs + (v,)))
            states = now
        return [Outcome("ret", s, mk_tup(vs) if len(vs) == 2 else mk_tup(vs + (NONE,))) for s, vs in states + done]

    def ideal(c):
        c.st = c.st.copy()
        c.st.mem[root] = IN
        out = []
        for n in range(2):
            try:
                x = spec(c, None)
            except Return as e:
                x = e.v
            if x != NONE and c.case(fld(x, OPT, 1, 0), RES) == 1:
                x = Some(Err(ANY))
            out.append(x)
            if x == NONE or x == Some(Err(ANY)):
                break
        return mk_tup(tuple(out) if len(out) == 2 else tuple(out) + (NONE,))
    first_steps(C, rule, nx, pr, run, ideal, "the first two items")


def fresh_separated(C):
    """the first two items from a fresh iterator, however it keeps its state"""
    separated(C, fresh=True)
