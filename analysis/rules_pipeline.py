"""The programs: which passes run, in which order, and what comes of a failure."""
from base import *
from spec import Outcome
import models

W = ("A", "world")
CCTX = "chomp::nibble::convert::Context"
TCTX = TY + "context::Context"
TINF = TY + "infer::TypeInfer"
BE = "chomp::lower::RustBackend"
IO = {"read": ("alloc::io::read::Read::read_to_string", "std::io::Read::read_to_string", "std::io::read_to_string"),
      "eprint": ("std::io::stdio::_eprint",), "print": ("std::io::stdio::_print",),
      "fmt": ("core::io::write::Write::write_fmt", "std::io::Write::write_fmt"),
      "all": ("core::io::write::Write::write_all", "std::io::Write::write_all"),
      "flush": ("core::io::write::Write::flush", "std::io::Write::flush")}
GOAL = ("sym", "grammar")
HANDLES = {"stdin", "stdout", "stderr"}


def effect(st, *e):
    st = st.copy()
    st.mem[W] = concat(st.mem[W], seq_lit(e))
    return st


def shown(v):
    """the one value a text shows, when it shows it in full and nothing else but a line end"""
    if v[0] in ("fmt", "text"):
        ps = [p for p in parts(v[1]) if not (p[0] == "e" and p[1][0] == "txt" and not p[1][1].strip())]
        if len(ps) == 1 and ps[0][0] == "e" and ps[0][1][0] == "shown" and ps[0][1][1] == "display":
            return ps[0][1][2]
    if v[0] == "op" and v[1] in ("bytes", "to_string"):
        return shown(v[2]) if v[1] == "bytes" else v[2]
    return ("text", v)


def handle(I, st, v):
    while v[0] == "ref":
        v = I.read_loc(st, v[1], v[2])
    while v[0] == "op" and v[1] in ("lock", "by_ref"):
        v = v[2]
    return v


def write(I, st, h, what):
    """what is written, and whether that worked"""
    h = handle(I, st, h)
    if h == ("op", "stderr"):
        return [(effect(st, "err", shown(what)), Ok(UNIT))]
    r = ("op", "written", shown(what))
    return [(effect(s, "out", shown(what)) if k == 0 else s, r) for s, k in I.fork_variant(st, r, RES)]


def io_prims():
    P = {}
    for n in HANDLES:
        P["std::io::stdio::" + n] = lambda I, st, fn, args, atys, dty, n=n: [(st, ("op", n))]
        for t in ("Stdin", "Stdout", "Stderr"):
            P["std::io::stdio::%s::lock" % t] = lambda I, st, fn, args, atys, dty: [(st, args[0] if args[0][0] != "ref" else I.read_loc(st, args[0][1], args[0][2]))]

    def read(I, st, fn, args, atys, dty):
        if len(args) != 2 or args[1][0] != "ref":
            return None
        st = st.copy()
        I.write_loc(st, args[1][1], args[1][2], ("op", "input"))
        return [(st, ("op", "read"))]
    for p in IO["read"][:2]:
        P[p] = read
    for p in IO["eprint"]:
        P[p] = lambda I, st, fn, args, atys, dty: [(effect(st, "err", shown(args[0])), UNIT)]

    def pr(I, st, fn, args, atys, dty):
        return [(s, UNIT if I.fork_variant(s, r, RES)[0][1] == 0 else models.DIVERGE) for s, r in write(I, st, ("op", "stdout"), args[0])]
    for p in IO["print"]:
        P[p] = pr
    for p in IO["fmt"] + IO["all"]:
        P[p] = lambda I, st, fn, args, atys, dty: write(I, st, args[0], args[1] if args[1][0] != "ref" else I.content(st, args[1]))

    def flush(I, st, fn, args, atys, dty):
        """what was put out may still be on its way; only then is it known to have arrived"""
        if handle(I, st, args[0]) == ("op", "stderr"):
            return [(st, Ok(UNIT))]
        r = ("op", "flushed")
        return [(effect(s, "sent") if k == 0 else s, r) for s, k in I.fork_variant(st, r, RES)]
    for p in IO["flush"]:
        P[p] = flush
    P["std::process::exit"] = lambda I, st, fn, args, atys, dty: [(effect(st, "exit", status(args[0])), models.DIVERGE)]
    return P


def status(v):
    n = v[1] if v[0] == "aff" and not v[2] else None
    return ("unk", "status", v) if n is None else ("tup", ()) if n == 0 else ("failure",)


def passes(C):
    C.fn(BE + "::new_type_name")

    def gen(I, st, fn, args, atys, dty):
        r, p = I.deref_root(st, args[1])
        b = I.read_loc(st, r, p)
        t = I.content(st, args[0])
        st = st.copy()
        I.write_loc(st, r, p, ("op", "generated", t, b))
        return [(st, ("op", "gen", t, b))]

    def parse(I, st, fn, args, atys, dty):
        t = fn.args[-1]
        return [(st, ("op", "parse", ty_name(t), I.content(st, args[0])))]

    def runtime(I, st, fn, args, atys, dty):
        t = fn.args[-1]
        return [(st, ("op", "parse", ty_name(t), I.content(st, args[0])))]

    def taken(I, st, fn, args, atys, dty):
        return [(st, ("op", "parse_prefix", I.content(st, args[0])))]

    def fold(I, st, fn, args, atys, dty):
        return [(st, ("op", "fold", I.content(st, args[0]), I.content(st, args[1])))]

    def convert(I, st, fn, args, atys, dty):
        return [(st, ("op", "convert", I.content(st, args[0]), I.content(st, args[1])))]

    def emit(I, st, fn, args, atys, dty):
        return [(st, ("op", "emit", I.content(st, args[0]), args[1], args[-1]))]
    P = {CH + "visit::Visitable::fold": fold, "chomp::nibble::convert::Convert::convert": convert, CH + "typed::lower::GenerateCode::gen": gen,
         CH + "typed::lower::Backend::emit_code": emit, "syn::parse_str": parse, "syn::parse": parse, "syn::parse2": parse, "syn::parse_macro_input::parse": parse,
         "chewed::parse::Parser::parse": runtime, "chewed::parse::Parse::parse_str": runtime,
         "chewed::parse::Parser::take": taken, "chewed::parse::Parse::take_str": taken,
         "chewed::parse::IterWrapper::new": lambda I, st, fn, args, atys, dty: [(st, chars(I.content(st, args[0])))],
         "core::convert::From::from": to_syn, "core::convert::Into::into": to_syn}
    for n in ("into_compile_error", "to_compile_error"):
        P["syn::error::Error::" + n] = lambda I, st, fn, args, atys, dty: [(st, ("op", "into_compile_error", I.content(st, args[0])))]
    P.update(io_prims())
    return P


def chars(v):
    """an iterator over the characters of a text reads that text"""
    return v[2] if v[:2] == ("it", "seq") else v


def ty_name(t):
    while t.k == "ref":
        t = t.t
    n = t.path if t.k == "adt" else t.g
    return ("sym", "grammar" if n.startswith(("autonibble::", "chomp::nibble::")) else n)


def to_syn(I, st, fn, args, atys, dty):
    """conversions of errors to compiler errors are judged elsewhere; conversions between token types change nothing"""
    ts = [x.path for x in fn.args if x.k == "adt"]
    if "alloc::boxed::Box" in ts and "dyn" in str(fn.args):
        return [(st, I.content(st, args[0]))]
    if any(x.endswith("syn::error::Error") for x in ts):
        return [(st, ("op", "synerror", I.content(st, args[0])))]
    if all(x.split("::")[0] in ("proc_macro", "proc_macro2") for x in ts) and ts:
        return [(st, args[0])]
    return None


def run(C, c, parsed):
    """the passes after parsing; ends with the code, or the first error"""
    conv = ("op", "convert", c.q(parsed), C.build(CCTX, bindings=EMPTY))
    red = ("op", "fold", c.q(conv), C.build(AST + "substitute::Reduce"))
    typed = ("op", "fold", c.q(red), C.build(TINF, context=c.call(C.fn(TCTX + "::new"))))
    t = c.q(typed)
    b = c.call(C.method("core::default::Default", BE, "default"))
    return ("op", "emit", ("op", "generated", t, b), NONE, ("op", "gen", t, b))


def command(C, name, parsed, rule="program"):
    """reads its input, runs the passes, prints the code; the first failure is shown instead, and the status says so"""
    def ref(c):
        s = ("ref", W, ())
        try:
            c.q(("op", "read"))
            code = run(C, c, parsed)
            c.q(("op", "written", code))
            c.push(s, ("out", code))
            c.q(("op", "flushed"))
            c.push(s, ("sent",))
        except Return as r:
            e = fld(r.v, RES, 1, 0)
            c.push(s, ("err", e))
            c.push(s, ("exit", ("failure",)))
        return UNIT
    C.check(rule, C.fn(name), passes(C), [], ref, mems={W: EMPTY}, roots=[W], panics_ok=True, outs=ends)


def ends(code):
    """a path that ends the program on purpose is a result, not a panic"""
    return [Outcome("ret", o.st, UNIT) if ended(o.st.mem[W]) else o for o in code]


def ended(w):
    ps = parts(w)
    return bool(ps) and ps[-1][0] == "e" and ps[-1][1][:1] == ("exit",)


def chomp_cli(C):
    command(C, "chomp::main", ("op", "parse", GOAL, ("op", "input")))


def autonibble_cli(C):
    command(C, "autonibble::main", ("op", "parse", GOAL, ("op", "input")))


def macro(C, rule="program.macro"):
    """the macro runs the same passes on the tokens it is given; a failure becomes a compiler error"""
    def ref(c, item):
        try:
            return run(C, c, ("op", "parse", GOAL, item))
        except Return as r:
            e = fld(r.v, RES, 1, 0)
            return ("op", "into_compile_error", e if e == fld(("op", "parse", GOAL, item), RES, 1, 0) else ("op", "synerror", e))
    C.check(rule, C.fn("chomp_macro::nibble"), passes(C), ["item"], ref)
