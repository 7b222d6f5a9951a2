"""Token streams: quote!, format_ident! and the constructors of tokens.

A token stream is a sequence; its elements are ("tk", text) for identifiers,
keywords and punctuation, ("grp", delimiter, stream), ("tid", identifier),
("tlit", value) and ("sep", stream) for a separator between the elements of
a repetition."""
import terms as T
from terms import *
from models import MODELS, model, cval, cells, strip, PANIC

PRIV = "quote::__private::"
PUNCT = {"add": "+", "add_eq": "+=", "and": "&", "and_and": "&&", "and_eq": "&=", "at": "@", "bang": "!", "caret": "^", "caret_eq": "^=",
         "colon": ":", "colon2": "::", "comma": ",", "div": "/", "div_eq": "/=", "dot": ".", "dot2": "..", "dot3": "...", "dot_dot_eq": "..=",
         "eq": "=", "eq_eq": "==", "ge": ">=", "gt": ">", "le": "<=", "lt": "<", "mul_eq": "*=", "ne": "!=", "or": "|", "or_eq": "|=",
         "or_or": "||", "pound": "#", "question": "?", "rarrow": "->", "larrow": "<-", "rem": "%", "rem_eq": "%=", "fat_arrow": "=>",
         "semi": ";", "shl": "<<", "shl_eq": "<<=", "shr": ">>", "shr_eq": ">>=", "star": "*", "sub": "-", "sub_eq": "-=", "underscore": "_"}
DELIM = ("(", "{", "[", "")
TS = "proc_macro2::TokenStream"


def emit(I, st, ref, *toks):
    st = st.copy()
    r, p, v = cells(I, st, ref)
    if v[0] != "seq" and v[0] != "phi" and v[0] not in ("fld", "op", "sym", "ev", "nth", "elem"):
        v = v
    I.write_loc(st, r, p, concat(v, mk_seq(toks)))
    return [(st, UNIT)]


def _p(text):
    return lambda I, st, fn, args, atys, dty: emit(I, st, args[0], ("e", ("tk", text)))


for _n, _t in PUNCT.items():
    MODELS[PRIV + "push_" + _n] = _p(_t)
    MODELS[PRIV + "push_" + _n + "_spanned"] = _p(_t)


def tid(v):
    """an identifier as a token; one whose text is fixed is that text"""
    if v[0] == "op" and v[1] in ("new", "mkident") and len(v) > 2 and v[2][0] == "str":
        return ("tk", v[2][1])
    return ("tid", v)


def tree(v):
    """a token tree: Group, Ident, Punct or Literal"""
    return tid(v[3][0]) if v[0] == "adt" and v[1] == "proc_macro2::TokenTree" and v[2] == 1 else v


@model(PRIV + "push_ident", PRIV + "push_ident_spanned", PRIV + "push_lifetime", PRIV + "push_lifetime_spanned")
def push_ident(I, st, fn, args, atys, dty):
    s = cval(I, st, args[-1])
    return emit(I, st, args[0], ("e", ("tk", s[1]) if s[0] == "str" else tid(s)))


@model(PRIV + "push_group", PRIV + "push_group_spanned")
def push_group(I, st, fn, args, atys, dty):
    d = args[-2]
    d = DELIM[d[2]] if d[0] == "adt" else "?"
    return emit(I, st, args[0], ("e", ("grp", d, args[-1])))


@model("proc_macro2::TokenStream::new", "core::default::Default::default_TS")
def ts_new(I, st, fn, args, atys, dty):
    return [(st, EMPTY)]


@model(PRIV + "get_span", PRIV + "get_span::GetSpan::__into_span")
def get_span(I, st, fn, args, atys, dty):
    return [(st, args[0])]


@model(PRIV + "CheckHasIterator::check")
def check_it(I, st, fn, args, atys, dty):
    return [(st, UNIT)]


@model(PRIV + "ext::RepAsIteratorExt::quote_into_iter", PRIV + "ext::RepIteratorExt::quote_into_iter",
       PRIV + "ext::RepToTokensExt::quote_into_iter")
def quote_into_iter(I, st, fn, args, atys, dty):
    if "RepToTokensExt" in fn.path:
        return [(st, mk_tup((args[0], ("sym", "HasIterator"))))]
    v = args[0]
    while v[0] == "ref":
        v = I.read_loc(st, v[1], v[2])
    it = v if v[0] == "it" else ("it", "seq", I.mod.as_seq(v))
    if "'flat_map'" in repr(it):
        # each inner sequence in turn: write it out first
        return [(s, q if q is PANIC else mk_tup((("it", "seq", q), ("sym", "HasIterator")))) for s, q in I.force(st, it)]
    return [(st, mk_tup((it, ("sym", "HasIterator"))))]


@model(PRIV + "ext::RepToTokensExt::next")
def same_again(I, st, fn, args, atys, dty):
    """a value that is no iterator is repeated as it is"""
    return [(st, Some(args[0]))]


def tokens_of(I, st, v, t):
    """the tokens `v` of type `t` stands for"""
    while True:
        if v[0] == "ref":
            v = I.read_loc(st, v[1], v[2])
        elif v[0] == "adt" and v[1].endswith("RepInterp"):
            v = v[3][0]
        else:
            break
    while t is not None and (t.k == "ref" or (t.k == "adt" and (t.path.endswith("RepInterp") or t.path in ("alloc::boxed::Box",)))):
        t = t.t if t.k == "ref" else t.args[0]
    if t is not None and t.k == "adt":
        if t.path == TS:
            return v
        if t.path == OPT:
            if v[0] == "adt":
                return EMPTY if v[2] == 0 else tokens_of(I, st, v[3][0], t.args[0])
            return seq_lit(("tok", v))
        if t.path == "proc_macro2::Ident":
            return seq_lit(tid(v))
        if t.path == "proc_macro2::TokenTree":
            return seq_lit(tree(v))
        if t.path == "syn::expr::Index" and v[0] == "adt":
            i = v[3][I.p.field_index("syn::expr::Index", "index") or 0] if "syn::expr::Index" in I.p.adts else v[3][0]
            if i[0] == "fld" and i[1][0] == "op" and i[1][1] == "try_into":
                i = i[1][2]
            return seq_lit(("tlit", ("op", "index", i)))
        if t.path in ("syn::lit::LitStr", "alloc::string::String", "syn::expr::Index"):
            return seq_lit(("tlit", v))
    if t is not None and t.k in ("prim", "str"):
        return seq_lit(("tlit", v))
    return None


@model("quote::to_tokens::ToTokens::to_tokens")
def to_tokens(I, st, fn, args, atys, dty):
    t = strip(fn.args[0]) if fn.args else None
    if t is not None and t.k == "adt" and t.path == OPT:
        v, out = cval(I, st, args[0]), []
        for s, k in I.fork_variant(st, v, OPT):
            if k == 0:
                out.append((s, UNIT))
                continue
            x = fld(v, OPT, 1, 0)
            q = tokens_of(I, s, x, t.args[0])
            s = s.copy()
            r, p, w = cells(I, s, args[1])
            I.write_loc(s, r, p, concat(w, q if q is not None else seq_lit(("tok", x))))
            out.append((s, UNIT))
        return out
    q = tokens_of(I, st, args[0], fn.args[0] if fn.args else None)
    if q is None:
        return None
    st = st.copy()
    r, p, v = cells(I, st, args[1])
    I.write_loc(st, r, p, concat(v, q))
    return [(st, UNIT)]


@model("quote::to_tokens::ToTokens::to_token_stream", "quote::to_tokens::ToTokens::into_token_stream")
def to_stream(I, st, fn, args, atys, dty):
    q = tokens_of(I, st, args[0], fn.args[0] if fn.args else None)
    return None if q is None else [(st, q)]


_old_from = MODELS["core::convert::From::from"]
_old_into = MODELS["core::convert::Into::into"]


def tok_convert(I, st, v, src, dst):
    s, d = strip(src), strip(dst)
    if s is None or d is None or d.k != "adt":
        return None
    if d.path == "proc_macro2::TokenTree" and s.k == "adt" and s.path == "proc_macro2::Ident":
        return [(st, tid(v))]
    if d.path == TS and s.k == "adt" and s.path == "proc_macro2::TokenTree":
        return [(st, seq_lit(tree(v)))]
    if d.path == TS and s.k == "adt" and s.path == TS:
        return [(st, v)]
    return None


def _from(I, st, fn, args, atys, dty):
    src = fn.args[1] if len(fn.args) > 1 else (atys[0] if atys else None)
    return tok_convert(I, st, args[0], src, fn.args[0]) or _old_from(I, st, fn, args, atys, dty)


def _into(I, st, fn, args, atys, dty):
    return tok_convert(I, st, args[0], fn.args[0], fn.args[1]) or _old_into(I, st, fn, args, atys, dty)


MODELS["core::convert::From::from"] = _from
MODELS["core::convert::Into::into"] = _into

# format!, format_ident!, write! -----------------------------------------------


def template(bs):
    """pieces of a compiled format template: ("lit", text) | ("arg", index, options)"""
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(("lit", bytes(bs[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            k = bs[i] + 256 * bs[i + 1]
            out.append(("lit", bytes(bs[i + 2:i + 2 + k]).decode()))
            i += 2 + k
        else:
            flags = width = prec = None
            if n & 1:
                flags = int.from_bytes(bytes(bs[i:i + 4]), "little")
                i += 4
            if n & 2:
                width = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 4:
                prec = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 8:
                arg = int.from_bytes(bytes(bs[i:i + 2]), "little")
                i += 2
            if n & 48:
                return None
            # flags: fill and alignment at rest do not matter without a width
            out.append(("arg", arg, (flags, width, prec)))
            arg += 1


def pieces(I, st, v):
    """text of a fmt::Arguments value as a sequence of pieces"""
    while v[0] == "ref":
        v = I.read_loc(st, v[1], v[2])
    return v


@model("core::fmt::Arguments::new", "core::fmt::rt::Arguments::new", "core::fmt::rt::<impl core::fmt::Arguments>::new")
def args_new(I, st, fn, args, atys, dty):
    t = args[0]
    if t[0] == "ref":
        t = I.read_loc(st, t[1], t[2])
    a = args[1]
    while a[0] == "ref":
        a = I.read_loc(st, a[1], a[2])
    if t[0] != "bytes":
        return [(st, ("unk", "format", t, a))]
    tp = template(t[1])
    if tp is None:
        return [(st, ("unk", "format", t, a))]
    vals = [p[1] for p in parts(a)] if all(p[0] == "e" for p in parts(a)) else None
    if a[0] == "adt" or a[0] == "tup":
        vals = list(a[3] if a[0] == "adt" else a[1])
    out = []
    for p in tp:
        if p[0] == "lit":
            out.append(("e", ("txt", p[1])))
        else:
            if vals is None or p[1] >= len(vals):
                return [(st, ("unk", "format", t, a))]
            x = vals[p[1]]
            o = p[2]
            out.append(("e", ("shown",) + x[1:] + ((() if o == (None, None, None) else o),)) if x[0] == "fmtarg" else ("e", ("unk", "fmtarg", x)))
    return [(st, ("fmt", mk_text(out)))]


def mk_text(ps):
    """adjacent literal pieces are one"""
    out = []
    for p in ps:
        if p[0] == "e" and p[1][0] == "txt":
            if not p[1][1]:
                continue
            if out and out[-1][0] == "e" and out[-1][1][0] == "txt":
                out[-1] = ("e", ("txt", out[-1][1][1] + p[1][1]))
                continue
        # a shown constant string is text
        if p[0] == "e" and p[1][0] == "shown" and p[1][1] == "display" and p[1][2][0] == "str" and p[1][3] == ():
            out = list(parts(mk_text(out + [("e", ("txt", p[1][2][1]))])))
            continue
        if p[0] == "e" and p[1][0] == "shown" and p[1][1] == "display" and p[1][2][0] == "char" and p[1][3] == ():
            out = list(parts(mk_text(out + [("e", ("txt", chr(p[1][2][1])))])))
            continue
        out.append(p)
    return mk_seq(tuple(out))


@model("core::fmt::Arguments::from_str", "core::fmt::Arguments::from_str_nonconst")
def args_str(I, st, fn, args, atys, dty):
    v = I.content(st, args[0])
    if v[0] == "str":
        return [(st, ("fmt", mk_text([("e", ("txt", v[1]))])))]
    return [(st, ("fmt", seq_lit(("shown", "display", v, ()))))]


def _arg(kind):
    def f(I, st, fn, args, atys, dty):
        v = I.content(st, args[0])
        t = strip(fn.args[0]) if fn.args else None
        while v[0] == "ref":
            v = I.read_loc(st, v[1], v[2])
        return [(st, ("fmtarg", kind, v))]
    return f


for _k in ("display", "debug", "lower_hex", "upper_hex", "octal", "binary"):
    MODELS["core::fmt::rt::Argument::new_" + _k] = _arg(_k)


@model("alloc::fmt::format")
def fmt_format(I, st, fn, args, atys, dty):
    v = args[0]
    if v[0] == "fmt":
        return [(st, ("text", v[1]))]
    return [(st, ("op", "format", v))]


@model(PRIV + "mk_ident")
def mk_ident(I, st, fn, args, atys, dty):
    s = I.content(st, args[0])
    return [(st, ("op", "mkident", s, args[1] if len(args) > 1 else NONE))]


@model(PRIV + "IdentFragmentAdapter", PRIV + "IdentFragmentAdapter::span")
def ifa(I, st, fn, args, atys, dty):
    if fn.path.endswith("span"):
        return [(st, NONE)]
    return [(st, args[0])]


@model(PRIV + "parse", PRIV + "parse_spanned")
def push_source(I, st, fn, args, atys, dty):
    s = cval(I, st, args[-1])
    return emit(I, st, args[0], ("e", ("tk", s[1])) if s[0] == "str" else ("e", ("unk", "tokens", s)))


_old_value = MODELS.get("syn::lit::LitStr::value")


@model("syn::lit::LitStr::value")
def litstr_value(I, st, fn, args, atys, dty):
    v = I.content(st, args[0])
    if v[0] == "op" and v[1] == "litstr":
        return [(st, v[2])]
    return _old_value(I, st, fn, args, atys, dty)


@model("syn::lit::LitStr::new")
def litstr_new(I, st, fn, args, atys, dty):
    return [(st, ("op", "litstr", I.content(st, args[0]), args[1]))]


def _extend_ts(old):
    def f(I, st, fn, args, atys, dty):
        t = strip(fn.args[0]) if fn.args else None
        if t is not None and t.k == "adt" and t.path == TS and args[1][0] != "it":
            a = strip(atys[1]) if len(atys) > 1 else None
            if a is not None and a.k == "adt" and a.path == TS:
                st = st.copy()
                r, p, v = cells(I, st, args[0])
                I.write_loc(st, r, p, concat(v, args[1]))
                return [(st, UNIT)]
        return old(I, st, fn, args, atys, dty) if old else None
    return f


MODELS["core::iter::traits::collect::Extend::extend"] = _extend_ts(MODELS.get("core::iter::traits::collect::Extend::extend"))
