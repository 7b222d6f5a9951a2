"""Abstract values (Herbrand terms with a few interpreted constructors).

Shared references and boxes are transparent (`&x`, `Box::new(x)` and `x` are
the same value: nothing can change behind a shared borrow), `&mut` references
are locations.  Integers are affine forms, Vec/slice/array/iterator contents
are sequences of parts, sets are unions, booleans are formulas.
"""
OPT = "core::option::Option"
RES = "core::result::Result"
CF = "core::ops::control_flow::ControlFlow"
PAIR = "syn::punctuated::Pair"
UNIT = ("tup", ())
TRUE = ("true",)
FALSE = ("false",)


def B(x):
    return TRUE if x else FALSE


def Int(n):
    return ("aff", n, ())


def Char(n):
    return ("char", n)


def Str(s):
    return ("str", s)


def tup(*a):
    return mk_tup(a)


# ---------------------------------------------------------------- integers
def to_aff(v):
    if v[0] == "aff":
        return v[1], v[2]
    if v[0] == "char":
        return v[1], ()
    return 0, ((v, 1),)


def mk_aff(c, lin):
    d = {}
    for t, k in lin:
        d[t] = d.get(t, 0) + k
    lin = tuple(sorted(((t, k) for t, k in d.items() if k), key=repr))
    if c == 0 and len(lin) == 1 and lin[0][1] == 1:
        return lin[0][0]
    return ("aff", c, lin)


def add(a, b, sign=1):
    ca, la = to_aff(a)
    cb, lb = to_aff(b)
    return mk_aff(ca + sign * cb, tuple(la) + tuple((t, sign * k) for t, k in lb))


def sub(a, b):
    return add(a, b, -1)


def is_int(v):
    return v[0] == "aff" and not v[2]


# ---------------------------------------------------------------- booleans
def Not(x):
    if x == TRUE:
        return FALSE
    if x == FALSE:
        return TRUE
    if x[0] == "not":
        return x[1]
    return ("not", x)


def And(a, b):
    if a == FALSE or b == FALSE:
        return FALSE
    if a == TRUE:
        return b
    if b == TRUE:
        return a
    return ("and", a, b)


def Or(a, b):
    return Not(And(Not(a), Not(b)))


def le_atom(L, k):
    """the atom  L <= k  with L in canonical sign."""
    if not L:
        return B(0 <= k)
    if L[0][1] < 0:
        L2 = tuple((t, -c) for t, c in L)
        return Not(("le", L2, -k - 1))
    return ("le", L, k)


def le(a, b):
    c, L = to_aff(sub(a, b))
    return le_atom(L, -c)


def lt(a, b):
    return le(add(a, Int(1)), b)


NUMERIC = ("aff", "char", "len", "idx")


def eq_int(a, b):
    c, L = to_aff(sub(a, b))
    if not L:
        return B(c == 0)
    if L[0][1] < 0:
        L = tuple((t, -k) for t, k in L)
        c = -c
    if c == 0 and len(L) == 1 and L[0][1] == 1 and L[0][0][0] in ("len", "blen"):
        return ("le", L, 0)         # there is no less than nothing
    return ("eqi", L, -c)


# ---------------------------------------------------------------- algebraic
EXTRA = {}
CHANGED = {}
MASK = ("sym", "extra")


def fld(v, path, variant, i, n=None):
    if EXTRA and i in EXTRA.get((path, variant), ()):
        return ("unk", "extra field", v)
    if v[0] == "adt" and v[1] == path:
        if v[2] == variant and i < len(v[3]):
            return v[3][i]
        return ("bottom",)
    if v[0] == "tup" and path == "()":
        if i < len(v[1]):
            return v[1][i]
    if v[0] == "clo":
        return v[2][i]
    if path == "syn::token::private::WithSpan":
        return ("op", "span", v)
    if i == 0 and v[:2] == ("ev", "pair") and path == PAIR:
        return v[2]
    return ("fld", v, path, variant, i)


def mk_adt(path, variant, fields):
    fields = tuple(fields)
    if fields:
        x = EXTRA.get((path, variant), ()) if EXTRA else ()
        if x:
            fields = tuple(MASK if i in x else f for i, f in enumerate(fields))
        f0 = next((f for i, f in enumerate(fields) if i not in x), fields[0])
        if f0[0] == "fld" and f0[2] == path and f0[3] == variant:
            b = f0[1]
            if all(f == ("fld", b, path, variant, i) or i in x for i, f in enumerate(fields)):
                n = NFIELDS(path, variant)
                if n is None or n == len(fields):
                    return b
    return ("adt", path, variant, fields)


def NFIELDS(path, variant):
    return None


def mk_tup(fields):
    fields = tuple(fields)
    if len(fields) > 1:
        f0 = fields[0]
        if f0[0] == "fld" and f0[2] == "()":
            b = f0[1]
            if all(f == ("fld", b, "()", 0, i) for i, f in enumerate(fields)):
                return b
    return ("tup", fields)


def Some(v):
    return mk_adt(OPT, 1, (v,))


NONE = ("adt", OPT, 0, ())


def Ok(v):
    return mk_adt(RES, 0, (v,))


def Err(v):
    return mk_adt(RES, 1, (v,))


# ---------------------------------------------------------------- sequences
def parts(v):
    if v[0] == "seq":
        return v[1]
    return (("all", v),)


def mk_seq(ps):
    out = []
    for p in ps:
        if p[0] == "all" and p[1][0] == "seq":
            out.extend(p[1][1])
        elif p[0] == "map" and p[2] == (("e", ("@", 1)),):
            out.extend(parts(p[1]))
        elif p[0] in ("map", "mapc") and p[1] == EMPTY:
            pass
        else:
            out.append(p)
    if len(out) == 1 and out[0][0] == "all":
        return out[0][1]
    return ("seq", tuple(out))


EMPTY = ("seq", ())


def concat(a, b):
    return mk_seq(parts(a) + parts(b))


def seq_lit(*es):
    return mk_seq(tuple(("e", e) for e in es))


def height(t, memo=None):
    """Number of nested binders in t (for locally-nameless map bodies)."""
    if not isinstance(t, tuple):
        return 0
    if t and t[0] in ("@", "@i"):
        return 0
    if t and t[0] == "map" and len(t) == 3:
        return max(height(t[1]), body_height(t[2]) + 1)
    h = 0
    for x in t:
        if isinstance(x, tuple):
            h = max(h, height(x))
    return h


def body_height(b):
    return height(b)


def mk_map(S, elem, idx, body):
    """map over S of the parts `body`, where `elem`/`idx` are the generic
    element and index terms occurring in body."""
    h = height(body) + 1
    m = {elem: ("@", h)}
    if idx is not None:
        m[idx] = ("@i", h)
    return ("map", S, subst(body, m))


def open_map(p, elem, idx=None):
    h = height(p[2]) + 1
    m = {("@", h): elem}
    if idx is not None:
        m[("@i", h)] = idx
    return subst(p[2], m)


def base_view(S):
    """The sequence whose elements S's elements correspond to one by one (in
    order), and the element of S belonging to its generic element."""
    ps = parts(S)
    if len(ps) == 1:
        p = ps[0]
        if p[0] == "map" and len(p[2]) == 1 and p[2][0][0] == "e":
            B, f = base_view(p[1])
            return B, lambda lid: open_map(p, f(lid), ("idx", lid, B))[0][1]
        if p[0] == "all" and p[1][0] == "par":
            B, f = base_view(p[1][3])
            return B, lambda lid: ("nth", p[1], ("idx", lid, B))
        if p[0] == "mapc" and len(p[2]) == 1 and len(p[2][0][1]) == 1 and p[2][0][1][0][0] == "e":
            (cond, ext), = p[2]
            h = height(p[2][0]) + 1
            E, X = ("elem", -9, p[1]), ("idx", -9, p[1])
            c0, e0 = subst((cond, ext), {("@", h): E, ("@i", h): X})
            h2 = height(c0) + 1
            c1 = subst(c0, {E: ("@", h2), X: ("@i", h2)})
            F = ("seq", (("mapc", p[1], ((c1, (("e", ("tup", (("@i", h2), ("@", h2)))),)),)),))

            def f(lid):
                x = ("elem", lid, F)
                return subst(e0[0][1], {E: fld(x, "()", 0, 1), X: fld(x, "()", 0, 0)})
            return F, f
    return S, lambda lid: ("elem", lid, S)


def slen(v):
    r = Int(0)
    for p in parts(v):
        if p[0] == "e":
            r = add(r, Int(1))
        elif p[0] == "all":
            r = add(r, len_term(p[1]))
        elif p[0] == "map":
            bl = 0
            for q in p[2]:
                if q[0] != "e":
                    return ("len", v)
                bl += 1
            inner = slen(p[1])
            for _ in range(bl):
                r = add(r, inner)
        else:
            return ("len", v)
    return r


def len_term(t):
    if t[0] == "op" and t[1] == "bytes":
        return ("blen", t[2])
    if t[0] == "range":
        return sub(t[2], t[1])
    if t[0] == "rev":
        return len_term(t[1])
    if t[0] == "par":
        return slen(t[3])
    if t[0] == "drop":
        return sub(len_term(t[1]), t[2])
    if t[0] == "dropr":
        return sub(len_term(t[1]), t[2])
    return ("len", t)


def rev(v):
    out = []
    for p in reversed(parts(v)):
        if p[0] == "e":
            out.append(p)
        elif p[0] == "all":
            t = p[1]
            out.append(("all", t[1] if t[0] == "rev" else ("rev", t)))
        elif p[0] == "map" and not has(p[2], "@i"):
            out.append(("map", rev(p[1]), tuple(reversed(p[2]))))
        else:
            return ("rev", v)
    return mk_seq(out)


def drop(v, n=1):
    ps = parts(v)
    while n and ps and ps[0][0] == "e":
        ps = ps[1:]
        n -= 1
    if n == 0:
        return mk_seq(ps)
    if len(ps) == 1 and ps[0][0] == "map" and len(ps[0][2]) == 1 and ps[0][2][0][0] == "e" and not has(ps[0][2], "@i"):
        return mk_seq((("map", drop(ps[0][1], n), ps[0][2]),))
    if len(ps) == 1 and ps[0][0] == "all":
        t = ps[0][1]
        if t[0] == "drop" and is_int(t[2]):
            return ("drop", t[1], Int(t[2][1] + n))
        return ("drop", t, Int(n))
    return ("drop", mk_seq(ps), Int(n))


def dropr(v):
    """all but the last element"""
    ps = parts(v)
    if ps and ps[-1][0] == "e":
        return mk_seq(ps[:-1])
    if len(ps) == 1 and ps[0][0] == "all":
        t = ps[0][1]
        if t[0] == "rev":
            return rev(drop(t[1], 1))
        return ("dropr", t, Int(1))
    if len(ps) == 1:
        return ("dropr", mk_seq(ps), Int(1))
    if ps:
        return mk_seq(ps[:-1] + (("all", dropr(mk_seq(ps[-1:]))),))
    return EMPTY


def store(v, i, x):
    """v with its element number i replaced"""
    if v[0] == "store" and v[2] == i:
        v = v[1]
    return ("store", v, i, x)


def nth(v, i):
    if v[0] == "store" and v[2] == i:
        return v[3]
    c, L = to_aff(i)
    if len(L) == 1 and L[0][1] == 1 and L[0][0][0] == "idx" and c >= 0:
        ix = L[0][0]
        if ix[2] == (drop(v, c) if c else v):
            return ("elem", ix[1], ix[2])
    ps = parts(v)
    if len(ps) == 1 and ps[0][0] == "map" and len(ps[0][2]) == 1 and ps[0][2][0][0] == "e":
        return open_map(ps[0], nth(ps[0][1], i), i)[0][1]
    if len(ps) == 1 and ps[0][0] == "all" and ps[0][1][:2] == ("op", "grown"):
        # what has grown still begins with what it was
        q = parts(ps[0][1][2])
        for k, p in enumerate(q):
            if p[0] == "e" and slen(mk_seq(q[:k])) == i:
                return p[1]
    if is_int(i):
        n = i[1]
        k = 0
        while ps and ps[0][0] == "e":
            if k == n:
                return ps[0][1]
            k += 1
            ps = ps[1:]
        if len(ps) == 1 and ps[0][0] == "all":
            t = ps[0][1]
            off = n - k
            while t[0] == "drop" and is_int(t[2]):
                off += t[2][1]
                t = t[1]
            return ("nth", t, Int(off))
        if ps and ps[0][0] == "all":
            return ("nth", mk_seq(ps), Int(n - k))
        return ("nth", mk_seq(ps), Int(n - k))
    if len(ps) == 1 and ps[0][0] == "all":
        t = ps[0][1]
        # nth(t, len(t)-1-e)  ==  nth(rev t, e)
        c, L = to_aff(i)
        d = dict(L)
        base = t[1] if t[0] == "rev" else t
        if d.get(("len", base)) == 1:
            e = sub(sub(len_term(base), Int(1)), i)
            return ("nth", base if t[0] == "rev" else ("rev", t), e)
        return ("nth", t, i)
    return ("nth", v, i)


def last(v):
    ps = parts(v)
    if ps and ps[-1][0] == "e":
        return ps[-1][1]
    return nth(rev(v), Int(0))


def emptiness(v):
    """boolean term: v has no element"""
    alls = []
    for p in parts(v):
        if p[0] == "e":
            return FALSE
        if p[0] == "all":
            alls.append(p[1])
        elif p[0] == "map":
            if not any(q[0] == "e" for q in p[2]):
                return ("empty", v)
            alls.append(p[1])
        else:
            return ("empty", v)
    r = TRUE
    for a in alls:
        if a[0] == "seq":
            r = And(r, emptiness(a))
        elif a[0] in ("union", "single", "sempty", "inter"):
            r = And(r, set_empty(a))
        else:
            r = And(r, le(len_term(a), Int(0)))
    return r


def merged(q):
    """leftmost best of a sequence of optional names: associative, with None neutral"""
    out = ()
    for p in parts(q):
        if p[0] == "e" and p[1][:2] == ("ev", "merge_all"):
            out += parts(p[1][2])
        elif p != ("e", NONE):
            out += (p,)
    if not out:
        return NONE
    if len(out) == 1 and out[0][0] == "e":
        return out[0][1]
    return ("ev", "merge_all", mk_seq(out))


# ---------------------------------------------------------------- generic
def subst(t, m):
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in m:
            return m[x]
        r = memo.get(x)
        if r is not None:
            return r
        ys = tuple(go(y) for y in x)
        if ys == x:
            r = x
        else:
            r = rebuild(ys)
        memo[x] = r
        return r

    return go(t)


def rebuild(x):
    """Re-normalise after substitution of children."""
    k = x[0] if x else None
    if k == "fld":
        return fld(*x[1:])
    if k == "adt":
        return mk_adt(x[1], x[2], x[3])
    if k == "shown" and x[1] == "display" and x[2] in (TRUE, FALSE) and not x[3]:
        return ("txt", x[2][0])
    if k == "mextend":
        return mextend(x[1], x[2])
    if k == "tup":
        return mk_tup(x[1])
    if k == "seq":
        return mk_seq(x[1])
    if k == "aff":
        c = x[1]
        lin = []
        for t, co in x[2]:
            c2, l2 = to_aff(t)
            c += co * c2
            lin += [(u, co * k2) for u, k2 in l2]
        return mk_aff(c, lin)
    if k == "le" or k == "eqi":
        c = 0
        lin = []
        for t, co in x[1]:
            c2, l2 = to_aff(t)
            c += co * c2
            lin += [(u, co * k2) for u, k2 in l2]
        v = mk_aff(c, lin)
        return le(v, Int(x[2])) if k == "le" else eq_int(v, Int(x[2]))
    if k == "not":
        return Not(x[1])
    if k == "and":
        return And(x[1], x[2])
    if k == "len":
        return slen(x[1])
    if k == "blen" and x[1] == EMPTY:
        return Int(0)
    if k == "ev" and x[1] == "merge_all":
        return merged(x[2])
    if k == "rev":
        return rev(x[1])
    if k == "nth":
        return nth(x[1], x[2])
    if k == "put":
        return put(x[1], x[2], x[3])
    if k == "get" and len(x) == 3:
        return mget(x[1], x[2])
    if k == "store":
        return store(x[1], x[2], x[3])
    if k == "drop" and is_int(x[2]) and x[2][1] >= 0:
        return drop(x[1], x[2][1])
    if k == "dropr" and x[2] == Int(1):
        return dropr(x[1])
    if k == "mapc":
        return ("mapc", x[1], canon_cases(x[2]))
    if k == "union":
        return union(x[1], x[2]) if len(x) == 3 else x
    if k == "inter" or k == "eq":
        if len(x) == 3 and repr(x[1]) > repr(x[2]):
            return (k, x[2], x[1])
        if k == "eq" and x[1] == x[2]:
            return TRUE
    return x


def canon_iv(L, x):
    """the bounds x on the linear form L, with L in canonical form again"""
    c = 0
    lin = []
    for t, co in L:
        c2, l2 = to_aff(t)
        c += co * c2
        lin += [(u, co * k2) for u, k2 in l2]
    c, L2 = to_aff(mk_aff(c, lin))
    lo, hi, ex = x
    if L2 == L and c == 0:
        return L, x
    lo, hi, ex = (None if lo is None else lo - c), (None if hi is None else hi - c), frozenset(v - c for v in ex)
    if L2 and L2[0][1] < 0:
        L2 = tuple((t, -k) for t, k in L2)
        lo, hi, ex = (None if hi is None else -hi), (None if lo is None else -lo), frozenset(-v for v in ex)
    return L2, (lo, hi, ex)


def subst_iv(iv, m):
    """iv after substitution; None when it has become contradictory"""
    out = {}
    ok = True
    for L, x in iv.items():
        L, (lo, hi, ex) = canon_iv(subst(L, m), x)
        if not L:
            if lo is not None and lo > 0 or hi is not None and hi < 0 or 0 in ex:
                ok = False
            continue
        if L in out:
            l0, h0, e0 = out[L]
            lo = l0 if lo is None else lo if l0 is None else max(lo, l0)
            hi = h0 if hi is None else hi if h0 is None else min(hi, h0)
            ex = ex | e0
            if lo is not None and hi is not None and lo > hi:
                ok = False
        out[L] = (lo, hi, ex)
    return out, ok


def subst_bl(bl, m):
    out = {}
    for t, v in bl.items():
        t = subst(t, m)
        while t[0] == "not":
            t, v = t[1], not v
        if t in (TRUE, FALSE):
            if v != (t == TRUE):
                out[FALSE] = True
        elif out.setdefault(t, v) != v:
            out[FALSE] = True
    return out


def intervals(f):
    """the values of the linear form that a fact speaks of: (form, ((lo, hi), ...))"""
    if f[0] == "ivs":
        out = []
        L = None
        for lo, hi in f[2]:
            L, (lo, hi, _) = canon_iv(f[1], (lo, hi, frozenset()))
            out.append((lo, hi))
        return L, tuple(out)
    L, (lo, hi, ex) = canon_iv(f[1], f[2])
    out, a = [], lo
    for n in sorted(ex):
        if (lo is not None and n < lo) or (hi is not None and n > hi):
            continue
        if a is None or a <= n - 1:
            out.append((a, n - 1))
        a = n + 1
    if a is None or hi is None or a <= hi:
        out.append((a, hi))
    return L, tuple(out)


def united(xs):
    """intervals in order, those that touch in one"""
    inf = float("inf")
    out = []
    for lo, hi in sorted(xs, key=lambda x: -inf if x[0] is None else x[0]):
        if out and (out[-1][1] is None or (lo is not None and lo <= out[-1][1] + 1) or lo is None):
            h = out[-1][1]
            out[-1] = (out[-1][0], None if h is None or hi is None else max(h, hi))
        else:
            out.append((lo, hi))
    return tuple(out)


def canon_cases(cases):
    """the alternatives of a conditional map, in canonical order"""
    out = set()
    for cond, ext in cases:
        fs = set()
        for f in cond:
            if f[0] == "iv":
                L, x = canon_iv(f[1], f[2])
                if L:
                    fs.add(("iv", L, x))
            elif f[0] != "bl" or f[1] not in (TRUE, FALSE):
                fs.add(f)
        out.add((tuple(sorted(fs, key=repr)), ext))
    if len(out) > 1 and all(len(cond) == 1 and cond[0][0] in ("iv", "ivs") for cond, _ in out):
        # all about one number: the values that each alternative is for
        got = [(intervals(cond[0]), ext) for cond, ext in out]
        if len({L for (L, _), _ in got}) == 1:
            by = {}
            for (L, xs), ext in got:
                by.setdefault(ext, []).extend(xs)
            out = {((("ivs", L, united(xs)),), ext) for ext, xs in by.items()}
    return tuple(sorted(out, key=repr))


def has(t, tag):
    if not isinstance(t, tuple):
        return False
    if t and t[0] == tag:
        return True
    return any(has(x, tag) for x in t if isinstance(x, tuple))


def contains(t, s):
    if t == s:
        return True
    if not isinstance(t, tuple):
        return False
    return any(contains(x, s) for x in t if isinstance(x, tuple))


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


# ---------------------------------------------------------------- sets
SEMPTY = ("sempty",)


def leaves(a):
    if a == SEMPTY:
        return []
    if a[0] == "union":
        return leaves(a[1]) + leaves(a[2])
    if a == EMPTY:
        return []
    return [a]


def union(a, b):
    ls = sorted(set(leaves(a)) | set(leaves(b)), key=repr)
    if not ls:
        return SEMPTY
    r = ls[-1]
    for x in reversed(ls[:-1]):
        r = ("union", x, r)
    return r


def set_of(q):
    """the set of the elements of sequence q"""
    r = SEMPTY
    for p in parts(q):
        if p[0] == "e":
            r = union(r, ("single", p[1]))
        elif p[0] == "all":
            t = p[1]
            if t[0] == "rev":
                t = t[1]
            r = union(r, t)
        else:
            r = union(r, ("setof", mk_seq((p,))))
    return r


def set_empty(s):
    r = TRUE
    for x in leaves(s):
        if x[0] == "single":
            return FALSE
        if x[0] == "inter":
            r = And(r, disjoint(x[1], x[2]))
        else:
            r = And(r, le(("len", x), Int(0)))
    return r


def disjoint(a, b):
    r = TRUE
    for x in leaves(a):
        for y in leaves(b):
            if x[0] == y[0] == "single":
                if x[1][0] == "char" and y[1][0] == "char":
                    c = B(x[1] != y[1])
                else:
                    c = Not(eq_int(x[1], y[1]))
            elif x == y:
                c = le(("len", x), Int(0))
            else:
                u, v = (x, y) if repr(x) <= repr(y) else (y, x)
                c = le(("len", ("inter", u, v)), Int(0))
            r = And(r, c)
    return r


def show(t, depth=0):
    """Compact rendering for reports."""
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if depth > 14:
        return "…"
    d = depth + 1
    if k == "sym":
        return t[1]
    if k == "aff":
        s = []
        for v, c in t[2]:
            s.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + show(v, d))
        if t[1] or not s:
            s.append(str(t[1]))
        return "(" + "+".join(s) + ")" if len(s) > 1 else s[0]
    if k == "fld":
        p = t[2].split("::")[-1]
        nm = FIELDNAME(t[2], t[3], t[4])
        return "%s.%s" % (show(t[1], d), nm)
    if k == "adt":
        return "%s{%s}" % (VARNAME(t[1], t[2]), ", ".join(show(x, d) for x in t[3]))
    if k == "tup":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k == "seq":
        return "[" + ", ".join(show(x, d) for x in t[1]) + "]"
    if k == "e":
        return show(t[1], d)
    if k == "all":
        return "*" + show(t[1], d)
    if k == "map":
        return "each(%s => %s)" % (show(t[1], d), ", ".join(show(x, d) for x in t[2]))
    if k == "str":
        return repr(t[1])
    if k == "char":
        return repr(chr(t[1]))
    if k == "@":
        return "elem"
    if k == "@i":
        return "index"
    if k in ("true", "false"):
        return k
    if k == "le":
        return show(mk_aff(0, t[1]), d) + "<=" + str(t[2])
    if k == "eqi":
        return show(mk_aff(0, t[1]), d) + "==" + str(t[2])
    if k == "not":
        return "!(" + show(t[1], d) + ")"
    if k in ("op", "unk", "ev"):
        return "%s(%s)" % (str(t[1]).split("::")[-1] if "::" in str(t[1]) else t[1],
                           ", ".join(show(x, d) for x in t[2:]))
    if k == "elem":
        return "elem#%s" % (t[1],)
    if k == "idx":
        return "idx#%s" % (t[1],)
    return "%s(%s)" % (k, ", ".join(show(x, d) for x in t[1:]))


def FIELDNAME(p, v, i):
    return "%d" % i


def VARNAME(p, v):
    return p.split("::")[-1]


def grown(x):
    """a table after some opaque additions"""
    return x if x[0] == "op" and x[1] == "grown" else ("op", "grown", x)


def mget(m, k):
    while m[0] == "put":
        if m[2] == k:
            return m[3]
        break
    return ("get", m, k)


def mextend(m, q):
    """map m with the pairs of q put into it in order"""
    if q == EMPTY:
        return m
    if m[0] == "mextend":
        return ("mextend", m[1], concat(m[2], q))
    return ("mextend", m, q)


def put(m, k, v):
    """map m with k bound to v"""
    if m[0] == "put" and m[2] == k:
        m = m[1]
    return ("put", m, k, v)
