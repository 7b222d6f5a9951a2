"""Path-sensitive abstract interpreter over MIR (trace-partitioned value-flow
analysis).  Loops and iterator closures are summarised from one generic
iteration after widening every location the iteration can change; nothing is
executed, unrolled over data or given to a solver."""
import sys
import terms as T
from terms import *
from facts import head

sys.setrecursionlimit(20000)


class Undecided(Exception):
    """The construct is outside what the engine models: no verdict."""


class Limit(Undecided):
    pass


# ------------------------------------------------------------------ facts
def wrapped(n, ty):
    """the number a cast to `ty` makes of a known one"""
    if ty not in RANGES or ty == "char":
        return n
    lo, hi = RANGES[ty]
    return (n - lo) % (hi - lo + 1) + lo


class Facts:
    __slots__ = ("var", "nvar", "bl", "iv", "vp")

    def __init__(self):
        self.var = {}
        self.vp = {}
        self.nvar = {}
        self.bl = {}
        self.iv = {}

    def copy(self):
        f = Facts()
        f.var = dict(self.var)
        f.vp = dict(self.vp)
        f.nvar = dict(self.nvar)
        f.bl = dict(self.bl)
        f.iv = dict(self.iv)
        return f

    def variant(self, t):
        if t[0] == "adt":
            return t[2]
        return self.var.get(t)

    def interval(self, L):
        lo, hi, ex = self.iv.get(L, (None, None, frozenset()))
        if all(c > 0 for _, c in L) and not any(t in SIGNED for t, _ in L):
            if lo is None or lo < 0:
                lo = 0
        if len(L) == 1 and L[0][1] == 1 and L[0][0][0] in ("blen", "len"):
            # a text has at least as many bytes as characters, and none only if it has none
            t = L[0][0]
            o = self.iv.get(((("blen" if t[0] == "len" else "len", t[1]), 1),))
            if o is not None:
                olo, ohi, oex = o
                if olo is None and 0 in oex or olo == 0 and 0 in oex:
                    olo = 1
                if olo is not None:
                    m = olo if t[0] == "blen" else min(olo, 1)
                    lo = m if lo is None else max(lo, m)
                if ohi is not None and (t[0] == "len" or ohi <= 0):
                    hi = ohi if hi is None else min(hi, ohi)
        if len(L) == 2:
            (a, ca), (b, cb) = L
            if ca == 1 and cb == -1:
                if a[0] == "idx" and b == T.slen(a[2]) and (hi is None or hi > -1):
                    hi = -1
                if b[0] == "idx" and a == T.slen(b[2]) and (lo is None or lo < 1):
                    lo = 1
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        return lo, hi, ex

    def decide(self, c):
        k = c[0]
        if k == "true":
            return True
        if k == "false":
            return False
        if k == "not":
            r = self.decide(c[1])
            return None if r is None else not r
        if k == "and":
            a = self.decide(c[1])
            if a is False:
                return False
            b = self.decide(c[2])
            if b is False:
                return False
            if a and b:
                return True
            return None
        if k == "le":
            lo, hi, _ = self.interval(c[1])
            if hi is not None and hi <= c[2]:
                return True
            if lo is not None and lo > c[2]:
                return False
            if len(c[1]) > 1 and self.iv:
                d = dict(c[1])
                if lin_unsat(self, [(d, c[2])]):
                    return False
                if lin_unsat(self, [({t: -k for t, k in d.items()}, -c[2] - 1)]):
                    return True
            return None
        if k == "eqi":
            lo, hi, ex = self.interval(c[1])
            if c[2] in ex or (lo is not None and lo > c[2]) or (hi is not None and hi < c[2]):
                return False
            if lo is not None and lo == hi == c[2]:
                return True
            if len(c[1]) > 1 and self.iv:
                d = dict(c[1])
                m = {t: -k for t, k in d.items()}
                if lin_unsat(self, [(d, c[2]), (m, -c[2])]):
                    return False
            return None
        if k == "isv":
            v = self.variant(c[1])
            if v is not None:
                return v == c[3]
            if c[3] in self.nvar.get(c[1], ()):
                return False
            return None
        return self.bl.get(c)

    def assume(self, c, val, prog=None):
        """New Facts with atom c == val, or None if contradictory."""
        k = c[0]
        if k == "not":
            return self.assume(c[1], not val, prog)
        d = self.decide(c)
        if d is not None:
            return self if d == val else None
        f = self.copy()
        if k == "le":
            lo, hi, ex = f.iv.get(c[1], (None, None, frozenset()))
            if val:
                hi = c[2] if hi is None else min(hi, c[2])
                if hi == 0 and lo is None and len(c[1]) == 1 and c[1][0][0][0] in ("len", "blen"):
                    lo = 0
            else:
                lo = c[2] + 1 if lo is None else max(lo, c[2] + 1)
            f.iv[c[1]] = (lo, hi, ex)
        elif k == "eqi":
            lo, hi, ex = f.iv.get(c[1], (None, None, frozenset()))
            if val:
                lo = hi = c[2]
            else:
                ex = ex | {c[2]}
                if lo is None and 0 in ex and len(c[1]) == 1 and c[1][0][1] == 1 and c[1][0][0] not in SIGNED:
                    lo = 0              # not 0 is at least 1
                while lo is not None and lo in ex:
                    ex, lo = ex - {lo}, lo + 1
            f.iv[c[1]] = (lo, hi, ex)
        elif k == "isv":
            f.vp[c[1]] = c[2]
            if val:
                f.var[c[1]] = c[3]
            else:
                ns = f.nvar.get(c[1], frozenset()) | {c[3]}
                f.nvar[c[1]] = ns
                a = prog.adts.get(c[2]) if prog else None
                if a:
                    VARIANTS[c[2]] = len(a["variants"])
                    left = [i for i in range(len(a["variants"])) if i not in ns]
                    if not left:
                        return None
                    if len(left) == 1:
                        f.var[c[1]] = left[0]
        else:
            f.bl[c] = val
        return f

    def items(self):
        out = set()
        for t, v in self.var.items():
            out.add(("isv", t, v, True))
        for t, vs in self.nvar.items():
            if t in self.var:
                continue
            for v in vs:
                out.add(("isv", t, v, False))
        for t, v in self.bl.items():
            out.add(("bl", t, v))
        for L, x in self.iv.items():
            out.add(("iv", L, x))
        return out


SIGNED = set()
VARIANTS = {}     # how many variants a type has


def lin_unsat(F, extra=(), limit=400):
    """Are the linear facts (with the non-negativity of unsigned terms)
    contradictory over the rationals?  (variable elimination)"""
    cons = []
    terms = set()
    multi = False
    for L, (lo, hi, ex) in F.iv.items():
        if not L:
            continue
        multi = multi or len(L) > 1
        if hi is not None:
            cons.append((dict(L), hi))
        if lo is not None:
            cons.append(({t: -k for t, k in L}, -lo))
        for t, _ in L:
            terms.add(t)
    for d, k in extra:
        cons.append((dict(d), k))
        terms.update(d)
        multi = multi or len(d) > 1
    if not multi:
        return False
    for t in list(terms):
        if t[0] == "idx" and ("len", t[2]) in terms:
            cons.append(({t: 1, ("len", t[2]): -1}, -1))
        if t not in SIGNED:
            cons.append(({t: -1}, 0))
    for t in sorted(terms, key=repr):
        pos = [c for c in cons if c[0].get(t, 0) > 0]
        neg = [c for c in cons if c[0].get(t, 0) < 0]
        rest = [c for c in cons if not c[0].get(t, 0)]
        if len(pos) * len(neg) > limit:
            return False
        for a, ka in pos:
            for b, kb in neg:
                x, y = a[t], -b[t]
                d = {}
                for u, k in a.items():
                    d[u] = d.get(u, 0) + k * y
                for u, k in b.items():
                    d[u] = d.get(u, 0) + k * x
                d = {u: k for u, k in d.items() if k}
                k = ka * y + kb * x
                if not d:
                    if k < 0:
                        return True
                    continue
                rest.append((d, k))
        cons = rest
    return any(not d and k < 0 for d, k in cons)


class St:
    __slots__ = ("mem", "F", "ev", "trace")

    def __init__(self):
        self.mem = {}
        self.F = Facts()
        self.ev = ()
        self.trace = ()

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.F = self.F
        s.ev = self.ev
        s.trace = self.trace
        return s

    def emit(self, *e):
        self.ev = self.ev + (e,)


class Outcome:
    __slots__ = ("kind", "st", "val")

    def __init__(self, kind, st, val):
        self.kind, self.st, self.val = kind, st, val

    @property
    def F(self):
        return self.st.F


def contradict(f, g):
    if f[0] != g[0] or f[1] != g[1]:
        return False
    if f[0] == "bl":
        return f[2] != g[2]
    if f[0] == "isv":
        return (f[2] != g[2]) if f[3] and g[3] else (f[2] == g[2] and f[3] != g[3])
    (a, b, x), (c, d, y) = f[2], g[2]
    return (b is not None and c is not None and b < c) or (d is not None and a is not None and d < a) \
        or (a is not None and a == b and a in y) or (c is not None and c == d and c in x)


def only_panics(f, st1, outs):
    """the opposite of this fact makes the program panic: it restricts nothing"""
    hit = False
    for tag, s, x in outs:
        if not any(contradict(f, g) for g in s.F.items() - st1.F.items()):
            continue
        if tag != "panic":
            return False
        hit = True
    return hit


class LoopInfo:
    __slots__ = ("id", "S", "phis", "backs", "entry", "where", "st1", "its", "early")


class Frame:
    __slots__ = ("body", "fid", "depth", "stack")


NUMPRIM = {"usize", "u8", "u16", "u32", "u64", "u128", "isize", "i8", "i16", "i32", "i64", "i128", "char"}
LARGEST = {"char": 0x10ffff, "u8": 255, "u16": 65535, "u32": 2 ** 32 - 1, "u64": 2 ** 64 - 1}
RANGES = {"char": (0, 0x10ffff)}
for _n in (8, 16, 32, 64, 128):
    RANGES["u%d" % _n], RANGES["i%d" % _n] = (0, 2 ** _n - 1), (-2 ** (_n - 1), 2 ** (_n - 1) - 1)
RANGES["usize"], RANGES["isize"] = RANGES["u64"], RANGES["i64"]
SIGNEDPRIM = {"isize", "i8", "i16", "i32", "i64", "i128"}
BOX = "alloc::boxed::Box"


def is_box(ty):
    return ty.k == "adt" and ty.path == BOX


def outcomes(r, fn):
    """a call has an outcome: no path ends silently"""
    if not r:
        raise Undecided("no outcome of " + fn.path)
    return r


class Interp:
    def __init__(self, prog, prims=None, max_paths=3000):
        self.p = prog
        self.prims = prims or {}
        self.loops = {}
        self.n = 0
        self.max_paths = max_paths
        self.paths = 0
        self.visited = set()
        self.unmodelled = {}
        self.mutloops = {}
        T.NFIELDS = prog.nfields
        T.EXTRA = prog.extra_fields()
        T.CHANGED = prog.changed_fields()
        T.FIELDNAME = self.fieldname
        T.VARNAME = self.varname
        import models
        self.models = models.MODELS
        self.mod = models

    def fieldname(self, p, v, i):
        try:
            return self.p.adts[p]["variants"][v]["fields"][i]["name"]
        except Exception:
            return str(i)

    def varname(self, p, v):
        try:
            a = self.p.adts[p]
            n = a["variants"][v]["name"]
            return n if a["kind"] == "struct" else p.split("::")[-1] + "::" + n
        except Exception:
            return p.split("::")[-1] + "#%s" % v

    ctx = None      # [key, counter] while a reference is being enumerated
    table = None

    def fresh(self):
        if self.ctx is not None:
            self.ctx[1] += 1
            k = (self.ctx[0], self.ctx[1])
            if k not in self.table:
                self.n += 1
                self.table[k] = self.n
            return self.table[k]
        self.n += 1
        return self.n

    # -------------------------------------------------------------- memory
    def deref_root(self, st, v):
        """location a symbolic `&mut` value points at"""
        if v[0] == "ref":
            return v[1], v[2]
        r = ("D", v)
        if r not in st.mem:
            st.mem[r] = v
        return r, ()

    def walk(self, v, e):
        if e[0] == "f":
            return fld(v, e[1], e[2], e[3])
        if e[0] == "ix":
            return T.nth(v, e[1])
        if e[0] == "mk":
            return T.mget(v, e[1])
        if e[0] == "sl":
            if e[1]:
                v = T.drop(v, e[1])
            for _ in range(e[2]):
                v = T.dropr(v)
            return v
        raise Undecided("walk")

    def read_loc(self, st, root, path):
        if root not in st.mem:
            if root[0] == "D":
                st.mem[root] = root[1]
            else:
                raise Undecided("read of uninitialised %s" % (root,))
        v = st.mem[root]
        for e in path:
            v = self.walk(v, e)
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "ix":
            old = T.nth(v, e[1])
            nv = self.upd(old, path[1:], new)
            ps = parts(v)
            if is_int(e[1]) and len(ps) > e[1][1] and all(p[0] == "e" for p in ps[: e[1][1] + 1]):
                i = e[1][1]
                return mk_seq(ps[:i] + (("e", nv),) + ps[i + 1:])
            return T.store(v, e[1], nv)
        if e[0] == "sl":
            raise Undecided("update of part of a slice")
        if e[0] == "mk":
            return T.put(v, e[1], self.upd(T.mget(v, e[1]), path[1:], new))
        _, p, var, i, n = e
        if v[0] == "tup" and p == "()":
            fs = list(v[1])
        elif v[0] == "adt" and v[1] == p and v[2] == var:
            fs = list(v[3])
        elif v[0] == "clo":
            fs = list(v[2])
            fs[i] = self.upd(fs[i], path[1:], new)
            return ("clo", v[1], tuple(fs))
        else:
            if n is None:
                raise Undecided("update of opaque %s" % p)
            fs = [fld(v, p, var, j) for j in range(n)]
        while len(fs) <= i:
            fs.append(("uninit",))
        fs[i] = self.upd(fs[i], path[1:], new)
        return mk_tup(fs) if p == "()" else mk_adt(p, var, fs)

    def write_loc(self, st, root, path, v):
        if not path:
            st.mem[root] = v
            return
        if root not in st.mem:
            st.mem[root] = root[1] if root[0] == "D" else ("uninit",)
        st.mem[root] = self.upd(st.mem[root], path, v)

    def arity(self, ty, variant):
        if ty.k == "tuple":
            return len(ty.args)
        if ty.k == "adt":
            return self.p.nfields(ty.path, variant)
        return None

    def loc_of(self, st, fr, place):
        """(root, path, type) of a place."""
        root = ("L", fr.fid, place[0])
        path = ()
        ty = fr.body.locals[place[0]]
        variant = 0
        for e in place[1:]:
            if e == "*":
                if ty.k == "ref" and ty.mut:
                    v = self.read_loc(st, root, path)
                    root, path = self.deref_root(st, v)
                    ty = ty.t
                elif ty.k == "ref":
                    ty = ty.t
                elif is_box(ty):
                    ty = ty.args[0]
                else:
                    raise Undecided("deref of %s" % ty.g)
            elif e[0] == "f":
                fty = fr.body.types[e[2]]
                if ty.k == "adt":
                    pp = ty.path
                elif ty.k == "tuple":
                    pp = "()"
                elif ty.k == "closure":
                    pp = "clo"
                else:
                    raise Undecided("field of %s" % ty.g)
                path = path + (("f", pp, variant, e[1], self.arity(ty, variant)),)
                ty = fty
                variant = 0
            elif e[0] == "v":
                variant = e[1]
            elif e[0] == "i":
                iv = self.read_loc(st, ("L", fr.fid, e[1]), ())
                path = path + (("ix", iv),)
                ty = ty.t
            elif e[0] == "c":
                if e[2]:
                    cur = self.read_loc(st, root, path)
                    path = path + (("ix", sub(slen(cur), Int(e[1]))),)
                else:
                    path = path + (("ix", Int(e[1])),)
                ty = ty.t
            elif e[0] == "s" and e[3]:
                path = path + (("sl", e[1], e[2]),)
            else:
                raise Undecided("projection %s" % (e,))
        return root, path, ty

    def read_place(self, st, fr, place):
        root, path, ty = self.loc_of(st, fr, place)
        v = self.read_loc(st, root, path)
        if ty.k == "prim" and ty.s in SIGNEDPRIM and not is_int(v):
            SIGNED.add(v)
        return v, ty

    def content(self, st, v):
        """Value with `&mut` locations replaced by what they hold now."""
        if v[0] == "ref":
            return self.content(st, self.read_loc(st, v[1], v[2]))
        if ("D", v) in st.mem and st.mem[("D", v)] != v:
            return self.content(st, st.mem[("D", v)])
        if v[0] in ("adt",):
            return mk_adt(v[1], v[2], tuple(self.content(st, x) for x in v[3]))
        if v[0] == "tup":
            return mk_tup(tuple(self.content(st, x) for x in v[1]))
        if v[0] == "clo":
            return ("clo", v[1], tuple(self.content(st, x) for x in v[2]))
        return v

    # ------------------------------------------------------------- operands
    def operand(self, st, fr, op):
        """-> (value, type or None)"""
        if "copy" in op:
            return self.read_place(st, fr, op["copy"])
        if "move" in op:
            return self.read_place(st, fr, op["move"])
        if "fn" in op:
            return ("fndef", FnRef.of(op["fn"], fr.body)), None
        if "const" in op:
            c = op["const"]
            ty = fr.body.types[c["ty"]]
            v = self.const(c, ty, fr)
            if v[0] == "item":
                v = self.item(st, fr, v)
            return v, ty
        raise Undecided("operand")

    def item(self, st, fr, v):
        """the value of a constant with a body of its own"""
        b = self.p.bodies.get(v[1])
        if b is None or b.nargs or (b.trait is not None and b.self_ty is None) or b.df in fr.stack:
            return v
        os = self.call_body(st, b, [], fr.depth + 1, fr.stack)
        if len(os) != 1 or os[0].kind != "ret":
            return v
        st.mem.update({k: x for k, x in os[0].st.mem.items() if k not in st.mem})
        return os[0].val

    def const(self, c, ty, fr):
        if "str" in c:
            return Str(c["str"])
        if "chars" in c:
            return seq_lit(*[Char(x) for x in c["chars"]])
        if "bytes" in c:
            return ("bytes", tuple(c["bytes"]))
        v = c.get("v")
        if isinstance(v, bool):
            return B(v)
        if isinstance(v, dict):
            return Char(v["char"])
        if v == "zst":
            if ty.k == "tuple":
                return UNIT
            if ty.k == "adt":
                return ("adt", ty.path, 0, ())
            if ty.k == "fndef":
                return ("fndef", FnRef.of({"path": ty.path, "def": ty.df, "args": []}, fr.body))
            return ("op", "zst", Str(ty.g))
        if v == "closure":
            return ("clo", ty.df, ())
        if v is not None and ty.k == "prim" and ty.s in NUMPRIM:
            return Int(int(v))
        if v is not None and ty.k == "adt" and self.p.adts.get(ty.path, {}).get("kind") == "enum":
            # scalar enum constant
            for i, w in enumerate(self.p.adts[ty.path]["variants"]):
                if w["discr"] == v and not w["fields"]:
                    return ("adt", ty.path, i, ())
        if "item" in c:
            return ("item", c["item"])
        if "arr" in c:
            return self.const_arr(c["arr"])
        if v is not None:
            return ("op", "const", Str(str(v)), Str(ty.g))
        return ("unk", "const:" + ty.g, ("n", self.fresh()))

    def const_arr(self, a):
        def one(x):
            if isinstance(x, dict) and "char" in x:
                return Char(x["char"])
            if isinstance(x, bool):
                return B(x)
            return Int(int(x))
        return mk_seq(tuple(("e", one(x)) for x in a))

    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])[0]
        if k == "ref":
            if rv[2]:
                root, path, ty = self.loc_of(st, fr, rv[1])
                self.read_loc(st, root, path)
                return ("ref", root, path)
            return self.read_place(st, fr, rv[1])[0]
        if k == "agg":
            vals = [self.operand(st, fr, o)[0] for o in rv[2]]
            kk = rv[1]
            if kk == "tuple":
                return mk_tup(vals)
            if kk == "array":
                return mk_seq(tuple(("e", x) for x in vals))
            if isinstance(kk, dict) and "adt" in kk:
                return mk_adt(kk["adt"], kk["variant"], vals)
            if isinstance(kk, dict) and "closure" in kk:
                return ("clo", self.p.closure(kk["closure"], fr.body.given), tuple(vals))
            raise Undecided("aggregate")
        if k == "bin":
            a, ta = self.operand(st, fr, rv[2])
            b, tb = self.operand(st, fr, rv[3])
            return self.binop(st, rv[1], a, b, ta)
        if k == "un":
            a, ta = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                if ta is not None and ta.k == "prim" and ta.s == "bool":
                    return Not(a)
                return ("op", "bitnot", a)
            if rv[1] == "Neg":
                return sub(Int(0), a)
            if rv[1] == "PtrMetadata":
                return slen(self.content(st, a))
            return ("unk", rv[1], a)
        if k == "discr":
            v, ty = self.read_place(st, fr, rv[1])
            return ("discr", v, ty.path if ty.k == "adt" else None)
        if k == "cast":
            v, ty = self.operand(st, fr, rv[2])
            to = fr.body.types[rv[3]]
            if "Unsize" in rv[1] or "ReifyFnPointer" in rv[1] or "ClosureFnPointer" in rv[1] or "Transmute" in rv[1]:
                return v
            if rv[1].startswith("IntToInt"):
                if ty is not None and to.k == "prim" and ty.k == "prim":
                    if v[0] == "char":
                        return Int(wrapped(v[1], to.s)) if to.s != "char" else v
                    if is_int(v) and to.s == "char":
                        return Char(v[1])
                    if v[0] == "aff" and not v[2] and to.s in NUMPRIM and to.s != "char":
                        return Int(wrapped(v[1], to.s))
                    if self.fits(st, v, to.s, ty.s):
                        return v
                    WID = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "char": 32,
                           "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "bool": 8}
                    if WID.get(to.s, 0) >= WID.get(ty.s, 999) and ((ty.s in SIGNEDPRIM) == (to.s in SIGNEDPRIM) or ty.s not in SIGNEDPRIM):
                        return v
                return ("op", "cast", v, Str(to.g))
            return v if "Pointer" in rv[1] or "Reborrow" in rv[1] else ("op", "cast", v, Str(to.g))
        if k == "repeat":
            v = self.operand(st, fr, rv[1])[0]
            return ("op", "repeat", v, Int(rv[2] or 0))
        raise Undecided("rvalue %s" % k)

    def fits(self, st, v, to, of):
        """is the number `v` one of the type `to` for sure"""
        if to not in RANGES or of not in NUMPRIM:
            return False
        c, L = to_aff(v)
        lo, hi, _ = st.F.interval(L)
        lo = c if not L else None if lo is None else lo + c
        hi = c if not L else None if hi is None else hi + c
        if of not in SIGNEDPRIM and (lo is None or lo < 0):
            lo = 0
        if of in RANGES and (hi is None or hi > RANGES[of][1]):
            hi = RANGES[of][1]
        return lo is not None and hi is not None and RANGES[to][0] <= lo and hi <= RANGES[to][1]

    def binop(self, st, op, a, b, ty):
        num = ty is not None and ty.k == "prim" and ty.s in NUMPRIM
        if op in ("Lt", "Le", "Gt", "Ge") and num and ty.s in LARGEST:
            x, y = (a, b) if op in ("Lt", "Le") else (b, a)
            k = {v: n[1] for v, n in ((0, x), (1, y)) if is_int(n) or n[0] == "char"}
            if op in ("Le", "Ge") and (k.get(0, 1) <= 0 or k.get(1, -1) >= LARGEST[ty.s]):
                return TRUE
            if op in ("Lt", "Gt") and (k.get(1, 1) <= 0 or k.get(0, -1) >= LARGEST[ty.s]):
                return FALSE
        if op in ("Add", "AddUnchecked"):
            return add(a, b)
        if op in ("Sub", "SubUnchecked"):
            return sub(a, b)
        if op == "AddWithOverflow":
            return ("tup", (add(a, b), FALSE))
        if op == "SubWithOverflow":
            return ("tup", (sub(a, b), lt(a, b) if not (ty and ty.s in SIGNEDPRIM) else FALSE))
        if op in ("MulWithOverflow", "Mul"):
            m = self.mul(a, b)
            return ("tup", (m, FALSE)) if op != "Mul" else m
        if op == "Eq":
            return self.eq(a, b, ty)
        if op == "Ne":
            return Not(self.eq(a, b, ty))
        if op == "Lt":
            return lt(a, b)
        if op == "Le":
            return le(a, b)
        if op == "Gt":
            return lt(b, a)
        if op == "Ge":
            return le(b, a)
        if op == "BitAnd" and ty and ty.s == "bool":
            return And(a, b)
        if op == "BitOr" and ty and ty.s == "bool":
            return Or(a, b)
        if op == "BitXor" and ty and ty.s == "bool":
            return Or(And(a, Not(b)), And(Not(a), b))
        if op in ("Shl", "ShlUnchecked") and is_int(b) and 0 <= b[1] < 64:
            return self.mul(a, Int(1 << b[1]))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked", "BitAnd", "BitOr", "BitXor"):
            return ("unk", op, a, b)     # no normal form
        return ("op", op, a, b)

    def mul(self, a, b):
        if is_int(a):
            a, b = b, a
        if is_int(b):
            c, L = to_aff(a)
            return mk_aff(c * b[1], tuple((t, k * b[1]) for t, k in L))
        return ("op", "Mul") + tuple(sorted((a, b), key=repr))

    def eq(self, a, b, ty=None):
        if a == b:
            return TRUE
        while ty is not None and ty.k == "ref":
            ty = ty.t
        if (ty is not None and ty.k == "prim" and ty.s in NUMPRIM) or a[0] in ("aff", "char") or b[0] in ("aff", "char"):
            return eq_int(a, b)
        if ty is not None and ty.k == "prim" and ty.s == "bool":
            if a in (TRUE, FALSE):
                return b if a == TRUE else Not(b)
            if b in (TRUE, FALSE):
                return a if b == TRUE else Not(a)
            return Or(And(a, b), And(Not(a), Not(b)))
        if a[0] == "str" and b[0] == "str":
            return B(a[1] == b[1])
        for x, y in ((a, b), (b, a)):
            if x[0] == "adt" and x[1] in (OPT, RES):
                if y[0] == "adt":
                    if x[2] != y[2]:
                        return FALSE
                    r = TRUE
                    for i in range(len(x[3])):
                        r = And(r, self.eq(x[3][i], y[3][i], ty.args[0] if ty and ty.k == "adt" and ty.args else None))
                    return r
                r = ("isv", y, x[1], x[2])
                for i in range(len(x[3])):
                    r = And(r, self.eq(x[3][i], fld(y, x[1], x[2], i), ty.args[0] if ty and ty.k == "adt" and ty.args else None))
                return r
            if x[0] == "adt" and not x[3] and self.p.adts.get(x[1], {}).get("kind") == "enum":
                if y[0] == "adt":
                    return B(x[2] == y[2])
                return ("isv", y, x[1], x[2])
        if a[0] == "tup" and b[0] == "tup" and len(a[1]) == len(b[1]):
            r = TRUE
            for i in range(len(a[1])):
                r = And(r, self.eq(a[1][i], b[1][i], ty.args[i] if ty and ty.k == "tuple" else None))
            return r
        if repr(a) > repr(b):
            a, b = b, a
        return ("eq", a, b)

    # ------------------------------------------------------------- branching
    def branch(self, st, c, why=None):
        k = c[0]
        if k == "true":
            return [(st, True)]
        if k == "false":
            return [(st, False)]
        if k == "not":
            return [(s, not r) for s, r in self.branch(st, c[1], why)]
        if k == "and":
            out = []
            for s, r in self.branch(st, c[1], why):
                if r:
                    out += self.branch(s, c[2], why)
                else:
                    out.append((s, False))
            return out
        d = st.F.decide(c)
        if d is not None:
            return [(st, d)]
        out = []
        for val in (True, False):
            f = st.F.assume(c, val, self.p)
            if f is None:
                continue
            s = st.copy()
            s.F = f
            if why:
                s.trace = s.trace + ((why, c, val),)
            out.append((s, val))
        return out

    def fork_variant(self, st, v, path, why=None):
        """[(st, variant)] over the feasible variants of v"""
        k = st.F.variant(v)
        if k is not None:
            return [(st, k)]
        a = self.p.adts.get(path)
        if a is None:
            raise Undecided("variants of %s" % path)
        out = []
        for i in range(len(a["variants"])):
            f = st.F.assume(("isv", v, path, i), True, self.p)
            if f is None:
                continue
            s = st.copy()
            s.F = f
            if why:
                s.trace = s.trace + ((why, ("isv", v, path, i), True),)
            out.append((s, i))
        return out

    # ---------------------------------------------------------------- bodies
    def call_body(self, st, body, args, depth=0, stack=()):
        """Inline `body`; -> [Outcome]."""
        if depth > 40:
            raise Limit("inline depth")
        self.visited.add(body.df)
        fr = Frame()
        fr.body = body
        fr.fid = self.fresh()
        fr.depth = depth
        fr.stack = stack + (body.df,)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        outs = []
        for kind, s, x in self.region(st, fr, 0, None, None):
            if kind == "ret":
                outs.append(Outcome("ret", s, s.mem.get(("L", fr.fid, 0), UNIT)))
            elif kind == "panic":
                outs.append(Outcome("panic", s, x))
            else:
                raise Undecided("region exit " + kind)
        # drop this frame's locals
        for o in outs:
            o.st = o.st.copy()
            for r in [r for r in o.st.mem if r[0] == "L" and r[1] == fr.fid]:
                del o.st.mem[r]
        return outs

    def loops_of(self, body):
        if body._loops is not None:
            return body._loops
        succ = [self.succs(b) for b in body.blocks]
        color = {}
        order = []
        backs = []
        stack = [(0, iter(succ[0]))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) is None:
                    color[n] = 1
                    stack.append((n, iter(succ[n])))
                    break
                if color[n] == 1:
                    backs.append((b, n))
            else:
                color[b] = 2
                stack.pop()
        pred = {}
        for i, ss in enumerate(succ):
            for s in ss:
                pred.setdefault(s, []).append(i)
        loops = {}
        for src, h in backs:
            L = loops.setdefault(h, {h})
            work = [src]
            while work:
                x = work.pop()
                if x in L:
                    continue
                L.add(x)
                work += pred.get(x, [])
        body._loops = loops
        return loops

    def succs(self, blk):
        if blk.get("cleanup"):
            return []
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        return []

    def region(self, st, fr, start, head_, L):
        """Run from block `start`.  Yields (kind, st, x): ret / panic / back
        (reached head_) / exit (left L to block x)."""
        out = []
        work = [(start, st, True)]
        body = fr.body
        loops = self.loops_of(body)
        steps = 0
        while work:
            b, s, first = work.pop()
            steps += 1
            self.paths += 1
            if steps > self.max_paths or self.paths > 200000:
                raise Limit("too many paths in %s" % body.df)
            if not first:
                if b == head_:
                    out.append(("back", s, None))
                    continue
                if L is not None and b not in L:
                    out.append(("exit", s, b))
                    continue
            if b in loops and not (b == head_ and first):
                for kind, s2, x in self.mir_loop(s, fr, b, loops[b]):
                    if kind == "exit":
                        if x == head_:
                            out.append(("back", s2, None))
                        elif L is not None and x not in L:
                            out.append(("exit", s2, x))
                        else:
                            work.append((x, s2, True) if x not in loops else (x, s2, False))
                    else:
                        out.append((kind, s2, x))
                continue
            for kind, s2, x in self.block(s, fr, b):
                if kind == "goto":
                    work.append((x, s2, False))
                elif kind == "retry":
                    # an element is passed over by the call that starts the round
                    if not self.starts(body, head_, b):
                        raise Undecided("filtered iterator in a loop")
                    out.append(("back", s2, None))
                else:
                    out.append((kind, s2, x))
        return out

    def starts(self, body, h, b):
        """nothing happens between the head of the loop and the call that ends block b"""
        while h is not None:
            blk = body.blocks[h]
            if any(s[0] == "setd" or s[0] == "=" and s[2][0] != "ref" for s in blk["s"]):
                return False
            if h == b:
                return True
            h = blk["t"][1] if blk["t"][0] == "goto" else None
        return False

    def as_number(self, st, fr, rv):
        """[(state, number)] of a truth value or a variant cast to a number"""
        v, ty = self.operand(st, fr, rv[2])
        to = fr.body.types[rv[3]]
        if to.k != "prim" or to.s not in NUMPRIM:
            return None
        if ty is not None and ty.k == "prim" and ty.s == "bool":
            return [(s, Int(1 if r else 0)) for s, r in self.branch(st, v)]
        if v[0] == "discr" and v[2] in self.p.adts:
            vs = self.p.adts[v[2]]["variants"]
            return [(s, Int(int(vs[i]["discr"]))) for s, i in self.fork_variant(st, v[1], v[2])]
        return None

    def block(self, st, fr, b, start=0):
        blk = fr.body.blocks[b]
        st = st.copy()
        for i, s in enumerate(blk["s"]):
            if i < start:
                continue
            if s[0] == "=" and s[2][0] == "cast":
                cases = self.as_number(st, fr, s[2])
                if cases is not None:
                    out = []
                    for s2, v in cases:
                        s2 = s2.copy()
                        root, path, ty = self.loc_of(s2, fr, s[1])
                        self.write_loc(s2, root, path, v)
                        out += self.block(s2, fr, b, i + 1)
                    return out
            if s[0] == "=":
                v = self.rvalue(st, fr, s[2])
                root, path, ty = self.loc_of(st, fr, s[1])
                self.write_loc(st, root, path, v)
            elif s[0] == "setd":
                raise Undecided("set discriminant")
        t = blk["t"]
        k = t[0]
        loc = blk.get("loc")
        if k == "goto":
            return [("goto", st, t[1])]
        if k == "ret":
            return [("ret", st, None)]
        if k == "unreachable":
            return []
        if k == "drop":
            return [("goto", st, t[2])]
        if k == "assert":
            c, _ = self.operand(st, fr, t[1])
            res = []
            for s, r in self.branch(st, c):
                if r == t[2]:
                    res.append(("goto", s, t[4]))
                else:
                    res.append(("panic", s, ("assert", t[3])))
            return res
        if k == "switch":
            return self.switch(st, fr, t, loc)
        if k == "call":
            return self.call_term(st, fr, t, loc)
        if k == "unwind":
            return []
        raise Undecided("terminator %s" % k)

    def switch(self, st, fr, t, loc):
        v, ty = self.operand(st, fr, t[1])
        ty = fr.body.types[t[4]]
        other_ok = fr.body.blocks[t[3]]["t"][0] != "unreachable" or fr.body.blocks[t[3]]["s"]
        if v[0] == "discr":
            x, path = v[1], v[2]
            a = self.p.adts.get(path)
            if a is None:
                raise Undecided("switch on %s" % path)
            dmap = {w["discr"]: i for i, w in enumerate(a["variants"])}
            tg = [(dmap[d], b) for d, b in t[2] if d in dmap]
            k = st.F.variant(x)
            if k is not None:
                for i, b in tg:
                    if i == k:
                        return [("goto", st, b)]
                return [("goto", st, t[3])]
            res = []
            f = st.F
            for i, b in tg:
                g = f.assume(("isv", x, path, i), True, self.p)
                if g is not None:
                    s = st.copy()
                    s.F = g
                    s.trace = s.trace + ((loc, ("isv", x, path, i), True),)
                    res.append(("goto", s, b))
                f2 = f.assume(("isv", x, path, i), False, self.p)
                if f2 is None:
                    f = None
                    break
                f = f2
            if f is not None and other_ok and len(tg) < len(a["variants"]):
                s = st.copy()
                s.F = f
                s.trace = s.trace + ((loc, ("isv", x, path, tuple(i for i, _ in tg)), False),)
                res.append(("goto", s, t[3]))
            return res
        if ty.k == "prim" and ty.s == "bool":
            res = []
            for s, r in self.branch(st, v, loc):
                tgt = t[3]
                for d, b in t[2]:
                    if (d == "0") == (not r) and d in ("0", "1"):
                        tgt = b
                res.append(("goto", s, tgt))
            return res
        # integers / chars
        if v[0] in ("aff", "char") and not (v[0] == "aff" and v[2]):
            n = v[1]
            for d, b in t[2]:
                if int(d) == n:
                    return [("goto", st, b)]
            return [("goto", st, t[3])]
        res = []
        cur = st
        for d, b in t[2]:
            c = eq_int(v, Int(int(d)))
            f = cur.F.assume(c, True, self.p)
            if f is not None:
                s = cur.copy()
                s.F = f
                s.trace = s.trace + ((loc, c, True),)
                res.append(("goto", s, b))
            g = cur.F.assume(c, False, self.p)
            if g is None:
                cur = None
                break
            cur = cur.copy()
            cur.F = g
        if cur is not None and other_ok:
            res.append(("goto", cur, t[3]))
        return res

    # ------------------------------------------------------------------ loops
    def diff(self, old, new, path=()):
        if old == new:
            return []
        if old[0] == "it" or new[0] == "it" or new[0] == "ref" or old[0] == "ref":
            return [path]
        if new[0] == "tup" and (old[0] != "tup" or len(old[1]) == len(new[1])):
            if new[1] and old[0] in ("tup", "fld", "sym", "phi", "elem", "ev", "D"):
                r = []
                n = len(new[1])
                for i in range(n):
                    r += self.diff(fld(old, "()", 0, i), new[1][i], path + (("f", "()", 0, i, n),))
                return r
            return [path]
        if new[0] == "adt":
            a = self.p.adts.get(new[1])
            struct = a is not None and a["kind"] == "struct"
            same = old[0] == "adt" and old[1] == new[1] and old[2] == new[2]
            if same or (struct and old[0] in ("fld", "sym", "phi", "elem", "ev")):
                r = []
                n = len(new[3])
                for i in range(n):
                    r += self.diff(fld(old, new[1], new[2], i), new[3][i],
                                   path + (("f", new[1], new[2], i, n),))
                return r
        if old[0] == "adt" and self.p.adts.get(old[1], {}).get("kind") == "struct" and new[0] not in ("adt",) and len(old[3]) > 0:
            r = []
            n = len(old[3])
            for i in range(n):
                r += self.diff(old[3][i], fld(new, old[1], old[2], i), path + (("f", old[1], old[2], i, n),))
            return r
        if new[0] == "clo" and old[0] == "clo" and new[1] == old[1]:
            r = []
            for i in range(len(new[2])):
                r += self.diff(old[2][i], new[2][i], path + (("f", "clo", 0, i, len(new[2])),))
            return r
        return [path]

    def loop_fix(self, st, runner, where):
        """Widen until stable, then return (info, exits).  `runner(st1, id)`
        -> [(tag, st, x)] with tag 'back' for a completed iteration."""
        lid = self.fresh()
        M = {}
        grows = set()
        base = st
        for _ in range(12):
            st1 = base.copy()
            st1.ev = ()
            phis = {}
            for (root, path), entry in M.items():
                if entry[0] == "it":
                    ph = ("it", "loop", lid, entry)
                elif (root, path) in grows:
                    ph = grown(entry)
                else:
                    ph = ("phi", lid, root, path)
                    phis[ph] = entry
                    if is_signed_term(entry):
                        SIGNED.add(ph)
                self.write_loc(st1, root, path, ph)
            snap = dict(st1.mem)
            outs = runner(st1.copy(), lid)
            grew = False
            for tag, s, x in outs:
                if tag != "back":
                    continue
                for root in snap:
                    if root not in s.mem:
                        continue
                    if root[0] == "L" and s.mem[root][0] == "uninit":
                        continue
                    for pth in self.diff(snap[root], s.mem[root]):
                        cur = self.read_loc(st1, root, pth)
                        if cur[0] == "it" and cur[1] == "loop":
                            nv = self.read_loc(s, root, pth)
                            if nv == ("it", "loopnext", lid, cur[3]):
                                continue
                            raise Undecided("iterator advanced irregularly in %s" % where)
                        if cur[0] == "phi" and cur[1] == lid:
                            continue
                        # a prefix already widened?
                        key = (root, pth)
                        if key in M:
                            continue
                        entry = self.read_loc(base, root, pth)
                        for k in [k for k in M if k[0] == root and k[1][: len(pth)] == pth]:
                            del M[k]
                        M[key] = entry
                        # state that only ever grows, opaquely: no need to tell the iterations apart
                        if self.read_loc(s, root, pth) == grown(entry):
                            grows.add(key)
                        else:
                            grows.discard(key)
                        grew = True
            if not grew:
                break
        else:
            raise Undecided("loop does not stabilise in %s" % where)
        info = LoopInfo()
        info.early = True
        info.id = lid
        info.where = where
        info.st1 = st1
        info.entry = st
        info.phis = {}
        info.its = {k: e for k, e in M.items() if e[0] == "it"}
        info.backs = []
        for tag, s, x in outs:
            if tag != "back":
                continue
            delta = {d for d in s.F.items() - st1.F.items() if not self.always_ends(d) and not only_panics(d, st1, outs)}
            info.backs.append((s, delta, s.ev))
        for ph, entry in phis.items():
            vals = [self.read_loc(s, ph[2], ph[3]) for s, _, _ in info.backs]
            info.phis[ph] = (entry, vals)
        bases = []
        for e in info.its.values():
            bases.append(self.it_base(e))
        info.S = bases[0] if len(set(bases)) == 1 else (("multi",) + tuple(bases) if bases else None)
        self.loops[lid] = info
        exits = [(tag, s, x) for tag, s, x in outs if tag != "back"]
        return info, exits

    def counters(self, info):
        """phi -> (value during the iteration, final value) of plain counters"""
        S = left_base(info.S)
        n = slen(S)
        if S != info.S:
            F, T_ = info.entry.F, info.S
            while T_[0] == "zip":
                if F.decide(eq_int(slen(T_[2]), n)) is not True:
                    n = ("len", info.S)
                    break
                T_ = T_[1]
        simple = {}
        for ph, (entry, vals) in info.phis.items():
            d = {sub(v, ph) for v in vals} if vals and entry[0] in ("aff",) or ph_is_int(vals, ph) else None
            if d is not None and len(d) == 1:
                c = next(iter(d))
                if is_int(c):
                    simple[ph] = (add(entry, self.mul(("idx", info.id, S), c)), add(entry, self.mul(n, c)))
        return simple

    def finals(self, info):
        """phi -> value when the iterator is exhausted."""
        S = info.S
        res = {}
        if S is None:
            return res
        simple = self.counters(info)
        inner = {ph: a for ph, (a, _) in simple.items()}
        firsts = {ph for ph, (entry, vals) in info.phis.items() if entry == TRUE and vals and all(v == FALSE for v in vals)}
        # one text the first time, another from then on
        switches = {ph: (entry, vals[0]) for ph, (entry, vals) in info.phis.items()
                    if entry[0] == "str" and vals and vals[0][0] == "str" and all(v == vals[0] for v in vals)}
        elem = ("elem", info.id, S)
        idx = ("idx", info.id, S)
        for ph, (entry, vals) in info.phis.items():
            if ph in simple:
                res[ph] = simple[ph][1]
                continue
            if not vals:
                res[ph] = entry
                continue
            if all(v == ph or v[0] == "union" and ph in T.leaves(v) for v in vals) and any(v != ph for v in vals):
                ext = [tuple(("e", x[1]) if x[0] == "single" else ("all", x) for x in T.leaves(v) if x != ph) if v != ph else ()
                       for v in vals]
                ext = [subst(("x",) + e, inner)[1:] for e in ext]
                if not any(contains(e, p) for e in ext for p in info.phis):
                    res[ph] = T.union(entry, T.set_of(mk_seq(self.ext_parts(info, S, elem, idx, ext))))
                    continue
            ok = all(parts(v)[0] == ("all", ph) for v in vals if parts(v)) and all(parts(v) for v in vals)
            if ok and (entry[0] in ("seq",) or any(v[0] == "seq" for v in vals)):
                ext = [subst(("x",) + parts(v)[1:], inner)[1:] for v in vals]
                lead = None
                if switches and ext[0] and all(e[:1] == ext[0][:1] for e in ext):
                    p = ext[0][0]
                    k = p[1][2] if p[0] == "e" and p[1][0] == "shown" and p[1][1] == "display" and not p[1][3] else None
                    if k in switches and not any(contains(e[1:], p) for e in ext for p in switches):
                        a, b = switches[k]
                        if a[1] and info.entry.F.decide(emptiness(S)) is not False:
                            lead = None
                        else:
                            lead = (("e", ("txt", a[1])),) if a[1] else ()
                            ext = [(("e", ("sep", seq_lit(("txt", b[1])))),) + e[1:] for e in ext]
                if lead is not None:
                    res[ph] = mk_seq(parts(entry) + lead + self.ext_parts(info, S, elem, idx, ext))
                    continue
                sep = separated(info, ext, firsts)
                if sep is not None:
                    res[ph] = mk_seq(parts(entry) + self.map_parts(S, elem, idx, sep))
                else:
                    res[ph] = mk_seq(parts(entry) + self.ext_parts(info, S, elem, idx, ext))
                continue
            if all(v[0] == "put" and v[1] == ph for v in vals) and len(vals) == len(info.backs):
                ext = [subst((("e", mk_tup(v[2:])),), inner) for v in vals]
                if all(e == ext[0] for e in ext) and not any(contains(ext[0], p) for p in info.phis):
                    res[ph] = T.mextend(entry, mk_seq(self.map_parts(S, elem, idx, ext[0])))
                    continue
            res[ph] = ("fold", info.id, ph)
        return res

    def ext_parts(self, info, S, elem, idx, ext):
        """what all iterations together add to a sequence, each adding ext[path]"""
        if all(e == ext[0] for e in ext):
            return self.map_parts(S, elem, idx, ext[0])
        cases = {(conj(d), e) for (s, d, _), e in zip(info.backs, ext) if e}
        h = max(height(c) for c in cases) + 1
        cases = T.canon_cases(tuple(subst(c, {elem: ("@", h), idx: ("@i", h)}) for c in cases))
        return (("mapc", S, cases),)

    def map_parts(self, S, elem, idx, ext):
        if not ext:
            return ()
        if S[0] != "seq" or contains(ext, idx):
            return (mk_map(S, elem, idx, ext),)
        out = ()
        h = height(ext) + 1
        for p in parts(S):
            if p[0] == "e":
                out += subst(("x",) + ext, {elem: p[1]})[1:]
            elif p[0] == "all":
                e2 = ("elem", -1, p[1])
                out += (mk_map(p[1], e2, None, subst(("x",) + ext, {elem: e2})[1:]),)
            elif p[0] == "map" and len(p[2]) == 1 and p[2][0][0] == "e":
                e2 = ("elem", -1, p[1])
                inner = open_map(p, e2)[0][1]
                out += (mk_map(p[1], e2, None, subst(("x",) + ext, {elem: inner})[1:]),)
            else:
                return (mk_map(S, elem, idx, ext),)
        return out

    def mir_loop(self, st, fr, h, L):
        where = "%s bb%d" % (fr.body.df, h)

        def runner(s, lid):
            return self.region(s, fr, h, h, L)

        info, exits = self.loop_fix(st, runner, where)
        return self.finish_loop(st, info, exits)

    def always_ends(self, fact):
        """a loop without early exit has been run to its end"""
        for f in fact if isinstance(fact, tuple) else ():
            if isinstance(f, tuple) and len(f) == 3 and f[0] == "exhausted":
                info = self.loops.get(f[1])
                return info is not None and info.early is False
        return False

    def finish_loop(self, st, info, exits):
        fin = inner = None
        out = []
        counted = {ph: a for ph, (a, _) in self.counters(info).items()} if info.S is not None and info.phis else {}
        if counted:
            info.backs = [(self.subst_state(s, counted), subst(d, counted), e) for s, d, e in info.backs]
            info.phis = {ph: (a, vals if ph in counted else [subst(v, counted) for v in vals]) for ph, (a, vals) in info.phis.items()}
        exits = self.indexed_update(info, exits)
        exits = self.flag_loop(info, exits)
        info.early = any(tag != "panic" and not any(k[0] == "exhausted" and k[1] == info.id and v for k, v in s.F.bl.items())
                         for tag, s, x in exits)
        meet = self.meet_search(info)
        member = self.member_search(info, exits)
        if member is not None and member[2]:
            # it matters where it is found; still, whether it is there follows
            base, exits_ = info.S, exits
            while base[0] == "rev":
                base = base[1]
            exits = []
            for tag, s, x in exits_:
                if tag != "panic":
                    ex = any(k[0] == "exhausted" and k[1] == info.id and v for k, v in s.F.bl.items())
                    s = s.copy()
                    s.F = s.F.assume(("in", member[1], base), not ex, self.p)
                    if s.F is None:
                        continue
                exits.append((tag, s, x))
            member = None
        for tag, s, x in exits:
            s = s.copy()
            ex = any(k[0] == "exhausted" and k[1] == info.id and v for k, v in s.F.bl.items())
            if meet is not None:
                F = s.F.copy()
                hit = F.bl.pop(("in", ("elem", info.id, info.S), meet), None)
                if ex or hit:
                    F = assume_all(F, T.disjoint(info.S, meet), ex, self.p)
                    if F is None:
                        continue
                    s.F = F.copy()
                    s.F.bl.pop(("exhausted", info.id, info.S), None)
                    out.append((tag, s, x))
                    continue
            if member is not None and tag != "panic":
                key, c, _ = member
                s.F = s.F.copy()
                (s.F.iv if key[0] == "iv" else s.F.bl).pop(key[1], None)
                s.F.bl.pop(("exhausted", info.id, info.S), None)
                F = assume_all(s.F, ("in", c, info.S), not ex, self.p)
                if F is not None:
                    s.F = F
                    e = ("elem", info.id, info.S)
                    out.append((tag, self.subst_state(s, {e: c}), subst(x, {e: c}) if isinstance(x, tuple) else x))
                continue
            pre = st.ev + (("loop", info.id, "done" if ex else "mid"),)
            mu = self.mutloops.get(info.id)
            if mu is not None:
                if ex:
                    self.write_loc(s, mu[2], mu[3], self.mut_result(info, mu))
                else:
                    self.write_loc(s, mu[2], mu[3], ("unk", "partially updated", mu[4]))
            if ex and info.S is not None:
                if fin is None:
                    fin = self.finals(info)
                if fin:
                    for r in list(s.mem):
                        s.mem[r] = subst(s.mem[r], fin)
                    s.ev = subst(s.ev, fin)
                    x = subst(x, fin) if isinstance(x, tuple) else x
            else:
                if inner is None:
                    inner = self.counters(info) if info.S is not None else {}
                    inner = {ph: a for ph, (a, _) in inner.items()}
                if inner:
                    s = self.subst_state(s, inner)
                    x = subst(x, inner) if isinstance(x, tuple) else x
                if s.F.bl.get(FALSE) or any(b is not None and a is not None and a > b for a, b, _ in map(s.F.interval, s.F.iv)):
                    continue
                if info.S is not None and begun(s.F, info):
                    idx, n = ("idx", info.id, left_base(info.S)), slen(left_base(info.S))
                    F = s.F
                    for c in (le(Int(1), n), lt(idx, n)):
                        F = F and assume_all(F, c, True, self.p)
                    if F is None:
                        continue
                    s.F = F
                s.F = s.F.copy()
                s.F.bl[("exhausted", info.id, info.S or ("none",))] = False
            s.ev = pre + s.ev
            s.trace = st.trace + s.trace[len(st.trace):]
            out.append((tag, s, x))
        return out

    def indexed_update(self, info, exits):
        """`for i in 0..s.len() { .. s[i] = v .. }` as `for x in s.iter_mut() { .. *x = v .. }`"""
        if info.S is None or self.mutloops.get(info.id) is not None:
            return exits
        S, lid = info.S, info.id
        elem, idx = ("elem", lid, S), ("idx", lid, S)
        for ph, (entry, vals) in info.phis.items():
            own = [v[0] == "store" and v[1] == ph and v[2] == idx for v in vals]
            if ph[0] != "phi" or entry != S or not any(own) or not all(o or v == ph for o, v in zip(own, vals)):
                continue
            m = {T.nth(ph, idx): elem, slen(ph): slen(S)}
            known = {idx, slen(S)}      # idx < s.len()
            new = [subst(v[3], m) if o else elem for o, v in zip(own, vals)]
            backs = [(self.subst_state(s, m), d, subst(ev, m)) for s, d, ev in info.backs]
            outs = [(tag, self.subst_state(s, m), subst(x, m) if isinstance(x, tuple) else x) for tag, s, x in exits]
            phis = {p: (e, [subst(v, m) for v in vs]) for p, (e, vs) in info.phis.items() if p != ph}

            def clean(s):
                s.mem = dict(s.mem)
                if any(contains(k, ph) for g in (s.F.bl, s.F.iv, s.F.var) for k in g) or contains(s.ev, ph):
                    return False
                return not any(contains(v, ph) for r, v in s.mem.items() if r != ph[2])
            if any(contains(v, ph) for v in new) or any(contains(v, ph) for _, vs in phis.values() for v in vs) \
                    or not all(clean(s) for s, _, _ in backs) or not all(tag == "panic" or clean(s) for tag, s, _ in outs):
                continue
            for (s, d, ev), v in zip(backs, new):
                self.write_loc(s, ph[2], ph[3], entry)
                s.mem[("E", lid)] = v
            for s in [s for s, _, _ in backs] + [s for _, s, _ in outs]:
                s.F = s.F.copy()
                s.F.iv = {k: v for k, v in s.F.iv.items() if not ({t for t, _ in k} == known and v[:2] in ((None, -1), (1, None)))}
            base = info.st1.F.items()
            info.backs = [(s, {x for x in s.F.items() - base if not self.always_ends(x)}, ev) for s, d, ev in backs]
            info.phis = phis
            self.mutloops[lid] = ("it", "mutseq", ph[2], ph[3], entry)
            res = []
            for tag, s, x in outs:
                if tag == "panic":      # s keeps its length
                    s = self.subst_state(s, {ph: entry})
                    F = s.F if not s.F.bl.get(FALSE) else None
                    for c in (le(Int(1), slen(S)), lt(idx, slen(S))):
                        F = F and assume_all(F, c, True, self.p)
                    if F is None:
                        continue
                self.write_loc(s, ph[2], ph[3], entry)
                res.append((tag, s, x))
            return res
        return exits

    def flag_loop(self, info, exits):
        """a loop that only raises a flag for some elements is a search for such
        an element: as if it were left as soon as the flag is raised"""
        if len(info.phis) != 1 or info.S is None or self.mutloops.get(info.id) is not None:
            return exits
        (ph, (entry, _)), = info.phis.items()
        if entry not in (TRUE, FALSE) or ph[0] != "phi":
            return exits
        raised = Not(entry)

        def done(s):
            return any(k[0] == "exhausted" and k[1] == info.id and v for k, v in s.F.bl.items())
        if any(tag != "panic" and not done(s) for tag, s, x in exits):
            return exits
        stay, hits = [], []
        for s, d, ev in info.backs:
            v = self.read_loc(s, ph[2], ph[3])
            f = s.F.bl.get(ph)
            if ev or (f is not None and f == (raised == TRUE)):
                if ev or v not in (ph, raised):
                    return exits
                continue
            v = subst(v, {ph: entry})
            s = self.subst_state(s, {ph: entry})
            if s.F.bl.get(FALSE):
                continue
            for s2, b in self.branch(s, v):
                (hits if b == (raised == TRUE) else stay).append(s2)
        if not hits or any(contains(t, ph) for x in stay + hits for t in x.F.bl):
            return exits
        base = subst_facts_of(info.st1.F, {ph: entry})
        info.phis = {}
        info.backs = []
        for s in stay:
            delta = {d for d in s.F.items() - base.items() if not self.always_ends(d)}
            info.backs.append((s, delta, ()))
        out = []
        for tag, s, x in exits:
            if tag == "panic":
                out.append((tag, self.subst_state(s, {ph: entry}), x))
                continue
            s0 = self.subst_state(s, {ph: entry})
            if not s0.F.bl.get(FALSE):
                out.append((tag, s0, subst(x, {ph: entry}) if isinstance(x, tuple) else x))
            s1 = self.subst_state(s, {ph: raised})
            if s1.F.bl.get(FALSE):
                continue
            for h in hits:
                s2 = s1.copy()
                s2.F = h.F.copy()
                out.append((tag, s2, subst(x, {ph: raised}) if isinstance(x, tuple) else x))
        return out

    def meet_search(self, info):
        """a stateless loop that goes on exactly while the elements of S are not
        members of B decides whether S and B are disjoint: -> B"""
        if info.phis or info.S is None or len(info.backs) != 1:
            return None
        elem = ("elem", info.id, info.S)
        d = [x for x in info.backs[0][1] if x[0] != "bl" or x[1][0] != "exhausted"]
        if len(d) != 1 or d[0][0] != "bl" or d[0][2] is not False:
            return None
        a = d[0][1]
        if a[0] != "in" or a[1] != elem or contains(a[2], elem):
            return None
        return a[2]

    def member_search(self, info, exits):
        """a stateless loop that goes on exactly while the elements of S differ from
        c decides whether c is in S: -> (fact, c)"""
        if info.phis or info.S is None or len(info.backs) != 1 or self.mutloops.get(info.id) is not None:
            return None
        elem, idx = ("elem", info.id, info.S), ("idx", info.id, info.S)
        d = [x for x in info.backs[0][1] if x[0] != "bl" or x[1][0] != "exhausted"]
        if len(d) != 1 or info.backs[0][2]:
            return None
        d = d[0]
        if d[0] == "iv":
            if d[2][0] is not None or d[2][1] is not None or len(d[2][2]) != 1:
                return None
            k = [n for t, n in d[1] if t == elem]
            if k not in ([1], [-1]):
                return None
            c = mk_aff(k[0] * list(d[2][2])[0], [(t, -n * k[0]) for t, n in d[1] if t != elem])
        elif d[0] == "bl" and d[2] is False and d[1][0] == "eq" and elem in d[1][1:]:
            c = d[1][2] if d[1][1] == elem else d[1][1]
        else:
            return None
        if contains(c, elem) or contains(c, idx):
            return None
        where = False
        for tag, s, x in exits:
            ex = any(k[0] == "exhausted" and k[1] == info.id and v for k, v in s.F.bl.items())
            hit = s.F.iv.get(d[1]) == (list(d[2][2])[0], list(d[2][2])[0], frozenset()) if d[0] == "iv" else s.F.bl.get(d[1]) is True
            if tag != "panic" and not ex and not hit:
                return None
            if (isinstance(x, tuple) and contains(x, idx)) or any(contains(v, idx) for v in s.mem.values()):
                where = True
        return d[:2], c, where

    def mut_result(self, info, mu):
        """contents of a slice after `for x in slice.iter_mut() { .. }`"""
        S = info.S
        elem, idx = ("elem", info.id, S), ("idx", info.id, S)
        vals = [self.read_loc(s, ("E", info.id), ()) for s, _, _ in info.backs]
        if not vals:
            return S
        if any(has(v, "phi") for v in vals):
            return ("unk", "update depending on earlier elements", S)
        if all(v == vals[0] for v in vals):
            if vals[0] == elem:
                return S
            return mk_seq(self.map_parts(S, elem, idx, (("e", vals[0]),)))
        cases = tuple(sorted({(conj(d), (("e", v),)) for (s, d, _), v in zip(info.backs, vals)}, key=repr))
        h = max(height(c) for c in cases) + 1
        return mk_seq((("mapc", S, subst(cases, {elem: ("@", h), idx: ("@i", h)})),))

    # -------------------------------------------------------------- iterators
    def it_base(self, it):
        k = it[1]
        if k == "seq":
            return T.base_view(it[2])[0]
        if k == "mutseq":
            return it[4]
        if k in ("map", "filter", "filter_map", "flat_map", "enum", "enumr", "peek", "take_while",
                 "skip_while", "inspect", "map_while"):
            return self.it_base(it[2])
        if k == "zip":
            a, b = self.it_base(it[2]), self.it_base(it[3])
            return a if a == b else ("zip", a, b)
        if k in ("loop", "loopnext"):
            return self.it_base(it[3])
        raise Undecided("iterator %s" % k)

    def generic_elem(self, st, it, lid):
        """[(st, tag, value)] tag: 'some' | 'skip' | 'stop' | 'panic'"""
        k = it[1]
        if k == "seq":
            return [(st, "some", T.base_view(it[2])[1](lid))]
        if k == "mutseq":
            st = st.copy()
            st.mem[("E", lid)] = ("elem", lid, it[4])
            self.mutloops[lid] = it
            return [(st, "some", ("ref", ("E", lid), ()))]
        if k == "peek":
            return self.generic_elem(st, it[2], lid)
        if k in ("enum", "enumr"):
            out = []
            for s, tag, v in self.generic_elem(st, it[2], lid):
                if tag == "some":
                    i = ("idx", lid, left_base(self.it_base(it[2])))
                    i = add(it[3], i) if k == "enum" else sub(sub(it[3], Int(1)), i)
                    v = mk_tup((i, v))
                out.append((s, tag, v))
            return out
        if k == "zip":
            out = []
            for s, tag, v in self.generic_elem(st, it[2], lid):
                for s2, tag2, v2 in self.generic_elem(s, it[3], lid):
                    if tag == tag2 == "some":
                        out.append((s2, "some", ("tup", (v, v2))))
                    else:
                        raise Undecided("zip of filtered iterators")
            return out
        if k in ("map", "filter", "filter_map", "inspect"):
            out = []
            for s, tag, v in self.generic_elem(st, it[2], lid):
                if tag != "some":
                    out.append((s, tag, v))
                    continue
                for s2, r in self.call_value(s, it[3], (v,)):
                    if r is PANIC:
                        out.append((s2, "panic", None))
                    elif k == "map":
                        out.append((s2, "some", r))
                    elif k == "inspect":
                        out.append((s2, "some", v))
                    elif k == "filter":
                        for s3, b in self.branch(s2, r):
                            out.append((s3, "some" if b else "skip", v))
                    else:
                        for s3, i in self.fork_variant(s2, r, OPT):
                            out.append((s3, "some", fld(r, OPT, 1, 0)) if i == 1 else (s3, "skip", None))
            return out
        if k in ("take_while", "map_while"):
            out = []
            for s, tag, v in self.generic_elem(st, it[2], lid):
                if tag != "some":
                    out.append((s, tag, v))
                    continue
                for s2, r in self.call_value(s, it[3], (v,)):
                    if r is PANIC:
                        out.append((s2, "panic", None))
                    elif k == "take_while":
                        for s3, b in self.branch(s2, r):
                            out.append((s3, "some" if b else "stop", v))
                    else:
                        for s3, i in self.fork_variant(s2, r, OPT):
                            out.append((s3, "some", fld(r, OPT, 1, 0)) if i == 1 else (s3, "stop", None))
            return out
        if k in ("flat_map",):
            raise Undecided("flat_map element")
        raise Undecided("iterator element %s" % k)

    def iterate(self, st, it, step, where="iter"):
        """Consume iterator `it`; step(st, elem) -> [(tag, st, x)] with tag
        'back' or anything else (an early exit).  -> [(tag, st, x)] where
        exhaustion has tag 'done'."""
        it = self.simplify_it(st, it)
        if it[1] == "chain":
            out = []
            for tag, s, x in self.iterate(st, it[2], step, where):
                if tag == "done":
                    out += self.iterate(s, it[3], step, where)
                else:
                    out.append((tag, s, x))
            return out
        S = self.it_base(it)
        ps = parts(S)
        if all(p[0] == "e" for p in ps) and len(ps) <= 12 and it[1] in ("seq", "map", "enum", "peek", "filter", "filter_map", "enumr", "inspect", "take_while", "map_while"):
            states = [st]
            out = []
            for n, p in enumerate(ps):
                nxt = []
                for s in states:
                    lid = self.fresh()
                    for s2, tag, v in self.generic_elem(s, it, lid):
                        m = {("elem", lid, S): p[1], ("idx", lid, S): Int(n)}
                        s2 = self.subst_state(s2, m)
                        if tag == "skip":
                            nxt.append(s2)
                        elif tag == "stop":
                            out.append(("done", s2, None))
                        elif tag == "panic":
                            out.append(("panic", s2, None))
                        else:
                            for t3, s3, x in step(s2, subst(v, m)):
                                if t3 == "back":
                                    nxt.append(s3)
                                else:
                                    out.append((t3, s3, x))
                states = nxt
                if len(states) > 400:
                    raise Limit("literal iteration")
            return [("done", s, None) for s in states] + out

        def runner(s, lid):
            outs = []
            for s2, tag, v in self.generic_elem(s.copy(), it, lid):
                if tag == "skip":
                    outs.append(("back", s2, None))
                elif tag == "stop":
                    outs.append(("done", s2, None))
                elif tag == "panic":
                    outs.append(("panic", s2, None))
                else:
                    for r in step(s2, v):
                        outs.append(r)
            d = s.copy()
            f = d.F.assume(("exhausted", lid, S), True)
            d.F = f
            outs.append(("done", d, None))
            return outs

        tmp = ("IT", self.fresh())
        st = st.copy()
        info_hold = {}

        info, exits = self.loop_fix(st, runner, where)
        info.S = S
        return self.finish_loop(st, info, exits)

    def subst_state(self, st, m):
        s = st.copy()
        for r in list(s.mem):
            s.mem[r] = subst(s.mem[r], m)
        s.ev = subst(s.ev, m)
        F = s.F.copy()
        F.var = {subst(t, m): v for t, v in F.var.items()}
        F.vp = {subst(t, m): v for t, v in F.vp.items()}
        F.nvar = {subst(t, m): v for t, v in F.nvar.items()}
        F.bl = T.subst_bl(F.bl, m)
        F.iv, ok = T.subst_iv(F.iv, m)
        if not ok:
            F.bl[FALSE] = True
        s.F = F
        return s

    def simplify_it(self, st, it):
        if it[0] != "it":
            return ("it", "seq", it)
        if it[1] in ("map", "filter", "filter_map", "enum", "peek", "inspect", "enumr", "take_while", "map_while"):
            inner = self.simplify_it(st, it[2])
            if inner[1] == "chain" and it[1] in ("map", "filter", "filter_map", "peek", "inspect"):
                return ("it", "chain", self.simplify_it(st, it[:2] + (inner[2],) + it[3:]),
                        self.simplify_it(st, it[:2] + (inner[3],) + it[3:]))
            return it[:2] + (inner,) + it[3:]
        if it[1] == "chain":
            a, b = self.simplify_it(st, it[2]), self.simplify_it(st, it[3])
            if a[1] == "seq" and b[1] == "seq":
                return ("it", "seq", concat(a[2], b[2]))
            return ("it", "chain", a, b)
        if it[1] == "flat_map":
            # only element-pure closures over a sequence: build the flattened seq
            return it
        return it

    def force(self, st, it):
        """Materialise an iterator as a sequence: [(st, seq)] (may panic)."""
        if it[0] != "it":
            return [(st, it)]
        it = self.simplify_it(st, it)
        if it[1] == "seq":
            return [(st, it[2])]
        if it[1] == "peek":
            return self.force(st, it[2])
        if it[1] == "flat_map":
            return self.force_flat(st, it)
        root = ("V", self.fresh())
        st = st.copy()
        st.mem[root] = EMPTY

        def step(s, v):
            s = s.copy()
            s.mem[root] = concat(s.mem[root], seq_lit(v))
            return [("back", s, None)]

        out = []
        for tag, s, x in self.iterate(st, it, step, "collect"):
            if tag == "done":
                s = s.copy()
                v = s.mem.pop(root)
                out.append((s, v))
            else:
                out.append((s, PANIC))
        return out

    def force_flat(self, st, it):
        root = ("V", self.fresh())
        st = st.copy()
        st.mem[root] = EMPTY

        def step(s, v):
            outs = []
            for s2, r in self.call_value(s, it[3], (v,)):
                if r is PANIC:
                    outs.append(("panic", s2, None))
                    continue
                if r[0] == "adt" and r[1] == OPT:
                    r = seq_lit(r[3][0]) if r[2] == 1 else EMPTY
                for s3, q in self.force(s2, r):
                    s3 = s3.copy()
                    s3.mem[root] = concat(s3.mem[root], q)
                    outs.append(("back", s3, None))
            return outs

        out = []
        for tag, s, x in self.iterate(st, it[2], step, "flat_map"):
            if tag == "done":
                s = s.copy()
                v = s.mem.pop(root)
                out.append((s, v))
            else:
                out.append((s, PANIC))
        return out

    # ------------------------------------------------------------------ calls
    def call_value(self, st, f, args):
        """Call a closure / fn value; -> [(st, value)]."""
        if f[0] == "ref":
            cv = self.read_loc(st, f[1], f[2])
            if cv[0] == "clo":
                body = self.p.bodies.get(cv[1])
                if body is None:
                    raise Undecided("closure " + cv[1])
                return self.call_clo(st, body, cv, f, args)
            return self.call_value(st, cv, args)
        if f[0] == "clo":
            body = self.p.bodies.get(f[1])
            if body is None:
                raise Undecided("closure " + f[1])
            return self.call_clo(st, body, f, None, args)
        if f[0] == "fndef":
            return self.call_fn(st, f[1], list(args), None, None, 0, ())
        if f == ("fst",):
            return [(st, fld(args[0], "()", 0, 0))]
        if f == ("swap",):
            return [(st, ("tup", (fld(args[0], "()", 0, 1), fld(args[0], "()", 0, 0))))]
        if f == ("mkpair",):
            return [(st, ("ev", "pair", args[0]))]
        # symbolic function value
        return self.event(st, "callf", [f] + list(args))

    def call_clo(self, st, body, cv, ref, args):
        selfty = body.locals[1]
        st = st.copy()
        if selfty.k == "ref" and selfty.mut:
            if ref is None:
                root = ("K", self.fresh())
                st.mem[root] = cv
                a0 = ("ref", root, ())
            else:
                a0 = ref
        else:
            a0 = cv
        outs = self.call_body(st, body, [a0] + list(args), len(self.cstack), tuple(self.cstack))
        return [(o.st, o.val if o.kind == "ret" else PANIC) for o in outs]

    cstack = ()

    def event(self, st, name, args, keep=True, post=None):
        """Opaque call; arguments are recorded by content.  -> [(st, res)]"""
        st = st.copy()
        snap = tuple(self.content(st, a) for a in args)
        res = ("ev", name) + snap
        st.ev = st.ev + (res,)
        return [(st, res)]

    def call_term(self, st, fr, t, loc):
        _, fop, aops, dest, target, _exp = t
        f, fty = self.operand(st, fr, fop)
        args = []
        atys = []
        for a in aops:
            v, ty = self.operand(st, fr, a)
            args.append(v)
            atys.append(ty)
        root, path, dty = self.loc_of(st, fr, dest)
        out = []
        if f[0] == "fndef":
            res = self.call_fn(st, f[1], args, atys, dty, fr.depth, fr.stack, loc)
        else:
            res = self.call_value(st, f, args)
        for s, v in res:
            if v is PANIC:
                out.append(("panic", s, ("call", f[1].path if f[0] == "fndef" else "fn", loc)))
                continue
            if v is RETRY:
                out.append(("retry", s, loc))
                continue
            if v is DIVERGE or target is None:
                out.append(("panic", s, ("diverge", f[1].path if f[0] == "fndef" else "fn", loc)))
                continue
            s = s.copy()
            self.write_loc(s, root, path, v)
            out.append(("goto", s, target))
        return out

    def call_fn(self, st, fn, args, atys, dty, depth, stack, loc=None):
        h = self.prims.get(fn.path)
        if h is not None:
            r = h(self, st, fn, args, atys, dty)
            if r is not None:
                return outcomes(r, fn)
        m = self.models.get(fn.path)
        if m is not None:
            old, self.cstack = self.cstack, stack
            try:
                r = m(self, st, fn, args, atys, dty)
            finally:
                self.cstack = old
            if r is not None:
                return outcomes(r, fn)
        if fn.path.endswith("::{constructor#0}"):
            v = self.construct(fn.path[:-len("::{constructor#0}")], args)
            if v is not None:
                return [(st, v)]
        body = None
        if fn.res is not None:
            body = self.p.bodies.get(fn.res)
        elif fn.trait is None:
            body = self.p.bodies.get(fn.df)
        if body is None and fn.trait is not None and fn.res is None and args:
            t = fn.args[0] if fn.args else None
            while t is not None and t.k == "ref":
                t = t.t
            if t is not None and t.k == "adt":
                body = self.p.method(fn.trait, t.path, fn.path.split("::")[-1])
            body = body or self.dispatch(st, fn, args, atys) or self.default(fn)
        elif body is not None:
            body = self.p.at_types(body, fn.res_args if fn.res is not None else fn.args)
        if body is not None:
            if body.derived and body.trait == "core::clone::Clone":
                return [(st, args[0])]
            if body.df in stack:
                return self.event(st, "rec:" + body.canon, args)
            outs = self.call_body(st, body, args, depth + 1, stack)
            return [(o.st, o.val if o.kind == "ret" else PANIC) for o in outs]
        return self.mod.unknown(self, st, fn, args, atys, dty)

    def construct(self, path, args):
        """a tuple constructor used as a function"""
        std = {OPT + "::Some": (OPT, 1), RES + "::Ok": (RES, 0), RES + "::Err": (RES, 1)}.get(path)
        if std is not None:
            return mk_adt(std[0], std[1], tuple(args))
        if path in self.p.adts:
            return mk_adt(path, 0, tuple(args))
        enum, _, var = path.rpartition("::")
        i = self.p.variant_index(enum, var)
        return mk_adt(enum, i, tuple(args)) if i is not None else None

    def dispatch(self, st, fn, args, atys):
        """Resolve a trait call on a generic parameter from the abstract value."""
        v = args[0]
        if v[0] == "ref":
            v = self.read_loc(st, v[1], v[2])
        if v[0] == "adt":
            b = self.p.method(fn.trait, v[1], fn.path.split("::")[-1])
            return b
        return None

    def default(self, fn):
        """the body a trait itself gives a method, if nothing replaces it"""
        b = self.p.bodies.get(fn.df)
        n = fn.path.split("::")[-1]
        if b is None or any(t == fn.trait and n in [m for m, _ in im["items"]] for (t, _), ims in self.p.impl_of.items() for im in ims):
            return None
        return self.p.at_types(b, fn.args)

    # ------------------------------------------------------------------ entry
    def run(self, body, args, mems=None, facts=None):
        """Analyse `body` from symbolic arguments -> [Outcome]"""
        st = St()
        if mems:
            st.mem.update(mems)
        if facts:
            for c, v in facts:
                f = st.F.assume(c, v, self.p)
                if f is None:
                    raise Undecided("contradictory entry facts")
                st.F = f
        self.paths = 0
        return self.call_body(st, body, args)

    def sym_args(self, body, names=None):
        """Symbolic arguments for body: `&mut T` args become ('ref', ('A', n), ())."""
        args, mem = [], {}
        for i in range(body.nargs):
            n = names[i] if names and i < len(names) else "a%d" % i
            ty = body.locals[i + 1]
            if ty.k == "ref" and ty.mut:
                r = ("A", n)
                mem[r] = ("sym", n)
                args.append(("ref", r, ()))
            else:
                args.append(("sym", n))
            if ty.k == "prim" and ty.s in SIGNEDPRIM:
                SIGNED.add(("sym", n))
        return args, mem


class _Mark:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


PANIC = _Mark("PANIC")
DIVERGE = _Mark("DIVERGE")
RETRY = _Mark("RETRY")


def ph_is_int(vals, ph):
    return bool(vals) and all(v[0] == "aff" and dict(v[2]).get(ph) == 1 for v in vals)


def is_signed_term(t):
    return t in SIGNED


def separated(info, ext, firsts):
    """the extensions of a loop that puts a separator before every element but the first"""
    by = {True: {}, False: {}}
    idx = (("idx", info.id, info.S), 1),
    for (s, d, _), e in zip(info.backs, ext):
        hit = [v for k, v in s.F.bl.items() if k in firsts]
        if idx in s.F.iv:
            lo, hi = s.F.iv[idx][:2]
            hit += [True] if hi == 0 else [False] if lo is not None and lo >= 1 else []
        if not hit:
            return None
        v = hit[0]
        rest = conj([x for x in d if not any(f in x or contains(x, f) for f in firsts) and x[:2] != ("iv", idx)])
        by[v][rest] = e
    if set(by[True]) != set(by[False]) or len(by[True]) != 1:
        return None
    (a,), (b,) = by[True].values(), by[False].values()
    n = len(b) - len(a)
    if n < 0 or (n and b[n:] != a) or (n == 0 and a != b):
        return None
    if n == 0:
        return a
    return (("e", ("sep", mk_seq(b[:n]))),) + a


def subst_facts_of(F, m):
    s = St()
    s.F = F
    return Interp.subst_state(None, s, m).F


def left_base(S):
    while S[0] == "zip":
        S = S[1]
    return S


def begun(F, info):
    """something is known of the current element: there is one"""
    S, es = info.S, [("idx", info.id, left_base(info.S)), ("elem", info.id, info.S)]
    while S[0] == "zip":
        es.append(("elem", info.id, S[2]))
        S = S[1]
        es.append(("elem", info.id, S))
    return any(contains(t, e) for d in (F.var, F.nvar, F.bl, F.iv) for t in d for e in es)


def assume_all(F, c, val, prog):
    """F with the atom (or conjunction, when val) c == val; F itself if not expressible"""
    if c in (TRUE, FALSE):
        return F if (c == TRUE) == val else None
    if c[0] == "and":
        if not val:
            return F
        for x in c[1:]:
            F = assume_all(F, x, True, prog)
            if F is None:
                return None
        return F
    return F.assume(c, val, prog)


def conj(delta):
    return tuple(sorted(delta, key=repr))


class FnRef(tuple):
    """hashable function reference"""
    __slots__ = ()

    @staticmethod
    def of(j, body):
        types = body.types
        return FnRef((j["path"], j["def"], j.get("trait"), tuple(types[x] for x in j.get("args", [])),
                      j.get("res"), j.get("res_self"),
                      tuple(types[x] for x in j.get("res_args", []))))

    path = property(lambda s: s[0])
    df = property(lambda s: s[1])
    trait = property(lambda s: s[2])
    args = property(lambda s: s[3])
    res = property(lambda s: s[4])
    res_self = property(lambda s: s[5])
    res_args = property(lambda s: s[6])
