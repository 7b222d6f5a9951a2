"""Reference summaries and their comparison with the summaries of the code.

A reference is a Python function over a Spec context; every branch it takes is
a fact over abstract values, every loop it describes goes through the same
widening as a loop of the code.  Comparing = for every pair of (code path,
reference path) whose facts are compatible, the result and the final contents
of the `&mut` arguments must be the same abstract value.
"""
import itertools
import terms as T
from terms import *
from absint import Interp, St, Outcome, PANIC, DIVERGE, Undecided, Limit, Facts, lin_unsat, VARIANTS


class Return(Exception):
    def __init__(self, v):
        self.v = v


class PanicHere(Exception):
    pass


class Spec:
    def __init__(self, I, st, script, base=None):
        self.I = I
        self.st = st.copy()
        self.script = script
        self.pos = 0
        self.taken = []
        self.alts = []
        self.base = base

    # -- choice -----------------------------------------------------------
    def pick(self, options):
        """options: list of (st, x); continue with one of them."""
        if not options:
            raise Infeasible()
        if len(options) == 1:
            self.st = options[0][0]
            return options[0][1]
        if self.pos < len(self.script):
            k = self.script[self.pos]
        else:
            k = 0
            for j in range(1, len(options)):
                self.alts.append(tuple(self.taken) + (j,))
        self.pos += 1
        self.taken.append(k)
        self.I.ctx = [(self.base, tuple(self.taken)), 0]
        self.st = options[k][0]
        return options[k][1]

    def branch(self, c):
        return self.pick(self.I.branch(self.st, c))

    def case(self, v, path):
        return self.pick(self.I.fork_variant(self.st, v, path))

    def q(self, r):
        """the `?` operator on a Result"""
        if self.case(r, RES) == 0:
            return fld(r, RES, 0, 0)
        raise Return(Err(fld(r, RES, 1, 0)))

    def qo(self, r):
        if self.case(r, OPT) == 1:
            return fld(r, OPT, 1, 0)
        raise Return(NONE)

    def some(self, o):
        """None -> None; Some(x) -> x (python)"""
        return fld(o, OPT, 1, 0) if self.case(o, OPT) == 1 else None

    def nonempty(self, S):
        return not self.branch(emptiness(S))

    # -- state ------------------------------------------------------------
    def cell(self, v):
        r = ("V", self.I.fresh(), "spec")
        self.st = self.st.copy()
        self.st.mem[r] = v
        return ("ref", r, ())

    def get(self, ref):
        r, p = self.I.deref_root(self.st, ref)
        return self.I.read_loc(self.st, r, p)

    def set(self, ref, v):
        self.st = self.st.copy()
        r, p = self.I.deref_root(self.st, ref)
        self.I.write_loc(self.st, r, p, v)

    def push(self, ref, v):
        self.set(ref, concat(self.get(ref), seq_lit(v)))

    # -- code ---------------------------------------------------------------
    def ev(self, name, *args):
        return self.pick(self.I.event(self.st, name, list(args)))

    def call(self, body, *args):
        outs = self.I.call_body(self.st, body, list(args), 1, ())
        o = self.pick([(x.st, x) for x in outs])
        if o.kind != "ret":
            raise PanicHere()
        return o.val

    # -- loops ----------------------------------------------------------------
    def each(self, S, fn, it=None):
        I = self.I

        def step(s, v):
            outs = []
            for kind, s2, x in enumerate_paths(I, s, lambda c: fn(c, v)):
                if kind == "ret":
                    outs.append(("back", s2, None))
                elif kind == "return":
                    outs.append(("return", s2, x))
                else:
                    outs.append(("panic", s2, None))
            return outs

        res = I.iterate(self.st, it or ("it", "seq", S), step, "spec")
        tag, x = self.pick([(s, (t, x)) for t, s, x in res])
        if tag == "return":
            raise Return(x)
        if tag == "panic":
            raise PanicHere()

    def loop(self, fn):
        """`loop { fn }`: fn leaves by raising Return"""
        I = self.I

        def runner(s, lid):
            outs = []
            for kind, s2, x in enumerate_paths(I, s, fn):
                outs.append(({"ret": "back", "return": "return"}.get(kind, "panic"), s2, x))
            return outs
        info, exits = I.loop_fix(self.st, runner, "spec loop")
        res = I.finish_loop(self.st, info, exits)
        tag, x = self.pick([(s, (t, x)) for t, s, x in res])
        if tag == "return":
            raise Return(x)
        raise PanicHere()

    def map(self, S, fn):
        """[fn(e) for e in S] with early return out of fn"""
        acc = self.cell(EMPTY)

        def body(c, e):
            c.push(acc, fn(c, e))

        self.each(S, body)
        return self.get(acc)


class Infeasible(Exception):
    pass


def enumerate_paths(I, st, fn, limit=4000):
    work = [()]
    out = []
    n = 0
    if I.table is None:
        I.table = {}
    saved = I.ctx
    base = (saved[0], I.fresh()) if saved is not None else ("spec", I.fresh())
    saved = list(I.ctx) if I.ctx is not None else None
    while work:
        script = work.pop()
        n += 1
        if n > limit:
            raise Limit("reference paths")
        c = Spec(I, st, script, base)
        I.ctx = [(base, ()), 0]
        try:
            v = fn(c)
            out.append(("ret", c.st, v))
        except Return as r:
            out.append(("return", c.st, r.v))
        except PanicHere:
            out.append(("panic", c.st, None))
        except Infeasible:
            pass
        work += c.alts
    I.ctx = saved
    return out


def run_spec(I, st, fn):
    outs = []
    for kind, s, v in enumerate_paths(I, st, fn):
        outs.append(Outcome("panic" if kind == "panic" else "ret", s, v))
    return outs


# ------------------------------------------------------------ normalisation
VPATH = {}
BOOLTAGS = {"le", "eqi", "isv", "not", "and", "in", "has", "empty", "eq"}


class Norm:
    def __init__(self, prog, F):
        self.p = prog
        self.F = F
        self.memo = {}

    def __call__(self, t):
        if not isinstance(t, tuple):
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        ys = tuple(self(x) for x in t)
        r = T.rebuild(ys) if ys != t else t
        k = r[0] if r else None
        if k == "char" and len(r) == 2 and isinstance(r[1], int):
            r = Int(r[1])
        elif k == "seq":
            r = self.unsplit(r)
        elif k in ("sym", "fld", "drop") and self.F.iv:
            n = self.known_len(r)
            if n is not None:
                r = EMPTY if n == 0 else seq_lit(T.nth(r, Int(0)))
        if k == "isv":
            x = r[1]
            if x[0] == "adt":
                r = B(x[2] == r[3])
            else:
                d = self.F.decide(r)
                if d is not None:
                    r = B(d)
        elif isinstance(k, str) and k in BOOLTAGS:
            d = self.F.decide(r)
            if d is not None:
                r = B(d)
            elif k in ("not", "and"):
                r = canon_bool(r)
        elif isinstance(k, str) and r in self.F.bl:
            r = B(self.F.bl[r])
        elif k == "single" or k == "e":
            pass
        if isinstance(k, str) and k not in ("adt", "tup", "true", "false", "e", "all", "map"):
            v = self.F.var.get(r)
            if v is None:
                v = self.F.var.get(t)
            if v is not None:
                path = self.F.vp.get(r) or self.F.vp.get(t)
                if path and self.p.nfields(path, v) == 0:
                    r = ("adt", path, v, ())
            lo, hi, ex = self.F.iv.get(((r, 1),), (None, None, frozenset()))
            if lo is not None and lo == hi and k != "len":
                r = Int(lo)
            elif k == "len":
                lo, hi, ex = self.F.interval(((r, 1),))
                if lo is not None and lo == hi:
                    r = Int(lo)
        if k == "nth" and isinstance(r[1], tuple) and r[1][0] == "seq":
            S, i = r[1], r[2]
            while S[0] == "seq" and S[1] and S[1][0][0] == "e" and not is_int(i) and self.F.decide(le(Int(1), i)):
                S, i = drop(S, 1), sub(i, Int(1))
            r = T.nth(S, i)
        self.memo[t] = r
        return r


    def known_len(self, S):
        """0 or 1 when the facts say so"""
        if S[0] in ("seq", "single", "setof", "par"):
            return None
        lo, hi, ex = self.F.interval(((("len", S), 1),)) if slen(S) == ("len", S) or slen(S) == ("aff", 0, ((("len", S), 1),)) else (None, None, None)
        return lo if lo is not None and lo == hi and lo <= 1 else None

    def unsplit(self, r):
        """[S[k], *S[k+1..]] is S[k..] when S has more than k elements"""
        ps = []
        for q in r[1]:
            n = self.known_len(q[1]) if q[0] == "all" else None
            if n is None:
                ps.append(q)
            elif n == 1:
                ps.append(("e", T.nth(q[1], Int(0))))
        if len(ps) != len(r[1]) or tuple(ps) != r[1]:
            r = T.mk_seq(tuple(ps))
            if r[0] != "seq":
                return r
            ps = list(r[1])
        i = len(ps) - 2
        ch = False
        while i >= 0:
            a, b = ps[i], ps[i + 1]
            S = None
            if a[0] == "e" and b[0] == "all":
                d = b[1]
                S, k = (d[1], d[2]) if d[0] == "drop" else (None, None)
                if isinstance(k, int):
                    k = Int(k)
            if S is not None and is_int(k) and k[1] >= 1:
                k = Int(k[1] - 1)
                x = T.nth(S, k)
                if (a[1] == x or a[1] == self(x)) and self.F.decide(le(Int(k[1] + 1), slen(S))):
                    ps[i:i + 2] = [("all", drop(S, k[1]))]
                    ch = True
            i -= 1
        return T.mk_seq(tuple(ps)) if ch else r


def atoms_of(b, acc):
    if b[0] == "not":
        atoms_of(b[1], acc)
    elif b[0] == "and":
        atoms_of(b[1], acc)
        atoms_of(b[2], acc)
    elif b[0] not in ("true", "false"):
        acc.add(b)


def eval_bool(b, env):
    if b[0] == "not":
        return not eval_bool(b[1], env)
    if b[0] == "and":
        return eval_bool(b[1], env) and eval_bool(b[2], env)
    if b == TRUE:
        return True
    if b == FALSE:
        return False
    return env[b]


def canon_bool(b):
    acc = set()
    atoms_of(b, acc)
    ats = sorted(acc, key=repr)
    if len(ats) > 8:
        return b
    table = []
    for vals in itertools.product((False, True), repeat=len(ats)):
        table.append(eval_bool(b, dict(zip(ats, vals))))
    # drop irrelevant atoms
    i = 0
    while i < len(ats):
        n = len(ats)
        stride = 2 ** (n - 1 - i)
        lo = [table[j] for j in range(2 ** n) if not (j // stride) % 2]
        hi = [table[j] for j in range(2 ** n) if (j // stride) % 2]
        if lo == hi:
            ats = ats[:i] + ats[i + 1:]
            table = lo
        else:
            i += 1
    if not ats:
        return B(table[0])
    if len(ats) == 1:
        return ats[0] if table == [False, True] else Not(ats[0])
    r = FALSE
    for j, v in enumerate(table):
        if v:
            c = TRUE
            for i, a in enumerate(ats):
                bit = (j >> (len(ats) - 1 - i)) & 1
                c = And(c, a if bit else Not(a))
            r = Or(r, c)
    return r


def merge_facts(a, b):
    f = a.copy()
    for t, v in b.var.items():
        if t in f.var and f.var[t] != v:
            return None
        if t not in f.var and v in f.nvar.get(t, ()):
            return None
        f.var[t] = v
    f.vp.update(b.vp)
    for t, vs in b.nvar.items():
        if t in f.var and f.var[t] in vs:
            return None
        f.nvar[t] = f.nvar.get(t, frozenset()) | vs
        if len(f.nvar[t]) == VARIANTS.get(f.vp.get(t)):
            return None
    for t, v in b.bl.items():
        if f.bl.get(t, v) != v:
            return None
        f.bl[t] = v
    for L, (lo, hi, ex) in b.iv.items():
        l0, h0, e0 = f.interval(L)
        if lo is not None and (l0 is None or lo > l0):
            l0 = lo
        if hi is not None and (h0 is None or hi < h0):
            h0 = hi
        e0 = e0 | ex
        f.iv[L] = (l0, h0, e0)
        l1, h1, _ = f.interval(L)
        if l1 is not None and h1 is not None and l1 > h1:
            return None
    if lin_unsat(f):
        return None
    return f


def subst_facts(F, m):
    f = F.copy()
    f.var = {subst(t, m): v for t, v in F.var.items()}
    f.vp = {subst(t, m): v for t, v in F.vp.items()}
    f.nvar = {subst(t, m): v for t, v in F.nvar.items()}
    f.bl = T.subst_bl(F.bl, m)
    f.iv, ok = T.subst_iv(F.iv, m)
    if not ok:
        f.bl[FALSE] = True
    return f


def consistent(F, p):
    """re-check facts after a substitution: False when contradictory"""
    for t, v in list(F.var.items()):
        if t and t[0] == "adt" and t[2] != v:
            return False
    for t, v in F.bl.items():
        if t == TRUE and not v or t == FALSE and v:
            return False
    return True


# ------------------------------------------------------------- loop matching
def lids_in(t, acc, seen):
    if not isinstance(t, tuple) or t in seen:
        return
    seen.add(t)
    if len(t) >= 3 and t[0] in ("phi", "elem", "idx", "exhausted", "fold", "loop") and isinstance(t[1], int):
        acc.add(t[1])
    for x in t:
        if isinstance(x, tuple):
            lids_in(x, acc, seen)


def outcome_lids(I, outs, roots):
    acc, seen = set(), set()

    def of_facts(F):
        for d in (F.var, F.nvar, F.bl, F.iv):
            for t in d:
                lids_in(t, acc, seen)

    for o in outs:
        if isinstance(o.val, tuple):
            lids_in(o.val, acc, seen)
        of_facts(o.st.F)
        lids_in(o.st.ev, acc, seen)
        for r in roots:
            if r in o.st.mem:
                lids_in(o.st.mem[r], acc, seen)
    done = set()
    while acc - done:
        l = min(acc - done)
        done.add(l)
        info = I.loops.get(l)
        if info is None:
            continue
        if info.S is not None:
            lids_in(info.S, acc, seen)
        for ph, (e, vs) in info.phis.items():
            lids_in(e, acc, seen)
            for v in vs:
                lids_in(v, acc, seen)
        for s, d, ev in info.backs:
            of_facts(s.F)
            lids_in(ev, acc, seen)
    return sorted(l for l in acc if l in I.loops)


class Matcher:
    """translation of the code's loop terms into the reference's"""

    def __init__(self, I, code, spec, roots, panics_ok=False):
        self.I = I
        self.panics_ok = panics_ok
        self.m = {}
        self.unmatched = []
        self.pairs = []
        self.code, self.spec = code, spec
        cl = outcome_lids(I, code, roots)
        sl = outcome_lids(I, spec, roots)
        self.banned = set()
        for _ in range(6):
            self.m, self.unmatched, self.pairs, self.phis = {}, [], [], []
            self.lax = True
            self.pair_up(cl, list(sl))
            self.lax = False
            # loops inside loops were taken on trust: now everything is known
            bad = {(lc, ls, pc, ps) for lc, ls, pc, ps in self.phis
                   if not self.step_ok(I.loops[lc], I.loops[ls], pc, ps, self.m)}
            if not bad:
                break
            self.banned |= bad
        self.cl, self.sl = cl, sl

    def pair_up(self, cl, free):
        I = self.I
        self.known = set()
        self.all = set(cl)
        for n, lc in enumerate(cl):
            ic = I.loops[lc]
            if ic.S is None:
                cands = [ls for ls in free if I.loops[ls].S is None]
            else:
                S = subst(ic.S, self.m)
                cands = [ls for ls in free if I.loops[ls].S is not None and self.same_seq(I.loops[ls].S, S)] or \
                    [ls for ls in free if self.side_by_side(ic, S, I.loops[ls])] or \
                    [ls for ls in free if I.loops[ls].S == T.rev(S)]
            best = None
            for ls in cands:
                mm, score = self.match_loop(ic, I.loops[ls])
                if not self.compatible(ic, I.loops[ls], mm):
                    score -= 1000
                if ic.early != I.loops[ls].early:
                    score -= 500
                if best is None or score > best[1]:
                    best = (ls, score, mm)
            if best is not None and I.loops[best[0]].early != ic.early and any(
                    I.loops[l].early == I.loops[best[0]].early and I.loops[l].S == ic.S for l in cl[n + 1:]):
                best = None     # a later loop is the better partner
            if best is None:
                self.unmatched.append(lc)
                continue
            free.remove(best[0])
            self.m.update(best[2])
            self.pairs.append((lc, best[0]))
            self.known.add(lc)
            self.phis += [(lc, best[0], a, b) for a, b in best[2].items() if a[0] == "phi" and a[1] == lc]

    def compatible(self, ic, isp, mm):
        """can the two loops be entered on the same path?"""
        if not ic.backs or not isp.backs:
            return True
        tr = dict(self.m)
        tr.update(mm)
        for sc, _, _ in ic.backs:
            Fc = subst_facts(sc.F, tr)
            if not consistent(Fc, self.I.p):
                continue
            for ss, _, _ in isp.backs:
                if merge_facts(Fc, ss.F) is not None:
                    return True
        return False

    def same_shape(self):
        """loop for loop the same, with the same number of loop variables"""
        L = self.I.loops
        return not self.unmatched and len(self.pairs) == len(self.sl) and \
            all(len(L[a].phis) == len(L[b].phis) for a, b in self.pairs)

    def strange(self):
        """loops of the code that run over nothing known, with no counterpart"""
        L = self.I.loops
        return {l for l in self.unmatched if L[l].S is None or L[l].S[0] == "multi"}

    def fact_sets(self, outs, lids):
        for o in outs:
            yield o.st.F
        for l in lids:
            for s, _, _ in self.I.loops[l].backs:
                yield s.F

    def exit_mismatches(self):
        """(facts, text): one side leaves a loop early where the other goes on"""
        I = self.I
        res = []
        for lc, ls in self.pairs:
            ic, isp = I.loops[lc], I.loops[ls]
            kc, ks = ("exhausted", lc, ic.S or ("none",)), ("exhausted", ls, isp.S or ("none",))
            for F in self.fact_sets([o for o in self.code if o.kind != "panic" or not self.panics_ok], self.cl):
                if F.bl.get(kc) is not False:
                    continue
                Fc = subst_facts(F, self.m)
                if not consistent(Fc, I.p):
                    continue
                Fc.bl.pop(ks, None)
                for sb, _, _ in isp.backs:
                    m = merge_facts(Fc, sb.F)
                    if m is not None:
                        res.append((m, "the code leaves the iteration early where it must go on"))
            for F in self.fact_sets(self.spec, self.sl):
                if F.bl.get(ks) is not False:
                    continue
                Fs = F.copy()
                Fs.bl.pop(ks, None)
                for cb, _, _ in ic.backs:
                    Fc = subst_facts(cb.F, self.m)
                    if not consistent(Fc, I.p):
                        continue
                    m = merge_facts(Fc, Fs)
                    if m is not None:
                        res.append((m, "the code goes on where it must leave the iteration"))
        return res

    def same_seq(self, a, b):
        n = Norm(self.I.p, Facts())
        return n(a) == n(b)

    def side_by_side(self, ic, S, isp):
        """one loop runs over two sequences at once, the other over the numbers of one of them: they are as long"""
        if isp.S is None or isp.S[0] != "zip" or S not in isp.S[1:] or any(x[0] == "zip" for x in isp.S[1:]):
            return False
        F = subst_facts(ic.entry.F, self.m)
        return F.decide(eq_int(slen(isp.S[1]), slen(isp.S[2]))) is True

    def match_loop(self, ic, isp):
        base = dict(self.m)
        extra = {}
        if ic.S is not None and isp.S[0] == "zip" and ic.S[0] != "zip":
            S = subst(ic.S, self.m)
            for T_ in (ic.S, S):
                extra[("idx", ic.id, T_)] = ("idx", isp.id, isp.S[1])
                extra[("exhausted", ic.id, T_)] = ("exhausted", isp.id, isp.S)
                extra[("elem", ic.id, T_)] = ("elem", isp.id, S)
                for x in isp.S[1:]:
                    if x != S:
                        extra[T.nth(x, ("idx", ic.id, T_))] = ("elem", isp.id, x)
        elif ic.S is not None and isp.S == T.rev(subst(ic.S, self.m)) != ic.S:
            # counted upwards, but looked up from the other end
            S = subst(ic.S, self.m)
            for T_ in (ic.S, S):
                i = extra[("idx", ic.id, T_)] = ("idx", isp.id, isp.S)
                extra[("exhausted", ic.id, T_)] = ("exhausted", isp.id, isp.S)
                extra[("elem", ic.id, T_)] = T.nth(S, i)
                extra[T.nth(T.rev(T_), ("idx", ic.id, T_))] = ("elem", isp.id, isp.S)
        elif ic.S is not None:
            todo = [(ic.S, isp.S)]
            while todo:
                a, b = todo.pop()
                for k in ("elem", "idx", "exhausted"):
                    extra[(k, ic.id, a)] = (k, isp.id, b)
                    extra[(k, ic.id, subst(a, self.m))] = (k, isp.id, b)
                if a[0] in ("zip", "multi") and a[0] == b[0] and len(a) == len(b):
                    todo += [(x, y) for x, y in zip(a[1:], b[1:]) if isinstance(x, tuple) and x and isinstance(x[0], str)]
        else:
            extra[("exhausted", ic.id, ("none",))] = ("exhausted", isp.id, ("none",))
        if ic.S is not None:
            extra[("loop", ic.id, "done")] = ("loop", isp.id, "done")
            extra[("loop", ic.id, "mid")] = ("loop", isp.id, "mid")
        base.update(extra)
        cands = {}
        for pc, (ec, vc) in ic.phis.items():
            e = subst(ec, base)
            c = [ps for ps, (es, vs) in isp.phis.items() if es == e and (ic.id, isp.id, pc, ps) not in self.banned]
            if c:
                cands[pc] = c
        keys = list(cands)
        best = ({}, -1)
        combos = itertools.islice(itertools.product(*[cands[k] for k in keys]), 256)
        for combo in combos:
            M = dict(zip(keys, combo))
            changed = True
            while changed:
                changed = False
                tr = dict(base)
                for a, b in M.items():
                    tr[a] = b
                    tr[("fold", ic.id, a)] = ("fold", isp.id, b)
                for pc in list(M):
                    if not self.step_ok(ic, isp, pc, M[pc], tr):
                        del M[pc]
                        changed = True
            if len(M) > best[1]:
                best = (M, len(M))
            if len(M) == len(keys) == len(ic.phis):
                break
        M = best[0]
        for a, b in M.items():
            extra[a] = b
            extra[("fold", ic.id, a)] = ("fold", isp.id, b)
        return extra, len(M) * 10 - abs(len(ic.phis) - len(isp.phis)) + (len(M) == len(isp.phis))

    def step_ok(self, ic, isp, pc, ps, tr):
        I = self.I
        for sc, dc, _ in ic.backs:
            Fc = subst_facts(sc.F, tr)
            if not consistent(Fc, I.p):
                continue
            vc = subst(I.read_loc(sc, pc[2], pc[3]), tr)
            for ss, ds, _ in isp.backs:
                F = merge_facts(Fc, ss.F)
                if F is None:
                    continue
                vs = I.read_loc(ss, ps[2], ps[3])
                n = Norm(I.p, F)
                if n(vc) != n(vs) and not self.pending(vc, ic):
                    return False
        return True

    def pending(self, v, ic):
        """depends on a loop that has no partner yet"""
        acc = set()
        lids_in(v, acc, set())
        return self.lax and any(l in self.all and l not in self.known and l != ic.id for l in acc)


def unk_in(t):
    return has(t, "unk") or has(t, "uninit") or bool(T.CHANGED) and changed(t)


def changed(t):
    """speaks of a field that is kept in another form than the rules know"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] == "fld" and t[4] in T.CHANGED.get((t[2], t[3]), ()):
        return True
    if len(t) == 4 and t[0] == "adt" and (t[1], t[2]) in T.CHANGED:
        return True
    return any(changed(x) for x in t if isinstance(x, tuple))


def unk_facts(F):
    """a path taken on a condition that is not understood"""
    return any(unk_in(t) for d in (F.var, F.nvar, F.bl, F.iv) for t in d)


def diff_path(a, b, path=()):
    """component paths where the two values differ"""
    if a == b:
        return []
    if a[0] == b[0] == "adt" and a[1] == b[1]:
        if a[2] != b[2]:
            return [(path + (T.VARNAME(b[1], b[2]),), a, b)]
        out = []
        for i in range(min(len(a[3]), len(b[3]))):
            nm = T.FIELDNAME(a[1], a[2], i)
            out += diff_path(a[3][i], b[3][i], path + (nm,))
        return out
    if a[0] == b[0] == "tup" and len(a[1]) == len(b[1]):
        out = []
        for i in range(len(a[1])):
            out += diff_path(a[1][i], b[1][i], path + (str(i),))
        return out
    # eta: one side opaque
    for x, y, sw in ((a, b, False), (b, a, True)):
        if x[0] == "adt" and y[0] not in ("adt", "seq", "aff", "char", "str") and x[3]:
            out = []
            for i in range(len(x[3])):
                f = fld(y, x[1], x[2], i)
                p = path + (T.FIELDNAME(x[1], x[2], i),)
                out += diff_path(x[3][i], f, p) if not sw else diff_path(f, x[3][i], p)
            return out
    return [(path, a, b)]


class Mismatch:
    __slots__ = ("component", "code", "spec", "facts", "undecided", "why")

    def __init__(self, component, code, spec, facts, undecided, why=""):
        self.component = component
        self.code = code
        self.spec = spec
        self.facts = facts
        self.undecided = undecided
        self.why = why


def compare(I, code, spec, roots=(), panics_ok=False, views=None, info=None):
    """-> (list of Mismatch, number of compatible path pairs).

    views: optional list of (name, function(value, st) -> value) used instead
    of the raw value."""
    m = Matcher(I, code, spec, roots, panics_ok)
    if info is not None:
        info["same_shape"] = m.same_shape()
    strange = m.strange()

    def odd(F, *ts):
        """depends on a loop of a form that is not understood"""
        if not strange:
            return False
        acc, seen = set(), set()
        for t in ts + tuple(k for d in (F.var, F.nvar, F.bl, F.iv) for k in d):
            lids_in(t, acc, seen)
        return bool(acc & strange)
    out = []
    pairs = 0
    for F, why in m.exit_mismatches():
        u = any(unk_in(t) for d in (F.var, F.nvar, F.bl, F.iv) for t in d)
        out.append(Mismatch(("iteration",), ("sym", why), ("sym", "the same exits"), F, u, why))
    for o in code:
        Fo = subst_facts(o.st.F, m.m)
        if not consistent(Fo, I.p):
            continue
        vo = subst(o.val, m.m) if isinstance(o.val, tuple) else o.val
        matched = False
        for s in spec:
            F = merge_facts(Fo, s.st.F)
            if F is None:
                continue
            matched = True
            pairs += 1
            n = Norm(I.p, F)
            unkf = any(unk_in(t) for d in (F.var, F.nvar, F.bl, F.iv) for t in d)
            if o.kind != s.kind:
                if o.kind == "panic" and panics_ok:
                    continue
                out.append(Mismatch((o.kind,), o.val if o.kind == "ret" else ("sym", "PANIC %s" % (o.val,)),
                                    s.val if s.kind == "ret" else ("sym", "panic"), F, unkf or odd(F)))
                continue
            if o.kind == "panic":
                continue
            pairs_ = [("", vo, s.val)]
            for r in roots:
                a = o.st.mem.get(r)
                b = s.st.mem.get(r)
                if a is None and b is None:
                    continue
                pairs_.append((r[1] if len(r) > 1 else "mem", subst(a, m.m), b))
            for nm, a, b in pairs_:
                a, b = n(a), n(b)
                if a == b:
                    continue
                for path, x, y in diff_path(a, b):
                    if n(x) == n(y):
                        continue
                    u = unkf or unk_in(x) or unk_in(y) or odd(F, x, y)
                    out.append(Mismatch(((nm,) if nm else ()) + path, x, y, F, u))
        if not matched:
            # the reference says nothing about this path
            pass
    return out, pairs


def show_facts(F, limit=8):
    out = []
    for t, v in F.var.items():
        p = F.vp.get(t)
        out.append("%s is %s" % (T.show(t), T.VARNAME(p, v) if p else v))
    for t, v in F.bl.items():
        if t[0] == "exhausted":
            continue
        out.append(("" if v else "!") + T.show(t))
    for L, (lo, hi, ex) in F.iv.items():
        s = T.show(mk_aff(0, L))
        if lo is not None and lo == hi:
            out.append("%s == %d" % (s, lo))
        else:
            if lo is not None and lo > 0:
                out.append("%s >= %d" % (s, lo))
            if hi is not None:
                out.append("%s <= %d" % (s, hi))
            for x in sorted(ex):
                out.append("%s != %d" % (s, x))
    return "; ".join(x[:160] for x in out[:limit])
