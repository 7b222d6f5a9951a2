"""Shared context of the rules: program, anchors, obligations, findings."""
import terms as T
from terms import *
from absint import Interp, St, Undecided, Outcome
from spec import Spec, run_spec, compare, show_facts, Return, unk_facts, unk_in

CH = "chomp::chomp::"
AST = CH + "ast::"
NE = AST + "NamedExpression"
EXPR = AST + "Expression"
FOLDER = CH + "visit::Folder"
MAPPER = CH + "visit::Mapper"
VISITOR = CH + "visit::Visitor"
VISITABLE = CH + "visit::Visitable"
TY = CH + "typed::"


class Missing(Exception):
    """an anchor of the analysis is not in the source any more"""


class Ctx:
    thorough = False
    def __init__(self, prog):
        self.p = prog
        self.obs = []        # obligations: dict(rule, fn, status, detail...)
        self.analysed = set()
        self.sites = 0
        self.unmodelled = {}

    # -- anchors ------------------------------------------------------------
    def method(self, trait, self_path, name):
        b = self.p.method(trait, self_path, name)
        if b is None:
            # a default method of the trait
            b = self.p.inherent(trait + "::" + name)
        if b is None:
            raise Missing("<%s as %s>::%s" % (self_path, trait, name))
        return b

    def fn(self, canon):
        b = self.p.inherent(canon)
        if b is None:
            raise Missing(canon)
        return b

    def variant(self, path, name):
        i = self.p.variant_index(path, name)
        if i is None:
            raise Missing("%s::%s" % (path, name))
        return i

    def fidx(self, path, name, variant=0):
        i = self.p.field_index(path, name, variant)
        if i is None:
            raise Missing("%s.%s" % (path, name))
        return i

    def get(self, v, path, name, variant=None):
        vi = self.variant(path, variant) if variant else 0
        return fld(v, path, vi, self.fidx(path, name, vi))

    def build(self, path, variant=None, **fields):
        vi = self.variant(path, variant) if variant else 0
        a = self.p.adts.get(path)
        if a is None:
            raise Missing(path)
        fs = a["variants"][vi]["fields"]
        names = [f["name"] for f in fs]
        for i in self.p.extra_fields().get((path, vi), ()):
            fields.setdefault(names[i], MASK)
        if set(names) != set(fields):
            raise Missing("%s has fields %s, expected %s" % (path, names, sorted(fields)))
        return mk_adt(path, vi, tuple(fields[n] for n in names))

    def wrap(self, path, variant, v):
        return mk_adt(path, self.variant(path, variant), (v,))

    # -- results ------------------------------------------------------------
    def record(self, rule, fn, status, detail="", component="", loc=""):
        self.obs.append({"rule": rule, "fn": fn, "status": status, "detail": detail,
                         "component": component, "loc": loc})

    def interp(self, prims, max_paths=3000):
        I = Interp(self.p, prims, max_paths * (10 if self.thorough else 1))
        self._I = I
        return I

    def check(self, rule, body, prims, names, spec, components=None, roots=None, panics_ok=False,
              mems=None, facts=None, args=None, setup=None, view=None, also=(), shape=False, outs=None, alts=()):
        """One obligation: the summary of `body` equals the reference `spec`
        (or one of `alts`: the same behaviour, its loops cut elsewhere).

        spec(c, *args) describes the result; components: function mapping a
        mismatch component tuple to the rule label it is reported under (or
        None to ignore it)."""
        name = fname(body)
        I = self.interp(prims)
        try:
            if args is None:
                a, m = I.sym_args(body, names)
            else:
                a, m = list(args), {}
            if mems:
                m = dict(m)
                m.update(mems)
            st = St()
            st.mem.update(m)
            for c, v in facts or ():
                f = st.F.assume(c, v, self.p)
                if f is None:
                    raise Undecided("contradictory entry facts")
                st.F = f
            code = I.call_body(st, body, a)
            if outs is not None:
                code = outs(code)
            if view is not None:
                code = apply_view(I, code, view)
            rts = roots if roots is not None else [r for r in m if r[0] == "A"]
            first = None
            for sp in (spec,) + tuple(alts):
                ref = run_spec(I, st, lambda c: sp(c, *a))
                if view is not None:
                    ref = apply_view(I, ref, view)
                how = {}
                mm, pairs = compare(I, code, ref, rts, panics_ok, info=how)
                if not mm and pairs:
                    break
                first = first or (mm, pairs, how)
            else:
                mm, pairs, how = first
        except Undecided as e:
            self.done(I)
            self.record(rule, name, "undecided", str(e), loc=body.loc)
            return None
        self.done(I)
        bad = {}
        for x in mm:
            lab = rule
            if components is not None:
                lab = components(x.component)
                if lab is None:
                    continue
            bad.setdefault((lab, ".".join(x.component)), []).append(x)
        if pairs == 0:
            self.record(rule, name, "undecided", "no comparable path", loc=body.loc)
            return None
        if not bad:
            self.record(rule, name, "ok", "%d paths, %d path pairs" % (len(code), pairs), loc=body.loc)
        for lab in also:
            if not any(k[0] == lab for k in bad):
                self.record(lab, name, "ok", "%d paths, %d path pairs" % (len(code), pairs), loc=body.loc)
        for (lab, comp), xs in sorted(bad.items()):
            # another algorithm altogether: nothing is said about it
            real = [x for x in xs if not x.undecided and (not shape or how["same_shape"])]
            x = (real or xs)[0]
            self.record(lab, name, "violation" if real else "undecided",
                        "when [%s]: code gives %s, expected %s" % (show_facts(x.facts), T.show(x.code)[:400], T.show(x.spec)[:400]),
                        comp, body.loc)
        return I

    def done(self, I):
        self.analysed |= I.visited
        self.sites += I.paths
        for k, v in I.unmodelled.items():
            self.unmodelled[k] = self.unmodelled.get(k, 0) + v


def fname(b):
    last = b.canon.split("::")[-1]
    if b.self_ty is not None:
        return "%s::%s" % (b.self_ty.path if b.self_ty.k == "adt" else b.self_ty.g, last)
    return b.canon


def apply_view(I, outs, view):
    res = []
    for o in outs:
        if o.kind != "ret":
            res.append(o)
            continue
        for s, v in view(I, o.st, o.val):
            res.append(Outcome("ret", s, v))
    return res


# ---------------------------------------------------------------- common prims
def merged2(a, b):
    return merged(seq_lit(a, b))


def merge_prim(I, st, fn, args, atys, dty):
    return [(st, merged2(args[0], args[1]))]


def opaque(name):
    def h(I, st, fn, args, atys, dty):
        return I.event(st, name, args)
    return h


def fold_prim(I, st, fn, args, atys, dty):
    return I.event(st, "fold", args)


ANY = ("sym", "_")


def erase_ne(I, v):
    """expression without its name and span"""
    n = I.p.nfields(NE, 0)
    i = I.p.field_index(NE, "expr")
    if n is None or i is None:
        return v
    return ("adt", NE, 0, tuple(fld(v, NE, 0, j) if j == i else ANY for j in range(n)))


def fold_erased(I, st, fn, args, atys, dty):
    a = [I.content(st, args[0])] + list(args[1:])
    a[0] = erase_ne(I, a[0])
    return I.event(st, "fold", a)


def typeof_prim(I, st, fn, args, atys, dty):
    v = args[0]
    if v[0] == "ref":
        v = I.read_loc(st, v[1], v[2])
    t = fn.args[0] if fn.args else None
    while t is not None and t.k == "ref":
        t = t.t
    if v[0] == "adt" or (t is not None and t.k == "adt" and not t.path.endswith("TypedExpression")):
        return None
    return [(st, ("ev", "typeof", v))]


STATE = ("A", "state")


def hash_into(I, st, fn, args, atys, dty):
    """hashing: the hasher's state grows by the value (a tuple: by its parts in order)"""
    r, p = I.deref_root(st, args[1])
    v = I.content(st, args[0])
    st = st.copy()

    def one(v):
        if v[0] == "tup":
            for x in v[1]:
                one(I.content(st, x))
        else:
            I.write_loc(st, r, p, ("op", "hashed", I.read_loc(st, r, p), v))
    one(v)
    return [(st, UNIT)]


def first_steps(C, rule, body, pr, run, ideal, what, view=None, roots=()):
    """the first steps from a fresh state, with every field of it known"""
    import terms
    try:
        I = C.interp(pr)
        terms.EXTRA, terms.CHANGED = {}, {}
        code = run(I)
        if I.loops:
            raise Undecided("a loop over known elements that is summed up instead of carried through")
        ref = run_spec(I, St(), ideal)
        mm, pairs = compare(I, code, ref, roots)
        real = [x for x in mm if not x.undecided and not any(picked(t) for d in (x.facts.var, x.facts.nvar, x.facts.bl, x.facts.iv) for t in d)
                and not picked(x.code)]
        if mm or not pairs:
            x = (real or mm or [None])[0]
            C.record(rule, fname(body), "violation" if real else "undecided", "%s: %s" % (what, "no comparable path" if x is None else
                     "when [%s]: code gives %s, expected %s" % (show_facts(x.facts), T.show(x.code)[:400], T.show(x.spec)[:400])), "fresh", body.loc)
        else:
            C.record(rule, fname(body), "ok", "%s: %d path pairs" % (what, pairs), "fresh", body.loc)
        C.done(I)
    except (Undecided, RecursionError) as e:
        C.record(rule, fname(body), "undecided", str(e)[:200], "fresh", body.loc)
    finally:
        terms.EXTRA, terms.CHANGED = C.p.extra_fields(), C.p.changed_fields()


def picked(t):
    """speaks of an element of a known sequence at a place that is not known"""
    if not isinstance(t, tuple):
        return False
    if len(t) == 3 and t[0] == "nth" and t[1][:1] == ("seq",) and not is_int(t[2]):
        return True
    return any(picked(x) for x in t if isinstance(x, tuple))


def scripted(probes, run):
    """stand-in for the function value a scope is given: the call of the n-th
    one carries out the n-th part of a script on the scope it is given"""
    def h(I, st, fn, args, atys, dty):
        f, a = args[0], args[1]
        if f[0] == "ref":
            f = I.read_loc(st, f[1], f[2])
        if f[0] != "sym" or f[1] not in probes:
            return None
        x = a[1][0] if a[0] == "tup" else fld(a, "()", 0, 0)
        if x[0] != "ref":
            raise Undecided("the scope is not passed on by reference")
        return run(I, st, x, probes[f[1]])
    return {"core::ops::function::FnOnce::call_once": h, "core::ops::function::FnMut::call_mut": h, "core::ops::function::Fn::call": h}


def scope_script(C, rule, body, prims, new, script, enter, look, ideal):
    """a fresh scope, through a script of nested steps: every lookup on the way
    finds what `ideal` says"""
    probes, root = {}, ("A", "scope")

    def run(I, st, ref, nodes):
        states = [(st, ())]
        for nd in nodes:
            nxt = []
            for s, vs in states:
                if nd[0] == "look":
                    outs = I.call_body(s, look[0], [I.read_loc(s, ref[1], ref[2])] + look[1])
                else:
                    n = "$part%d" % len(probes)
                    probes[n] = nd[-1]
                    outs = I.call_body(s, enter[nd[0]], [ref] + list(nd[1:-1]) + [("sym", n)])
                for o in outs:
                    if o.kind != "ret":
                        raise Undecided("a step of the script panics")
                    if nd[0] != "look" and o.val[0] != "tup":
                        raise Undecided("the result of the inner steps is not handed on")
                    nxt.append((o.st, vs + ((o.val,) if nd[0] == "look" else o.val[1])))
            states = nxt
        return [(s, ("tup", vs)) for s, vs in states]
    pr = dict(prims)
    pr.update(scripted(probes, run))

    def code(I):
        outs = []
        for o in I.call_body(St(), new, []):
            s = o.st.copy()
            s.mem[root] = o.val
            outs += [Outcome("ret", s2, v) for s2, v in run(I, s, ("ref", root, ()), script)]
        return outs

    def spell(nodes):
        return " ".join("look" if n[0] == "look" else "%s{%s}" % (n[0], spell(n[-1])) for n in nodes)
    first_steps(C, rule, body, pr, code, lambda c: ("tup", tuple(ideal(c))), "from a new scope, " + spell(script))
