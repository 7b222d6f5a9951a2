"""Showing grammar expressions: every part, in order, each construct in its own notation."""
from base import *
import models
import rules_errors as RE

F = RE.F
NE = AST + "NamedExpression"
EX = AST + "Expression"
NM = "chomp::chomp::name::"
REF = ("e", ("txt", "\0the reference"))     # texts are not compared, only told apart


def shown(v):
    return ("e", ("shown", "display", v, ()))


def notation(ps):
    """the fixed texts, and where the parts stand between them"""
    out = []
    for p in ps:
        if p[0] == "e" and p[1][0] == "txt":
            out.append(p[1][1])
        elif p[0] == "map":
            out.append(notation(p[2]))
        elif p[0] == "e" and p[1][0] == "sep":
            out.append(notation(parts(p[1][1])))
        else:
            out.append(None)
    return tuple(out)


def expressions(C, rule="show.expression"):
    seen = {}

    def one(name, spec, path=None):
        path = path or AST + name

        def view(I, st, v):
            raw = parts(st.mem[F])
            if raw[:1] != (REF,) and (path not in (EX, NE) or any(p[0] == "e" and p[1][0] == "txt" for p in raw)):
                seen.setdefault(name, set()).add(notation(raw))
            return RE.view(I, st, v)
        RE.show(C, rule, path, lambda c, x: [REF] + spec(c, x), view=view)

    def get(path, *fs):
        return lambda c, x: [shown(C.get(x, path, f)) for f in fs]

    def listed(path, sep):
        def spec(c, x):
            S = C.get(x, path, "rest")
            return [shown(C.get(x, path, "first"))] + list(parts(c.map(S, lambda c, e: ("shown", "display", fld(e, "()", 0, 1), ()))))
        return spec
    one("Cat", listed(AST + "Cat", " . "))
    one("Alt", listed(AST + "Alt", " | "))
    one("Fix", get(AST + "Fix", "inner"))
    one("Variable", get(AST + "Variable", "index"))
    one("Call", lambda c, x: [shown(C.get(x, AST + "Call", "on"))] + list(parts(c.map(C.get(x, AST + "Call", "args"), lambda c, e: ("shown", "display", e, ())))))
    one("Lambda", lambda c, x: list(parts(c.map(C.get(x, AST + "Lambda", "args"), lambda c, e: ("shown", "display", e, ())))) + [shown(C.get(x, AST + "Lambda", "inner"))])
    one("Let", get(AST + "Let", "name", "bound", "body"))

    def expr(c, x):
        k = c.case(x, EX)
        n = C.p.adts[EX]["variants"][k]["name"]
        return [] if n == "Epsilon" else [shown(fld(x, EX, k, 0))]
    one("Expression", expr, EX)

    def named(c, x):
        n, e = C.get(x, NE, "name"), C.get(x, NE, "expr")
        if c.case(n, OPT) == 0:
            return [shown(e)]
        if C.p.adts[EX]["variants"][c.case(e, EX)]["name"] == "Variable":
            return [shown(fld(n, OPT, 1, 0))]
        return [shown(e), shown(fld(n, OPT, 1, 0))]
    one("NamedExpression", named, NE)
    # told apart
    by = {}
    for k, ns in seen.items():
        for n in ns:
            by.setdefault(n, set()).add(k)
    bad = [ks for ks in by.values() if len(ks) > 1]
    for k, ns in seen.items():
        if k not in ("Expression", "NamedExpression") and any(not any(isinstance(t, str) and t.strip() for t in n) for n in ns):
            bad.append({k + " without a notation of its own"})
    for k in ("Cat", "Alt", "Call"):
        for n in seen.get(k, ()):
            if not n or not all(isinstance(t, str) and t.strip() for t in (n[0], n[-1])):
                bad.append({k + " without a beginning or an end"})
            if any(isinstance(t, tuple) and not any(isinstance(u, str) and u for u in t) for t in n):
                bad.append({k + " with parts that run together"})
    loc = C.method(RE.DISPLAY, EX, "fmt")
    C.record(rule + ".apart", loc.canon, "violation" if bad else "ok",
             "; ".join(" and ".join(sorted(b)) for b in bad) if bad else "%d notations" % len(by))


def names(C, rule="show.name"):
    T_ = NM + "Content"
    RE.show(C, rule, T_, lambda c, x: [shown(fld(x, T_, c.case(x, T_), 0))])
    RE.show(C, rule, NM + "Name", lambda c, x: [shown(C.get(x, NM + "Name", "content"))])
