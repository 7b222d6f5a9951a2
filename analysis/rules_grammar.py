"""The grammars written in the repository's own notation: what they accept.

A grammar is taken from the types the code generator makes of it (a choice is
an enum, a sequence a struct, a literal a unit struct) and compared with a
reference grammar.  Both are deterministic, so two stacks of symbols accept the
same texts when they are related by a relation closed under reading a
character (a bisimulation); the relation is built up to congruence, that is a
pair may be split where its tops are related.  Nothing is read or run: a
character is a class both grammars treat alike, and a stack a symbolic state."""
from collections import deque
from base import *
import rules_auto as RA
import rules_bench as RB
from rules_auto import adt, stem, strip, literal_text

EPS_TY = "chewed::parse::Epsilon"
AU = "autonibble::"


class Conflict(Exception):
    pass


class Grammar:
    """symbol -> alternatives, each a tuple of symbols and classes of characters"""

    def __init__(self, rules, start):
        self.g, self.start = rules, start
        self.merge()
        self.prune()

    def merge(self):
        """a choice between single characters is a class"""
        ch = True
        while ch:
            ch = False
            for s, alts in list(self.g.items()):
                new = []
                for a in alts:
                    b = tuple(next(iter(self.g[x]))[0] if not isinstance(x, frozenset) and self.single(x) else x for x in a)
                    new.append(b)
                one = [a[0] for a in new if len(a) == 1 and isinstance(a[0], frozenset)]
                if len(one) > 1:
                    if sum(map(len, one)) != len(frozenset().union(*one)):
                        raise Conflict("two ways to read one of %s" % "".join(sorted(frozenset().union(*one)))[:20])
                    new = [a for a in new if not (len(a) == 1 and isinstance(a[0], frozenset))] + [(frozenset().union(*one),)]
                new = list(dict.fromkeys(new))
                if new != alts:
                    self.g[s] = new
                    ch = True
        used, todo = set(), [self.start]
        while todo:
            s = todo.pop()
            if s not in used:
                used.add(s)
                todo += [x for a in self.g[s] for x in a if not isinstance(x, frozenset)]
        self.g = {s: a for s, a in self.g.items() if s in used}

    def single(self, x):
        a = self.g[x]
        return len(a) == 1 and len(a[0]) == 1 and isinstance(a[0][0], frozenset)

    def prune(self):
        """drop what no text matches; the shortest text of each symbol"""
        self.short = {}
        ch = True
        while ch:
            ch = False
            for s, alts in self.g.items():
                for a in alts:
                    w = self.word(a)
                    if w is not None and (s not in self.short or (len(w), w) < (len(self.short[s]), self.short[s])):
                        self.short[s] = w
                        ch = True
        self.g = {s: [a for a in alts if self.word(a) is not None] for s, alts in self.g.items() if s in self.short}
        if self.start not in self.g:
            raise Conflict("no text matches")
        self.null = {s for s, w in self.short.items() if w == ""}
        self.nothing = {s for s in self.null if all(all(x in self.null for x in a) for a in self.g[s])}
        ch = True
        while ch:                       # symbols that only ever match the empty text
            n = {s for s in self.nothing if all(all(x in self.nothing for x in a) for a in self.g[s])}
            ch, self.nothing = n != self.nothing, n
        self.first = {s: set() for s in self.g}
        ch = True
        while ch:
            ch = False
            for s, alts in self.g.items():
                n = set()
                for a in alts:
                    n |= self.firsts(a)
                if n != self.first[s]:
                    self.first[s] = n
                    ch = True
        self.memo = {}

    def word(self, a):
        out = ""
        for x in a:
            w = min(x) if isinstance(x, frozenset) else self.short.get(x)
            if w is None:
                return None
            out += w
        return out

    def nullable(self, a):
        return all(x in self.null for x in a)

    def firsts(self, a):
        out = set()
        for x in a:
            if isinstance(x, frozenset):
                return out | x
            out |= self.first[x]
            if x not in self.null:
                return out
        return out

    def norm(self, a):
        return tuple(x for x in a if x not in self.nothing)

    def step(self, a, c, depth=0):
        """the stacks after `c`"""
        k = (a, c)
        r = self.memo.get(k)
        if r is None:
            if depth > 200:
                raise Conflict("a symbol that starts with itself")
            r = set()
            for i, x in enumerate(a):
                if isinstance(x, frozenset):
                    if c in x:
                        r.add(self.norm(a[i + 1:]))
                    break
                if c in self.first[x]:
                    for b in self.g[x]:
                        if c in self.firsts(b):
                            r |= {self.norm(s + a[i + 1:]) for s in self.step(b, c, depth + 1)}
                if x not in self.null:
                    break
            self.memo[k] = r
        return r

    def after(self, a, c):
        r = self.step(a, c)
        if len(r) > 1:
            raise Conflict("two ways to read %r" % c)
        return next(iter(r)) if r else None

    def accepts(self, w):
        s = {(self.start,)}
        for c in w:
            s = set().union(*[self.step(a, c) for a in s]) if s else s
        return any(self.nullable(a) for a in s)

    def classes(self):
        return {x for alts in self.g.values() for a in alts for x in a if isinstance(x, frozenset)}


class Wrong(Exception):
    def __init__(self, word, mine):
        self.word, self.mine = word, mine


DEPTH, SPLITS, PAIRS, TRIES = 5, 4, 4000, 60


class Compare:
    def __init__(self, G, R):
        self.G, self.R = G, R
        cs = sorted(G.classes() | R.classes(), key=sorted)
        sig = {}
        for c in sorted(set().union(*cs)):
            sig.setdefault(tuple(i for i, k in enumerate(cs) if c in k), c)
        self.chars = sorted(sig.values())
        self.ids, self.memo = {}, {}
        self.bad = set()

    def sig(self, g, a, d):
        k = (g is self.G, a, d)
        r = self.memo.get(k)
        if r is None:
            e = [g.nullable(a)]
            if d:
                f = g.firsts(a)
                for c in self.chars:
                    if c in f:
                        e.append((c, self.sig(g, g.after(a, c), d - 1)))
            r = self.memo[k] = self.ids.setdefault((d, tuple(e)), len(self.ids))
        return r

    def suspects(self, words):
        for w in words:
            if w is not None:
                x, y = self.G.accepts(w), self.R.accepts(w)
                if x != y:
                    raise Wrong(w, x)

    def split(self, a, b):
        for n in range(2, 2 * SPLITS + 1):
            for i in range(max(1, n - SPLITS), min(n, SPLITS + 1)):
                j = n - i
                if i > len(a) or j > len(b) or (i == len(a) and j == len(b)) or (a[:i], b[:j]) in self.bad:
                    continue
                if self.sig(self.G, a[:i], DEPTH) == self.sig(self.R, b[:j], DEPTH):
                    return i, j
        return None

    def run(self):
        """the pairs of a bisimulation, or Wrong; None if it could not be decided"""
        G, R = self.G, self.R
        for _ in range(TRIES):
            r = self.attempt()
            if r is not None:
                return r
        return None

    def attempt(self):
        G, R = self.G, self.R
        seen = {}
        # stacks, the text so far, what follows them, the split they come from
        todo = deque([(G.norm((G.start,)), R.norm((R.start,)), "", (), (), None)])
        while todo:
            a, b, w, x, y, why = todo.popleft()
            if (a, b) in seen:
                continue
            seen[a, b] = why
            if len(seen) > PAIRS:
                raise Conflict("too many states")
            if G.nullable(a) != R.nullable(b):
                self.suspects([w + G.word(x), w + R.word(y), w + G.word(a + x), w + R.word(b + y)])
                return self.blame(why)
            ij = self.split(a, b) if len(a) > 1 or len(b) > 1 else None
            if ij:
                i, j = ij
                me = (a[:i], b[:j], why)
                todo.append((a[:i], b[:j], w, a[i:] + x, b[j:] + y, me))
                todo.append((a[i:], b[j:], w + G.word(a[:i]), x, y, me))
                continue
            f, g = G.firsts(a), R.firsts(b)
            for c in self.chars:
                if (c in f) != (c in g):
                    self.suspects([w + c + G.word(G.after(a, c) + x) if c in f else None, w + c + R.word(R.after(b, c) + y) if c in g else None])
                    return self.blame(why)
                if c in f:
                    todo.append((G.after(a, c), R.after(b, c), w + c, x, y, why))
        return seen

    def blame(self, why):
        """the split that was wrong is not tried again"""
        while why is not None and (why[0], why[1]) in self.bad:
            why = why[2]
        if why is None:
            raise Conflict("no text tells them apart, and no relation shows them equal")
        self.bad.add((why[0], why[1]))
        return None


# ------------------------------------------------------------ from the types
def of_types(C, prefix, root):
    rules = {}

    def ref(t):
        p = adt(t)
        if p is None:
            raise Missing("the type %s in the syntax tree" % t.g)
        todo.append(p)
        return p
    todo = [root]
    while todo:
        p = todo.pop()
        if p in rules:
            continue
        if p == EPS_TY:
            rules[p] = [()]
            continue
        if not p.startswith(prefix) or p not in C.p.adts:
            raise Missing("the type %s in the syntax tree" % p)
        a = C.p.adts[p]
        if a["kind"] == "enum":
            if any(len(v["fields"]) != 1 for v in a["variants"]):
                raise Missing("the choice " + p)
            rules[p] = [(ref(v["fields"][0]["ty"]),) for v in a["variants"]]
        elif a["variants"][0]["fields"]:
            rules[p] = [tuple(ref(f["ty"]) for f in a["variants"][0]["fields"])]
        else:
            w = literal_text(C, p)
            if w is None:
                raise Missing("the text of " + p)
            rules[p] = [tuple(frozenset(c) for c in w)]
    return Grammar(rules, root)


# ------------------------------------------------------------ the references
class Ref:
    """reference grammars, written with sequences, choices and repetition"""

    def __init__(self):
        self.g, self.n = {}, 0

    def new(self, alts):
        self.n += 1
        self.g["#%d" % self.n] = alts
        return "#%d" % self.n

    def sym(self, x):
        """an item: a symbol, `"text` for a text, or a class"""
        if isinstance(x, (frozenset, tuple)):
            return x if isinstance(x, tuple) else (x,)
        return tuple(frozenset(c) for c in x[1:]) if x[0] == '"' else (x,)

    def seq(self, *xs):
        return sum((self.sym(x) for x in xs), ())

    def opt(self, *xs):
        return self.new([(), self.seq(*xs)])

    def star(self, *xs):
        s = self.new(None)
        self.g[s] = [(), self.seq(*xs) + (s,)]
        return s

    def plus(self, *xs):
        return self.seq(*xs) + (self.star(*xs),)

    def alt(self, *xs):
        return self.new([self.seq(x) for x in xs])

    def sep(self, item, *by):
        """item (by item)*"""
        return self.seq(item, self.star(*by, item))

    def rule(self, name, *alts):
        self.g[name] = [self.seq(*a) if isinstance(a, tuple) else self.seq(a) for a in alts]


def cls(s):
    return frozenset(s)


PLAIN = cls(chr(n) for n in range(32, 127) if chr(n) not in '"\\')


def nibble():
    r = Ref()
    blank = cls(RA.CLASSES["PatternWhitespace"])
    W, O = r.plus(blank), r.star(blank)
    letter, more, hexa = cls(RA.LETTERS), cls(RA.CLASSES["XidContinue"]), cls(RA.CLASSES["HexDigit"])
    ident = r.seq(letter, r.star(more))
    r.g["ident"] = [ident]

    def words(name, item):
        """items with blanks between them, and perhaps behind"""
        r.rule(name, (item, r.opt(W, r.opt(name))))
    words("names", "ident")
    h = r.opt(hexa)
    for _ in range(4):
        h = r.opt(hexa, h)
    esc = r.alt(cls('"\'nrt\\0'), r.seq('"x', cls("01234567"), hexa), r.seq('"u{', hexa, h, '"}'))
    string = r.seq(cls('"'), r.plus(r.alt(PLAIN, r.seq(cls("\\"), esc))), cls('"'))
    r.rule("term", cls("_"), string, (cls("("), O, "expr", cls(")")), (cls("!"), O, "term"), "ident")
    words("call", "term")
    r.g["cat"] = [r.sep("call", cls("."), O)]
    r.rule("labelled", ("cat", r.opt(cls(":"), O, "ident", O)))
    r.g["alt"] = [r.sep("labelled", cls("|"), O)]
    r.rule("expr", "alt", (cls("/"), O, "names", cls("/"), O, "alt"))
    r.rule("stmt", ('"let', W, "names", cls("="), O, "expr", cls(";"), O, "stmt"), ('"match', W, "expr", cls(";"), O))
    r.rule("program", (O, "stmt"))
    return Grammar(r.g, "program")


def arith():
    r = Ref()
    B = r.star(cls(" "))
    number = r.plus(cls(RA.DIGITS))
    r.rule("term", r.seq(r.alt(number, r.seq(cls("-"), B, number), r.seq(cls("("), B, "sum", cls(")"))), B))
    r.g["prod"] = [r.sep("term", cls("*/"), B)]
    r.g["sum"] = [r.sep("prod", cls("+-"), B)]
    r.rule("text", (B, "sum"))
    return Grammar(r.g, "text")


def json():
    r = Ref()
    B = r.star(cls(RB.BLANKS))
    d, hexa = cls(RA.DIGITS), cls(RB.HEX)
    whole = r.alt(cls("0"), r.seq(cls("123456789"), r.star(d)))
    number = r.seq(r.opt(cls("-")), whole, r.opt(cls("."), r.plus(d)), r.opt(cls("eE"), r.opt(cls("+-")), r.plus(d)))
    string = r.seq(cls('"'), r.star(r.alt(PLAIN, r.seq(cls("\\"), r.alt(cls(RB.ESCAPES), r.seq(cls("u"), hexa, hexa, hexa, hexa))))), cls('"'))
    r.rule("member", r.seq(string, B, cls(":"), B, "value", B))
    r.rule("value", '"true', '"false', '"null', number, string,
           (cls("{"), B, r.opt(r.sep("member", cls(","), B)), cls("}")),
           (cls("["), B, r.opt(r.sep(r.seq("value", B), cls(","), B)), cls("]")))
    r.rule("text", (B, "value", B))
    return Grammar(r.g, "text")


def accepts(C, rule, prefix, reference):
    roots = [p for p in C.p.adts if p.startswith(prefix) and stem(p) == "Ast"]
    if len(roots) != 1:
        raise Missing("the syntax tree of " + prefix)
    loc = C.p.adts[roots[0]].get("loc", "")
    try:
        G = of_types(C, prefix, roots[0])
        K = Compare(G, reference())
        seen = K.run()
    except Wrong as e:
        C.record(rule, roots[0], "violation", "the text %r is %s" % (e.word, "accepted, and should not be" if e.mine else "refused, and should be accepted"), loc=loc)
        return
    except Conflict as e:
        C.record(rule, roots[0], "undecided", str(e), loc=loc)
        return
    if seen is None:
        C.record(rule, roots[0], "undecided", "no relation found", loc=loc)
        return
    C.record(rule, roots[0], "ok", "%d types, %d classes of characters, %d pairs of states" % (len(G.g), len(K.chars), len(seen)), loc=loc)


def notation(C, rule="grammar.notation"):
    accepts(C, rule, AU, nibble)


def sums(C, rule="grammar.arith"):
    accepts(C, rule, RB.AR + "nibble::", arith)


def documents(C, rule="grammar.json"):
    accepts(C, rule, RB.JS + "nibble::", json)
