"""The same text gives the same code: nothing in the output depends on what differs
from one run, or one call, to the next.  A flow analysis over the MIR of the library
and the programs: iterators over hash tables (their order is random), state that
outlives a call, clocks, processes, threads, randomness and addresses."""
from base import *
import re

SCOPE = {"chomp", "chomp_macro", "autonibble"}
ITERS = {"Iter", "IterMut", "IntoIter", "Keys", "Values", "ValuesMut", "IntoKeys", "IntoValues", "Drain", "ExtractIf",
         "Union", "Intersection", "Difference", "SymmetricDifference"}
HASHED = re.compile(r"(^|::)(hash|hashbrown|hash_map|hash_set)::")
TABLES = {"HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap"}
ORDERED = {"Vec", "VecDeque", "LinkedList", "String", "TokenStream", "PathBuf", "Punctuated"}
# adapters that make a difference of the order
NUMBERING = {"Enumerate", "Zip", "Take", "Skip", "StepBy", "TakeWhile", "SkipWhile", "MapWhile", "Scan"}
SETTLED = {"len", "count", "any", "all", "sum", "product", "min", "max", "size_hint", "is_empty", "drop", "fmt", "clone"}
INTO = {"collect", "from_iter", "extend", "partition", "unzip", "try_collect", "append_all", "extend_from_slice"}
GROW = re.compile(r"(Vec|VecDeque|LinkedList)::(push\w*|insert|append|extend\w*)$|String::(push\w*|insert\w*)$|Write::write_(str|fmt|char|all)$"
                  r"|Formatter::write_\w+$|ToTokens::to_tokens$|TokenStreamExt::append\w*$|quote::__private::push_\w+$|Extend::extend$")
GLOBAL = {"Atomic", "Mutex", "RwLock", "RefCell", "Cell", "UnsafeCell", "LocalKey"}
SOURCES = re.compile(r"time::(Instant|SystemTime)::now$|process::id$|thread::current$|thread::id$|hash::random::RandomState::new$|env::(var|var_os|vars|temp_dir|current_dir|current_exe)$"
                     r"|getrandom|(^|::)rand::")
QUIET = re.compile(r"io::stdio::_eprint|process::exit|panicking|drop_in_place")
WRITES = re.compile(r"io::Write::\w+$|io::stdio::_print$")


def inside(t, f, seen=None):
    """whether `f` holds of the type or of one it is made of"""
    if t is None:
        return False
    if f(t):
        return True
    if t.k in ("adt", "tuple", "fndef"):
        return any(inside(x, f) for x in t.args or ())
    if t.k in ("ref", "ptr", "slice", "array"):
        return inside(t.t, f)
    return False


def last(p):
    return p.rsplit("::", 1)[-1]


def unordered(t):
    return t.k == "adt" and last(t.path) in ITERS and bool(HASHED.search(t.path))


def numbering(t):
    return t.k == "adt" and last(t.path) in NUMBERING


def hashed(t):
    return t.k == "adt" and last(t.path) in ("HashMap", "HashSet") and bool(HASHED.search(t.path))


def target(t):
    while t is not None and t.k in ("ref", "ptr"):
        t = t.t
    return t


def place_ty(b, pl):
    t = b.locals[pl[0]]
    for e in pl[1:]:
        if e == "*":
            t = t.t if t is not None and t.k in ("ref", "ptr") else None
        elif isinstance(e, list) and e[0] == "f":
            t = b.types[e[2]]
        else:
            t = None
        if t is None:
            return None
    return t


def op_place(o):
    return (o.get("copy") or o.get("move")) if isinstance(o, dict) else None


def op_ty(b, o):
    p = op_place(o)
    if p is not None:
        return place_ty(b, p)
    c = o.get("const") if isinstance(o, dict) else None
    return b.types[c["ty"]] if c and c.get("ty") is not None else None


def callee(t):
    f = t[1].get("fn") if isinstance(t[1], dict) else None
    return f["path"] if f else None


def calls(b):
    for i, bl in enumerate(b.blocks):
        if bl["t"][0] == "call" and not bl.get("cleanup"):
            yield i, bl["t"], bl.get("loc", b.loc)


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [x[1] for x in t[2]] + [t[3]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "drop":
        return [t[2]]
    if k == "assert":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)][:1]
    return []


def reach(b, i):
    out, todo = set(), [i]
    while todo:
        k = todo.pop()
        if k in out or not isinstance(k, int):
            continue
        out.add(k)
        todo += succs(b.blocks[k]["t"])
    return out


def in_loop(b, i):
    """the blocks on a cycle with `i`"""
    fwd = set().union(*[reach(b, s) for s in succs(b.blocks[i]["t"])] or [set()])
    return {k for k in fwd if i in fwd and i in reach(b, k)}


def scope(C):
    return [b for b in C.p.bodies.values() if b.crate in SCOPE and not b.derived]


def sorts(b):
    return any("sort" in last(callee(t) or "") for _, t, _ in calls(b))


def order(C, rule="repeat.order"):
    """what is taken from a hash table in no particular order does not end up in one"""
    bs, n, k = scope(C), 0, 0
    for b in bs:
        for i, t, loc in calls(b):
            k += 1
            path = callee(t)
            tys = [op_ty(b, o) for o in t[2]]
            if not any(inside(x, unordered) for x in tys):
                continue
            n += 1
            name = last(path or "?")
            dst = place_ty(b, t[3])
            if inside(dst, unordered) and name not in ("partition", "unzip"):
                continue
            status, why = "undecided", "%s over a hash table" % name
            if name in SETTLED:
                status, why = "ok", ""
            elif name in INTO:
                into = target(tys[0] if name in ("extend", "append_all") else dst)
                if inside(into, lambda x: x.k == "adt" and last(x.path) in ORDERED and not (x is not into and False)) and not (into.k == "adt" and last(into.path) in TABLES):
                    if sorts(b):
                        status, why = "ok", "sorted afterwards"
                    else:
                        status, why = "violation", "the elements of a hash table are put in the order they happen to have"
                elif into is not None and into.k == "adt" and last(into.path) in TABLES:
                    status, why = ("violation", "the elements of a hash table are numbered in the order they happen to have") if any(inside(x, numbering) for x in tys) else ("ok", "")
            elif name == "next":
                ring = in_loop(b, i)
                grow = [callee(b.blocks[j]["t"]) for j in ring if b.blocks[j]["t"][0] == "call" and callee(b.blocks[j]["t"]) and GROW.search(callee(b.blocks[j]["t"]))
                        and not tabled(b, b.blocks[j]["t"])]
                if grow and not sorts(b):
                    status, why = "violation", "a loop over a hash table, in the order it happens to have, puts together a result with an order (%s)" % last(grow[0])
                elif ring and not effects(C, b, ring):
                    status, why = "ok", ""
            elif name in ("for_each", "fold", "try_fold", "try_for_each"):
                cl = [x for x in tys if x is not None and x.k == "closure"]
                c = C.p.bodies.get(cl[0].df) if cl else None
                if c is not None:
                    grow = [callee(u) for _, u, _ in calls(c) if callee(u) and GROW.search(callee(u)) and not tabled(c, u)]
                    if grow and not sorts(b):
                        status, why = "violation", "a fold over a hash table, in the order it happens to have, puts together a result with an order (%s)" % last(grow[0])
            C.record(rule, fname(b), status, why, loc=loc)
    C.record(rule, "every function", "ok", "%d functions, %d calls, %d of them on an iterator over a hash table" % (len(bs), k, n))


def tabled(b, t):
    """whether what the call adds to is a table"""
    x = target(op_ty(b, t[2][0])) if t[2] else None
    return x is not None and x.k == "adt" and last(x.path) in TABLES


def effects(C, b, ring):
    """whether the blocks may change something other than tables and numbers"""
    for j in ring:
        t = b.blocks[j]["t"]
        if t[0] == "call":
            p = callee(t)
            if p is None or QUIET.search(p) or tabled(b, t):
                continue
            ts = [op_ty(b, o) for o in t[2]]
            if last(p) == "next" and any(inside(x, unordered) for x in ts):
                continue
            if any(x is not None and x.k == "ref" and x.mut for x in ts):
                return True
    return False


# ------------------------------------------------------------ values that differ
def is_global(b, o):
    """a reference to a variable that outlives the call, or None"""
    c = o.get("const") if isinstance(o, dict) else None
    if not c or c.get("ty") is None:
        return None
    t = b.types[c["ty"]]
    if t.k == "ptr" and t.mut:
        return target(t)
    if t.k == "adt" and last(t.path) == "LocalKey":
        return t
    if t.k == "ref" and inside(t.t, lambda x: x.k == "adt" and last(x.path) in GLOBAL) and not inside(t.t, lambda x: x.k == "adt" and last(x.path) in ("OnceLock", "LazyLock", "OnceCell", "LazyCell", "Once", "Lazy")):
        return t.t
    return None


def numeric(t):
    """state that can only count: no table in it"""
    return not inside(t, lambda x: x.k == "adt" and last(x.path) in TABLES)


def uses(rv):
    """the operands and places of an rvalue"""
    out = []

    def go(x):
        if isinstance(x, dict):
            if "copy" in x or "move" in x or "const" in x:
                out.append(x)
            else:
                for y in x.values():
                    go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    if rv[0] in ("ref", "addr", "discr", "len"):
        out.append({"copy": rv[1]})
    else:
        go(rv[1:])
    return out


def flows(C, b, tainted_fns):
    """what reaches the result or the caller's variables: [(source, location)], or []"""
    hot = {}            # local -> source
    sink = {}
    refs = {}           # local -> the local it refers to
    muts = {k for k in range(1, b.nargs + 1) if b.locals[k].k == "ref" and b.locals[k].mut}

    def mark(pl, src):
        ch = False
        r = pl[0]
        if pl[0] in muts and len(pl) > 1 and pl[1] == "*" or pl[0] == 0:
            sink.setdefault(src, True)
        for _ in range(8):
            if r not in hot:
                hot[r] = src
                ch = True
            if r in muts:
                sink.setdefault(src, True)
            if r not in refs:
                break
            r = refs[r]
        return ch

    def source_of(o):
        p = op_place(o)
        if p is not None:
            return hot.get(p[0])
        g = is_global(b, o)
        if g is not None:
            return ("a variable that keeps its value from call to call" if numeric(g) else "?a table that is kept from call to call", b.loc)
        return None
    if not any(True for _ in b.blocks):
        return []
    ctrl = {}
    ch = True
    while ch:
        ch = False
        for i, bl in enumerate(b.blocks):
            if bl.get("cleanup"):
                continue
            for s in bl["s"]:
                if s[0] != "=":
                    continue
                rv = s[2]
                if rv[0] == "ref" and rv[2] and len(s[1]) == 1 and s[1][0] not in refs and rv[1][0] != s[1][0]:
                    refs[s[1][0]] = rv[1][0]
                src = next((x for x in map(source_of, uses(rv)) if x), None)
                if rv[0] == "cast" and re.search("PointerExpose", str(rv[1])):
                    src = ("an address", s[3])
                src = src or ctrl.get(i)
                if src:
                    ch |= mark(s[1], src)
            t = bl["t"]
            if t[0] == "call":
                p = callee(t) or ""
                if QUIET.search(p):
                    continue
                src = None
                if SOURCES.search(p):
                    src = (p, bl.get("loc", b.loc))
                elif p.endswith("Argument::new_debug") and any(inside(op_ty(b, o), hashed) for o in t[2]):
                    src = ("the order of a hash table", bl.get("loc", b.loc))
                elif tainted_fns.get(res_of(t)):
                    src = tainted_fns[res_of(t)]
                src = src or next((x for x in map(source_of, t[2]) if x), None) or ctrl.get(i)
                if src:
                    if WRITES.search(p):
                        sink.setdefault(src, True)
                    ch |= mark(t[3], src)
                    for o in t[2]:
                        q = op_place(o)
                        x = op_ty(b, o)
                        if q is not None and x is not None and x.k == "ref" and x.mut:
                            ch |= mark(q, src)
            elif t[0] == "switch":
                src = source_of(t[1])
                if src:
                    ss = [reach(b, x) for x in succs(t)]
                    only = set().union(*ss) - set.intersection(*ss)
                    for j in only:
                        if j not in ctrl and not b.blocks[j].get("cleanup"):
                            ctrl[j] = src
                            ch = True
    return list(sink)


def res_of(t):
    f = t[1].get("fn") if isinstance(t[1], dict) else None
    return (f.get("res") or f["def"]) if f else None


def state(C, rule="repeat.state"):
    """no clock, random number, address or variable that outlives a call decides a result"""
    bs = scope(C)
    bad = {}
    ch = True
    while ch:
        ch = False
        for b in bs:
            if b.df in bad:
                continue
            r = flows(C, b, bad)
            if r:
                bad[b.df] = r[0]
                ch = True
    done = set()
    for b in sorted(bs, key=lambda b: (not (b.df in bad and flows(C, b, {})), b.df)):      # where it is taken, first
        if b.df in bad:
            what, loc = bad[b.df]
            if (what, loc) in done:
                continue
            done.add((what, loc))
            C.record(rule, fname(b), "undecided" if what[0] == "?" else "violation", "its result depends on " + what.lstrip("?"), loc=loc)
    C.record(rule, "every function", "ok", "%d functions" % len(bs))
