"""Loads the JSON facts written by the driver and resolves the program."""
import json, os, glob, re


class Ty:
    __slots__ = ("k", "path", "args", "t", "mut", "s", "n", "df", "g")

    def __repr__(self):
        return self.g


class Body:
    __slots__ = ("d", "crate", "types", "df", "canon", "kind", "loc", "nargs", "locals", "vars",
                 "blocks", "impl", "self_ty", "trait", "trait_args", "derived", "default_of",
                 "root", "parent", "pub", "exp", "_loops", "unit", "generics", "given")

    def __repr__(self):
        return "<Body %s>" % self.df


class Types:
    """the types a function mentions, its parameters replaced"""

    def __init__(self, prog, types, m):
        self.p, self.types, self.m, self.memo = prog, types, m, {}

    def __getitem__(self, i):
        t = self.memo.get(i)
        if t is None:
            t = self.memo[i] = self.p.tsub(self.types[i], self.m)
        return t


class Program:
    _extra = None
    _changed = None

    def __init__(self, dirname):
        self.tyintern = {}
        self.instances = {}
        self.bodies = {}        # def -> Body
        self.by_canon = {}      # canon -> [Body]
        self.adts = {}          # path -> dict
        self.impls = []         # dict(def,self_ty,trait,trait_args,items,crate)
        self.units = {}
        self.missing = []
        for f in sorted(glob.glob(os.path.join(dirname, "*.json"))):
            self.load(f)
        self.from_impls = {}    # (target g, source g) -> def of `from`
        self.impl_of = {}       # (trait, self head) -> [impl]
        for im in self.impls:
            if not im.get("trait"):
                continue
            st = im["self_ty"]
            self.impl_of.setdefault((im["trait"], head(st)), []).append(im)
            if im["trait"] == "core::convert::From":
                for n, d in im["items"]:
                    if n == "from":
                        self.from_impls[(st.g, im["trait_args"][1].g)] = d

    def mk(self, **kw):
        t = Ty()
        for a in Ty.__slots__:
            setattr(t, a, kw.get(a))
        return self.tyintern.setdefault(t.g, t)

    def load(self, f):
        with open(f) as fh:
            d = json.load(fh)
        raw = d["types"]
        memo = {}

        def conv(i):
            if i in memo:
                return memo[i]
            j = raw[i]
            k = j["k"]
            if k == "adt":
                a = [conv(x) for x in j["args"]]
                g = j["path"] + ("<%s>" % ",".join(x.g for x in a) if a else "")
                t = self.mk(k=k, path=j["path"], args=a, s=j["s"], g=g)
            elif k in ("ref", "ptr"):
                x = conv(j["t"])
                g = ("&mut " if j["mut"] else "&") + x.g
                if k == "ptr":
                    g = "*" + g
                t = self.mk(k=k, t=x, mut=j["mut"], s=j["s"], g=g)
            elif k == "tuple":
                a = [conv(x) for x in j["args"]]
                t = self.mk(k=k, args=a, s=j["s"], g="(%s)" % ",".join(x.g for x in a))
            elif k in ("slice", "array"):
                x = conv(j["t"])
                t = self.mk(k=k, t=x, n=j.get("n"), s=j["s"],
                            g="[%s%s]" % (x.g, "; %s" % j.get("n") if k == "array" else ""))
            elif k == "closure":
                t = self.mk(k=k, df=j["def"], args=[conv(x) for x in j["up"]], s=j["s"],
                            g="closure:" + j["def"])
            elif k == "fndef":
                a = [conv(x) for x in j["args"]]
                t = self.mk(k=k, path=j["path"], df=j["def"], args=a, s=j["s"],
                            g="fn:%s<%s>" % (j["def"], ",".join(x.g for x in a)))
            else:
                t = self.mk(k=k, s=j["s"], g=j["s"])
            memo[i] = t
            return t

        types = [conv(i) for i in range(len(raw))]
        unit = "%s-%s" % (d["crate"], d["kind"])
        self.units[unit] = {"bodies": len(d["bodies"]), "impls": len(d["impls"])}
        self.missing += d["missing"]
        for p, a in d["adts"].items():
            if a is None:
                continue
            for v in a["variants"]:
                for fl in v["fields"]:
                    fl["ty"] = types[fl["ty"]] if fl["ty"] is not None else None
            old = self.adts.get(p)
            if old is None or (a["local"] and not old["local"]):
                a["unit"] = unit
                self.adts[p] = a
        for im in d["impls"]:
            im["self_ty"] = types[im["self_ty"]]
            im["trait_args"] = [types[x] for x in im.get("trait_args", [])]
            im["unit"] = unit
            self.impls.append(im)
        for b in d["bodies"]:
            o = Body()
            o.d = b
            o.crate = d["crate"]
            o.unit = unit
            o.types = types
            o.df = b["def"]
            o.canon = b["canon"]
            o.kind = b["kind"]
            o.loc = b["loc"]
            o.exp = b.get("exp")
            o.nargs = b["nargs"]
            o.locals = [types[x] for x in b["locals"]]
            o.vars = b["vars"]
            o.blocks = b["blocks"]
            o.impl = b.get("impl")
            o.self_ty = types[b["self_ty"]] if b.get("self_ty") is not None else None
            o.trait = b.get("trait")
            o.trait_args = [types[x] for x in b.get("trait_args", [])]
            o.derived = b.get("derived")
            o.default_of = b.get("default_of")
            o.root = b.get("root")
            o.parent = b.get("parent")
            o.pub = b.get("pub")
            o.generics = b.get("generics", [])
            o.given = None
            o._loops = None
            self.bodies[o.df] = o
            self.by_canon.setdefault(o.canon, []).append(o)

    # -- generic functions at given types ----------------------------------
    def at_types(self, body, args):
        """`body` with its type parameters standing for `args`"""
        g = body.generics
        if not g or len(g) != len(args):
            return body
        return self.given(body, {n: a for n, a in zip(g, args) if not (a.k == "param" and a.g == n)})

    def given(self, body, m):
        if not m:
            return body
        key = body.df + "#" + ",".join("%s=%s" % (n, m[n].g) for n in sorted(m))
        o = self.instances.get(key)
        if o is None:
            o = Body()
            for a in Body.__slots__:
                setattr(o, a, getattr(body, a))
            self.instances[key] = o
            if body.kind == "Closure":
                o.df = key
                self.bodies[key] = o
            o.types = Types(self, body.types, m)
            o.given = m
            o.locals = [self.tsub(t, m) for t in body.locals]
        return o

    def closure(self, df, m):
        """the definition of a closure of a function at given types"""
        b = self.bodies.get(df)
        if b is None or not m:
            return df
        return self.given(b, m).df

    def tsub(self, t, m):
        if t is None:
            return None
        if t.k == "param":
            return m.get(t.g, t)
        if t.k == "adt" and t.args:
            a = [self.tsub(x, m) for x in t.args]
            if a == t.args:
                return t
            g = t.path + "<%s>" % ",".join(x.g for x in a)
            return self.mk(k=t.k, path=t.path, args=a, s=t.s, g=g)
        if t.k in ("ref", "ptr"):
            x = self.tsub(t.t, m)
            if x is t.t:
                return t
            return self.mk(k=t.k, t=x, mut=t.mut, s=t.s, g=("*" if t.k == "ptr" else "") + ("&mut " if t.mut else "&") + x.g)
        if t.k == "tuple" and t.args:
            a = [self.tsub(x, m) for x in t.args]
            return t if a == t.args else self.mk(k=t.k, args=a, s=t.s, g="(%s)" % ",".join(x.g for x in a))
        if t.k in ("slice", "array"):
            x = self.tsub(t.t, m)
            return t if x is t.t else self.mk(k=t.k, t=x, n=t.n, s=t.s, g="[%s%s]" % (x.g, "; %s" % t.n if t.k == "array" else ""))
        if t.k == "fndef" and t.args:
            a = [self.tsub(x, m) for x in t.args]
            return t if a == t.args else self.mk(k=t.k, path=t.path, df=t.df, args=a, s=t.s, g="fn:%s<%s>" % (t.df, ",".join(x.g for x in a)))
        if t.k == "closure":
            d = self.closure(t.df, m)
            return t if d == t.df else self.mk(k=t.k, df=d, args=[self.tsub(x, m) for x in t.args], s=t.s, g="closure:" + d)
        return t

    # -- lookups ----------------------------------------------------------
    def method(self, trait, self_path, name):
        """Body of `<self_path as trait>::name`, or None."""
        for im in self.impl_of.get((trait, self_path), []):
            for n, d in im["items"]:
                if n == name:
                    return self.bodies.get(d)
        return None

    def inherent(self, canon):
        b = self.by_canon.get(canon)
        return b[0] if b else None

    def known_fields(self):
        import os
        with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "fields.json")) as fh:
            known = json.load(fh)
        for path, vs in known.items():
            for i, v in enumerate((self.adts.get(path) or {"variants": []})["variants"]):
                if v["name"] in vs:
                    yield path, i, v["fields"], dict(vs[v["name"]])

    def extra_fields(self):
        """(path, variant) -> indices of the fields a struct or variant has
        beyond the ones the rules know (see fields.json).  What such a field
        holds is up to invariants the rules know nothing about: what it is
        set to is ignored, what is read from it is unknown."""
        if self._extra is None:
            self._extra = {}
            for path, i, fs, old in self.known_fields():
                names = [f["name"] for f in fs]
                if set(old) < set(names):
                    self._extra[path, i] = frozenset(k for k, n in enumerate(names) if n not in old)
        return self._extra

    def changed_fields(self):
        """(path, variant) -> indices of the fields that have another type
        than the rules know: what is kept there may mean something else, so a
        difference that involves one decides nothing."""
        if self._changed is None:
            self._changed = {}
            for path, i, fs, old in self.known_fields():
                x = frozenset(k for k, f in enumerate(fs) if f["name"] in old and plain(f["ty"]) != old[f["name"]])
                if x:
                    self._changed[path, i] = x
        return self._changed

    def nfields(self, path, variant):
        a = self.adts.get(path)
        if a is None or variant >= len(a["variants"]):
            return None
        return len(a["variants"][variant]["fields"])

    def variant_index(self, path, name):
        a = self.adts.get(path)
        if a is None:
            return None
        for i, v in enumerate(a["variants"]):
            if v["name"] == name:
                return i
        return None

    def field_index(self, path, name, variant=0):
        a = self.adts.get(path)
        if a is None:
            return None
        for i, f in enumerate(a["variants"][variant]["fields"]):
            if f["name"] == name:
                return i
        return None


def plain(t):
    """the type, whatever order its tables keep"""
    g = t.g if t is not None else ""
    g = re.sub(r"\b(?:std|alloc)::(?:collections::)?[a-z_:]*(?:Hash|BTree)(Map|Set)<", r"\1<", g)
    return re.sub(r",(?:std|alloc|core)::[a-z_:]*(?:RandomState|Global)\b", "", g)


def head(t):
    if t.k == "adt":
        return t.path
    if t.k == "ref":
        return "&" + head(t.t)
    return t.g
