"""Kind tests, casts, getters and lookups show the part they name."""
from ident import *
from esp import short

EXPLANATION = (
    "For every public accessor of the element types (library) and of their JavaScript wrappers, the MIR is evaluated "
    "path by path to the value it returns, with the variants that each path has established. Obligations: is_x is true "
    "exactly on the variants its name means; into_x, as_x and get_x give the payload of that variant, with the region of "
    "the receiver, exactly on it; a method named like a field returns that field, for a field that only some variants "
    "have Some(field) on these and None on the others; x_at(i) is the i-th item of the collection and x_cnt its length; "
    "a conversion between an enum and its JavaScript counterpart keeps the variant; a constructor of a wrapper stores the "
    "region and the text it was given, in the variant of its name; region operations of Located keep the region.")
ASSUMPTIONS = ["what wasm_bindgen generates around the wrappers passes values through unchanged",
               "conversions between borrowed and owned keep the value (P07)"]

LIT = {"todopartiallycomplete": ["PartiallyComplete1", "PartiallyComplete2", "PartiallyComplete3"], "todo": ["Some"],
       "partiallycomplete": ["PartiallyComplete1", "PartiallyComplete2", "PartiallyComplete3"]}
# collections behind the numbered lookups
THROUGH = {"as_ref", "as_mut", "copied", "cloned", "as_deref", "as_deref_mut", "deref", "deref_mut", "borrow", "as_slice", "as_mut_slice"}


class Bad(Exception):
    pass


class Skip(Exception):
    pass


def flat(s):
    return s.replace("_", "").lower()


def named(name, universe):
    """variants of the universe that the method name means"""
    n = flat(name)
    for p in ("is", "into", "as", "get", "to", "new"):
        if name.startswith(p + "_"):
            n = flat(name[len(p) + 1:])
            break
    n = n[:-4] if n.endswith(("text", "link")) and len(n) > 4 and name.startswith("new_") else n
    if n in LIT:
        r = frozenset(v for v in universe if v in LIT[n])
        if r:
            return r
        return frozenset()
    if universe <= {"None", "Some"} or universe <= {"Ok", "Err"}:
        return frozenset()
    fv = {flat(v): v for v in universe}
    if n in fv:
        return frozenset([fv[n]])
    for test in (lambda v: n.endswith(v), lambda v: v.startswith(n), lambda v: v in n, lambda v: v.endswith(n)):
        c = [v for v in fv if test(v)]
        if c:
            k = max(len(v) for v in c)
            return frozenset(fv[v] for v in c if len(v) == k)
    return frozenset()


class Accessors:
    def __init__(self, P):
        self.P = P
        self.conv = {b.path for b in P.bodies.values() if last(b.path) in ("to_borrowed", "into_owned", "as_borrowed", "to_inline_element",
                                                                         "into_inline_element") and b.kind in ("fn", "method")}
        self.pv = Paths(P, enter=self.enter, maxdepth=9)
        self.id = Ident(P, self.pv, self.conv)

    def enter(self, c, b):
        return b.crate.startswith("vimwiki") and b.path not in self.conv and last(b.path) not in ("to_string", "fmt", "to_html_string")

    # ---- Option combinators, path by path
    def options(self, facts, x, d=0):
        """[(facts, None | payload)]"""
        if d > 12:
            raise Bad("too deep")
        out = []
        for f, y in self.expand(facts, x, d + 1):
            if y.k == "agg" and y.a[1] == "Some":
                out.append((f, y.a[3][0]))
            elif y.k == "agg" and y.a[1] == "None":
                out.append((f, None))
            else:
                cur = f.get(y)
                cur = cur if isinstance(cur, frozenset) else frozenset(["None", "Some"])
                if "Some" in cur:
                    out.append((f.put(y, frozenset(["Some"])), item(y)))
                if "None" in cur:
                    out.append((f.put(y, frozenset(["None"])), None))
        return out

    def some(self, v):
        return mk("agg", "std::option::Option", "Some", ("0",), (v,))

    def none(self):
        return mk("agg", "std::option::Option", "None", (), ())

    def variants_of(self, x):
        ty = self.id.typ(x)
        return self.pv.variants(self.P.peel(ty)) if ty is not None else None

    def equal(self, facts, x, y, d):
        """[(facts, bool)] for x == y with y made of variants without data"""
        while y.k == "call" and y.a[1] and last(y.a[0]) in THROUGH:
            y = y.a[1][0]
        if y.k != "agg":
            return None
        if y.a[0].endswith("Option"):
            out = []
            for f, p in self.options(facts, x, d):
                if (p is None) != (y.a[1] == "None"):
                    out.append((f, False))
                elif p is None:
                    out.append((f, True))
                else:
                    r = self.equal(f, p, y.a[3][0], d + 1)
                    if r is None:
                        return None
                    out += r
            return out
        if y.a[3] or y.a[0] not in self.P.adts:
            return None
        names = [v["name"] for v in self.P.adts[y.a[0]]["variants"]]
        if x.k == "agg":
            return [(facts, x.a[1] == y.a[1])]
        cur = facts.get(x)
        cur = cur if isinstance(cur, frozenset) else frozenset(names)
        out = []
        if y.a[1] in cur:
            out.append((facts.put(x, frozenset([y.a[1]])), True))
        if cur - {y.a[1]}:
            out.append((facts.put(x, cur - {y.a[1]}), False))
        return out

    def expand(self, facts, t, d=0):
        """[(facts, value)] with the combinators of Option and equality worked out"""
        if d > 12:
            raise Bad("too deep")
        B = lambda b: mk("const", bool(b), "bool")
        if t.k == "un" and t.a[0] == "Not":
            return [(f, B(not v.a[0]) if v.k == "const" else mk("un", "Not", v)) for f, v in self.expand(facts, t.a[1], d + 1)]
        if t.k == "bin" and t.a[0] in ("BitOr", "BitAnd"):
            out = []
            for f, a in self.expand(facts, t.a[1], d + 1):
                for g, b in self.expand(f, t.a[2], d + 1):
                    if a.k == "const" and b.k == "const":
                        out.append((g, B(a.a[0] or b.a[0]) if t.a[0] == "BitOr" else B(a.a[0] and b.a[0])))
                    else:
                        out.append((g, t))
            return out
        if t.k == "cast":
            return self.expand(facts, t.a[0], d + 1)
        if t.k != "call" or not t.a[1]:
            return [(facts, t)]
        m, args = last(t.a[0]), t.a[1]
        opt = "ption::Option" in t.a[0]
        if m in THROUGH and (opt or m in ("copied", "cloned")) and len(args) == 1:
            return self.expand(facts, args[0], d + 1)
        if m in ("eq", "ne") and len(args) == 2:
            for x, y in ((args[0], args[1]), (args[1], args[0])):
                r = self.equal(facts, x, y, d + 1)
                if r is not None:
                    return [(f, B(v == (m == "eq"))) for f, v in r]
        if not opt:
            return [(facts, t)]
        out = []
        if m in ("map", "and_then", "map_or", "map_or_else", "is_some_and", "is_none_or", "filter"):
            fn = args[-1]
            for f, p in self.options(facts, args[0], d + 1):
                if p is None:
                    if m in ("map", "and_then", "filter"):
                        out.append((f, self.none()))
                    elif m == "map_or":
                        out.append((f, args[1]))
                    elif m == "map_or_else":
                        out += [(g, v) for g, v in self.pv.apply(args[1], [], f, ())]
                    else:
                        out.append((f, B(m == "is_none_or")))
                    continue
                for g, v in self.pv.apply(fn, [p], f, ()):
                    if m == "map":
                        v = [(g, self.some(v))] if not self.payload_opt(v) else [(h, self.some(w)) for h, w in self.expand(g, v, d + 1)]
                    elif m == "filter":
                        v = [(h, x) for h, w in self.expand(g, v, d + 1) for x in (self.some(p), self.none())
                             if w.k != "const" or bool(w.a[0]) == (x.a[1] == "Some")]
                    else:
                        v = self.expand(g, v, d + 1)
                    out += v
            return out
        if m in ("is_some", "is_none"):
            return [(f, B((p is not None) == (m == "is_some"))) for f, p in self.options(facts, args[0], d + 1)]
        if m in ("unwrap_or_default", "unwrap_or", "unwrap_or_else", "unwrap", "expect"):
            for f, p in self.options(facts, args[0], d + 1):
                if p is not None:
                    out += self.expand(f, p, d + 1)
                elif m == "unwrap_or_default":
                    out.append((f, mk("default")))
                elif m == "unwrap_or":
                    out.append((f, args[1]))
                elif m == "unwrap_or_else":
                    out += self.pv.apply(args[1], [], f, ())
            return out
        if m in ("or", "or_else", "xor"):
            for f, p in self.options(facts, args[0], d + 1):
                if p is not None:
                    out.append((f, self.some(p)))
                elif m == "or":
                    out += self.expand(f, args[1], d + 1)
                else:
                    for g, v in self.pv.apply(args[1], [], f, ()):
                        out += self.expand(g, v, d + 1)
            return out
        return [(facts, t)]

    def payload_opt(self, v):
        return v.k in ("call", "un", "bin") and not (v.k == "call" and last(v.a[0]) in self.conv)

    def paths(self, b):
        args = tuple(mk("arg", b.path, i + 1) for i in range(b.args))
        out = []
        for f, r, _ in self.pv.run(b, args):
            out += self.expand(f, r)
        return args, out

    # ---- the value behind a receiver
    def base(self, b, s):
        """(component term, adt name) below newtypes, references and Located; the term of the region if there is one"""
        P = self.P
        region = None
        for _ in range(6):
            ty = self.id.typ(s)
            if ty is None:
                return s, None, region
            a = P.adt_of(P.peel(ty))
            ad = P.adts.get(a)
            if ad is None:
                return s, a, region
            if a.endswith("::Located"):
                region = fld(s, "region")
                s = fld(s, "inner")
                continue
            if a.startswith("vimwiki_wasm") and ad["kind"] == "struct" and [f["name"] for f in ad["variants"][0]["fields"]] == ["0"]:
                s = fld(s, "0")
                continue
            return s, a, region
        return s, None, region

    def rooted(self, t, root):
        while True:
            if t is root:
                return True
            if t.k in ("fld", "var", "item", "cast"):
                t = t.a[0]
            elif t.k == "call" and last(t.a[0]) in THROUGH and t.a[1]:
                t = t.a[1][0]
            else:
                return False

    def parents(self, c):
        """[(component, variant)] that must hold for component c to exist"""
        out = []
        while True:
            if c.k == "var":
                out.append((c.a[0], c.a[1]))
                c = c.a[0]
            elif c.k == "item":
                out.append((c.a[0], "Some"))
                c = c.a[0]
            elif c.k in ("fld", "cast"):
                c = c.a[0]
            elif c.k == "call" and last(c.a[0]) in THROUGH and c.a[1]:
                c = c.a[1][0]
            else:
                return out

    def same(self, v, s, facts, region=None):
        """v is an image of s, in a wrapper or not, with the region (if one is added)"""
        self.id.why = None
        w = v
        a = self.P.adts.get(w.a[0]) if w.k == "agg" else None
        if a is not None and w.a[0].startswith("vimwiki_wasm") and len(w.a[3]) == 1:
            w = w.a[3][0]
        if w.k == "agg" and w.a[0].endswith("::Located"):
            st = self.id.typ(s)
            sa = self.P.adt_of(self.P.peel(st)) if st is not None else None
            if sa and sa.endswith("::Located"):
                return self.id.check(w, s, facts)
            inner, reg = w.a[3][w.a[2].index("inner")], w.a[3][w.a[2].index("region")]
            if region is None:
                self.id.why = (reg, s, "given a region that the source does not have")
                return False
            return self.id.check(inner, s, facts) and self.id.check(reg, region, facts)
        return self.id.check(w, s, facts)

    def decider(self, name, paths, root):
        """component the name is about, and the variants meant"""
        uni = {}
        for f, _ in paths:
            for c, v in f.d.items():
                if isinstance(v, frozenset) and all(isinstance(x, str) for x in v) and self.rooted(c, root):
                    uni.setdefault(c, set()).update(v)
        best = None
        for c, u in uni.items():
            full = self.variants_of(c)
            u = frozenset(full) if full else frozenset(u)
            e = named(name, u)
            if e and (best is None or len(self.parents(c)) > len(self.parents(best[0]))):
                best = (c, e)
        return best

    def status(self, f, c, e):
        """is the component of the meant variants on this path: True, False or None"""
        v = f.get(c)
        if isinstance(v, frozenset):
            if v <= e:
                return True
            if not (v & e):
                return False
        for p, var_ in self.parents(c):
            pv = f.get(p)
            if isinstance(pv, frozenset) and var_ not in pv:
                return False
        return None

    # ---- rules
    def kind(self, b):
        name = last(b.path)
        args, paths = self.paths(b)
        if not paths:
            raise Bad("no path returns")
        vals = []
        for f, v in paths:
            if v.k == "default":
                v = mk("const", False, "bool")
            if v.k != "const" or not isinstance(v.a[0], (bool, int)):
                raise Skip()
            vals.append((f, bool(v.a[0])))
        dec = self.decider(name, paths, args[0])
        if dec is None:
            raise Skip()
        c, e = dec
        for f, v in vals:
            st = self.status(f, c, e)
            if st is None:
                raise Bad("says %s without telling %s from the other kinds" % (v, "/".join(sorted(e))))
            if st != v:
                raise Bad("says %s where the value is %s%s" % (v, "" if st else "not ", "/".join(sorted(e))))
        return "true exactly for %s" % "/".join(sorted(e))

    def cast(self, b):
        name = last(b.path)
        args, paths = self.paths(b)
        s, a, region = self.base(b, args[0])
        if a not in self.P.adts or self.P.adts[a]["kind"] != "enum":
            raise Skip()
        names = frozenset(v["name"] for v in self.P.adts[a]["variants"])
        e = named(name, names)
        if not name.startswith(("into_", "get_", "as_", "to_")):
            e = frozenset(v for v in names if flat(v) == flat(name))
        if not e or name in ("to_str", "as_str", "to_string"):
            raise Skip()
        if len(e) != 1:
            raise Skip()
        va = [v for v in self.P.adts[a]["variants"] if v["name"] in e][0]
        if len(va["fields"]) != 1 or not self.compatible(va["fields"][0]["ty"], b.locals[0][0]):
            raise Skip()
        for f, v in self.opts(paths):
            st = self.status(f, s, e)
            if st is None:
                raise Bad("decides without telling %s from the other kinds" % "/".join(sorted(e)))
            if st != (v is not None):
                raise Bad("gives %s where the value is %s%s" % ("a value" if v is not None else "None", "" if st else "not ", va["name"]))
            if v is not None and not self.same(v, fld(var(s, va["name"]), va["fields"][0]["name"]), f, region):
                raise Bad(self.id.explain())
        return "the payload of %s" % va["name"]

    def core(self, ty):
        """what a type is about: below references, Option, Box, Located, newtypes of the wrapper crate"""
        P = self.P
        for _ in range(8):
            ty = P.peel(ty)
            x = P.t(ty)
            a = x["def"] if x["k"] == "adt" else None
            if a is None:
                return x["s"]
            if a.endswith(("::Option", "::Box", "::Located", "::Result")) and x.get("args"):
                ty = x["args"][0]
                continue
            if a.endswith("::Cow"):
                return "str"
            if a.endswith("::String") or "URIReference" in a or a.endswith("::Scheme"):
                return "str"
            ad = P.adts.get(a)
            if a.startswith("vimwiki_wasm") and ad["kind"] == "struct" and [f["name"] for f in ad["variants"][0]["fields"]] == ["0"]:
                ty = ad["variants"][0]["fields"][0]["ty"]
                continue
            if a.startswith("vimwiki"):
                return a.rsplit("::", 1)[-1]
            return x["s"]
        return None

    def compatible(self, fty, rty):
        x, y = self.core(fty), self.core(rty)
        return x == y or y == "str" and x.startswith(("std::path", "vimwiki")) or x in self.P.ts(rty)

    def opts(self, paths):
        out = []
        for f, v in paths:
            out += self.options(f, v)
        return out

    def getter(self, b):
        name = last(b.path)
        args, paths = self.paths(b)
        n = name
        s, a, region = self.base(b, args[0])
        ad = self.P.adts.get(a)
        if n == "region" and region is not None:
            for f, v in paths:
                if not self.same(v, region, f):
                    raise Bad(self.id.explain())
            return "the region of the value"
        if ad is None:
            raise Skip()
        if ad["kind"] == "struct":
            fs = [x for x in ad["variants"][0]["fields"] if x["name"] == n]
            if not fs or not self.compatible(fs[0]["ty"], b.locals[0][0]):
                raise Skip()
            for f, v in paths:
                if not self.getval(v, fld(s, n), f):
                    raise Bad(self.id.explain())
            return "field %s" % n
        having = {v["name"] for v in ad["variants"] if any(x["name"] == n for x in v["fields"])}
        if not having:
            for v in ad["variants"]:
                for x in v["fields"]:
                    if flat(v["name"] + x["name"]) == flat(n) or "_" in n and n.split("_", 1)[1] == x["name"]:
                        n = x["name"]
            having = {v["name"] for v in ad["variants"] if any(x["name"] == n for x in v["fields"])}
        if not having:
            e = named("get_" + n, frozenset(v["name"] for v in ad["variants"]))
            raise Skip() if not e or flat(next(iter(e))) != flat(n) else Cast()
        if not self.compatible([x["ty"] for v in ad["variants"] for x in v["fields"] if x["name"] == n][0], b.locals[0][0]):
            raise Skip()
        rt = self.P.adt_of(b.locals[0][0]) or ""
        if rt.endswith("::Option"):
            fty = [self.P.adt_of(x["ty"]) or "" for v in ad["variants"] for x in v["fields"] if x["name"] == n]
            for f, v in self.opts(paths):
                cur = f.get(s)
                cur = cur if isinstance(cur, frozenset) else {v["name"] for v in ad["variants"]}
                if fty[0].endswith("::Option"):
                    # the field is optional itself
                    for w in cur & having:
                        src = fld(var(s, w), n)
                        if v is not None and not self.same(v, item(src), f):
                            raise Bad(self.id.explain())
                        if v is None and f.get(src) != frozenset(["None"]):
                            raise Bad("None where the value may have a %s" % n)
                    if v is not None and not cur <= having:
                        raise Bad("gives a value for a kind without %s" % n)
                    continue
                if v is None:
                    if cur & having:
                        raise Bad("None for %s, which has a %s" % ("/".join(sorted(cur & having)), n))
                elif len(cur) != 1 or not cur <= having:
                    raise Bad("gives a value where the kind is not known to have a %s" % n)
                elif not self.same(v, fld(var(s, next(iter(cur))), n), f):
                    raise Bad(self.id.explain())
        else:
            for f, v in paths:
                cur = f.get(s)
                if not isinstance(cur, frozenset) or len(cur) != 1:
                    raise Bad("value not told by kind")
                if not self.same(v, fld(var(s, next(iter(cur))), n), f):
                    raise Bad(self.id.explain())
        return "field %s of %s" % (n, "/".join(sorted(having)))

    def getval(self, v, s, f):
        if v.k == "agg" and v.a[0].endswith("::Option"):
            cur = f.get(s)
            for c, x in f.d.items():
                if c.k == "call" and last(c.a[0]) in THROUGH and c.a[1] and c.a[1][0] is s:
                    cur = x
            if v.a[1] == "None":
                if cur == frozenset(["None"]):
                    return True
                self.id.why = (v, s, "None although there may be a value")
                return False
            return self.same(v.a[3][0], item(s), f)
        return self.same(v, s, f)

    def collection(self, b, s, a):
        """term of the only sequence held"""
        ad = self.P.adts.get(a)
        if ad is None:
            ty = self.id.typ(s)
            return s if ty is not None and self.seq(ty) else None
        cs = [x["name"] for x in ad["variants"][0]["fields"] if self.seq(x["ty"])] if ad["kind"] == "struct" else []
        if not cs and ad["kind"] == "struct" and len(ad["variants"][0]["fields"]) == 1:
            inner = fld(s, ad["variants"][0]["fields"][0]["name"])
            ty = self.id.typ(inner)
            return self.collection(b, inner, self.P.adt_of(self.P.peel(ty))) if ty is not None else None
        return fld(s, cs[0]) if len(cs) == 1 else None

    def seq(self, ty):
        return (self.P.adt_of(self.P.peel(ty)) or "").endswith(("vec::Vec",)) or self.P.t(self.P.peel(ty))["k"] in ("slice",)

    def strip(self, t):
        while t.k == "call" and last(t.a[0]) in THROUGH and len(t.a[1]) == 1:
            t = t.a[1][0]
        return t

    def count(self, b):
        args, paths = self.paths(b)
        s, a, _ = self.base(b, args[0])
        c = self.collection(b, s, a)
        if c is None:
            raise Skip()
        for f, v in paths:
            w = v
            while w.k == "call" and w.a[1] and last(w.a[0]) in ("count", "len", "iter", "map", "into_iter") and w is not c:
                w = self.strip(w.a[1][0])
            if w.k == "call" and last(w.a[0]) in ("flat_map", "flatten", "split", "filter"):
                raise Skip()
            ok = w is c or v.k == "call" and (last(v.a[0]) == "len" and self.strip(v.a[1][0]) is c or
                                    last(v.a[0]) == "count" and self.id.check(v.a[1][0], c, f) and last(v.a[1][0].a[0]) in KEEP)
            if not ok:
                raise Bad("%s is not the number of items of %s" % (show(v)[:100], show(c)[:80]))
        return "len of %s" % show(c)[-40:]

    def at(self, b):
        args, paths = self.paths(b)
        s, a, _ = self.base(b, args[0])
        c = self.collection(b, s, a)
        if c is None:
            raise Skip()
        for f, v in self.opts(paths):
            gets = [t for t in f.d if t.k == "call" and last(t.a[0]) in ("get", "nth") and len(t.a[1]) == 2]
            g = gets[0] if len(gets) == 1 else None
            if g is None or g.a[1][1] is not args[1] or not self.id.check(self.strip(g.a[1][0]), c, f):
                raise Bad("not the item of %s at the given index" % show(c)[:80])
            if (f.get(g) == frozenset(["Some"])) != (v is not None):
                raise Bad("gives %s where the item %s" % ("a value" if v is not None else "None", "exists" if v is None else "does not exist"))
            if v is not None and not self.same(v, item(g), f):
                raise Bad(self.id.explain())
        return "item of %s" % show(c)[-40:]

    def enum(self, b, src, dst):
        args, paths = self.paths(b)
        opt = (self.P.adt_of(b.locals[0][0]) or "").endswith("::Option")
        sv = {v["name"] for v in self.P.adts[src]["variants"]}
        dv = {v["name"] for v in self.P.adts[dst]["variants"]}
        s = args[0]
        n = 0
        for f, v in (self.opts(paths) if opt else paths):
            cur = f.get(s)
            cur = cur if isinstance(cur, frozenset) else frozenset(sv)
            if v is None:
                if cur & dv:
                    raise Bad("None for %s" % "/".join(sorted(cur & dv)))
                continue
            if v.k != "agg" or cur != frozenset([v.a[1]]):
                raise Bad("%s becomes %s" % ("/".join(sorted(cur)), v.a[1] if v.k == "agg" else show(v)[:60]))
            n += 1
        return "%d variants" % n

    def ctor(self, b):
        """constructor of a wrapper: text and region stored, variant of its name"""
        name = last(b.path)
        args, paths = self.paths(b)
        P = self.P
        tys = [P.adt_of(P.peel(b.locals[i + 1][0])) or P.ts(P.peel(b.locals[i + 1][0])) for i in range(b.args)]
        reg = [x for x, t in zip(args, tys) if t.endswith("::Option") and "Region" in P.ts(b.locals[args.index(x) + 1][0])]
        texts = [x for x in args if x not in reg]
        n = 0
        for f, v in paths:
            if v.k == "agg" and v.a[0].endswith("::Result"):
                if v.a[1] == "Err":
                    continue
                v = v.a[3][0]
            if v.k == "agg" and v.a[0].startswith("vimwiki_wasm") and len(v.a[3]) == 1:
                v = v.a[3][0]
            if v.k == "agg" and v.a[0].endswith("::Located"):
                inner, rg = v.a[3][v.a[2].index("inner")], v.a[3][v.a[2].index("region")]
                if reg:
                    for g, r in self.expand(f, rg):
                        st = g.get(reg[0])
                        if st == frozenset(["None"]) and r.k == "default":
                            continue
                        if not self.id.check(r, fld(item(reg[0]), "0"), g):
                            raise Bad("the region is %s" % show(r)[:80])
                v = inner
            elif reg:
                raise Bad("the region is not stored")
            while v.k == "call" and last(v.a[0]) in KEEP and v.a[1]:
                v = v.a[1][0]
            seen = show_all(v)
            for t in texts:
                if t not in seen and not any(t in show_all(c) for c in f.d):
                    raise Bad("parameter %d does not reach the value" % (args.index(t) + 1))
            if v.k == "agg" and v.a[0] in P.adts and P.adts[v.a[0]]["kind"] == "enum":
                e = named(name, frozenset(x["name"] for x in P.adts[v.a[0]]["variants"])) if name.startswith("new_") else None
                if e and v.a[1] not in e:
                    raise Bad("makes %s" % v.a[1])
            n += 1
        if not n:
            raise Bad("never makes a value")
        return "%d paths" % n

    def located(self, b):
        """methods of Located that give a Located keep the region, and the value when it is not mapped"""
        args, paths = self.paths(b)
        n = last(b.path)
        if (self.P.adt_of(b.locals[0][0]) or "").endswith("::Option"):
            paths = [(f, v) for f, v in self.opts(paths) if v is not None]
        for f, v in paths:
            if v.k == "agg" and v.a[0] == "tuple":
                raise Skip()
            if v.k != "agg" or not v.a[0].endswith("::Located"):
                raise Bad("not made in place")
            inner, rg = v.a[3][v.a[2].index("inner")], v.a[3][v.a[2].index("region")]
            if not self.id.check(rg, fld(args[0], "region"), f):
                raise Bad(self.id.explain())
            src = fld(args[0], "inner")
            if n == "map":
                ok = inner.k == "call" and any(self.id.check(x, src, f) for x in inner.a[1])
            elif n == "transpose":
                ok = self.id.check(inner, item(src), f)
            else:
                ok = self.id.check(inner, src, f)
            if not ok:
                raise Bad("the value is %s" % show(inner)[:80])
        if not paths:
            raise Bad("never gives a value")
        return "region kept"


class Cast(Exception):
    pass


def show_all(t):
    out, todo, seen = set(), [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        out.add(x)
        for y in x.a:
            todo += [z for z in (y if isinstance(y, tuple) else (y,)) if isinstance(z, Term)]
            if isinstance(y, tuple):
                for z in y:
                    if isinstance(z, tuple):
                        todo += [w for w in z if isinstance(w, Term)]
    return out


OPPOSITE = {"is_remote": "is_local"}


def opposite(P, R, x, y):
    """one of the two asks the other and says the contrary of it, on every path"""
    asked = False
    for a, b in ((x, y), (y, x)):
        def leaf(c, t):
            return t is not b
        pv = Paths(P, enter=leaf)
        ok = used = True
        for f, r, _ in pv.run(a, (mk("arg", a.path, 1),)):
            neg = r.k == "un" and r.a[0] == "Not" and r.a[1].k == "call" and last(r.a[1].a[0]) == last(b.path)
            said = [(t, v) for t, v in f.d.items() if t.k == "call" and last(t.a[0]) == last(b.path)]
            if neg and not [t for t in f.d if t.k in ("call", "bin", "un")]:
                continue
            if r.k == "const" and any(v in (0, 1, True, False) and bool(v) != bool(r.a[0]) for t, v in said) and len(f.d) == len(said):
                continue
            ok = False
            used = used and (bool(said) or any(True for t in sub(r) if t.k == "call" and last(t.a[0]) == last(b.path)))
        if ok:
            R.ok("opposite", "%s is the contrary of %s" % (short(a.path), last(b.path)))
            return
        asked = asked or used
    if asked:
        R.fail("opposite", short(x.path), "%s is not the contrary of %s: for some values both or neither are true" % (x.path, last(y.path)))


def sub(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if not hasattr(x, "k"):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        yield x
        todo.extend(x.a)


def run(P, R, tier):
    R.rule("kind", "is_x is true exactly on the variants its name means", 70)
    R.rule("cast", "into_x, as_x, get_x and x give the payload of the variant, exactly on it, with the region", 20)
    R.rule("getter", "a method named like a field returns that field", 30)
    R.rule("lookup", "x_at gives the item at the index, x_cnt and len the number of items", 15)
    R.rule("enum", "an enum and its JavaScript counterpart are converted variant by variant", 5)
    R.rule("new", "a constructor of a wrapper stores the text and the region it is given, in the variant of its name", 12)
    R.rule("opposite", "of two opposite questions exactly one is answered with yes", 0)
    R.rule("located", "the operations of Located keep the region", 3)
    A = Accessors(P)
    n = 0
    for b in sorted(P.bodies.values(), key=lambda b: b.path):
        if b.kind not in ("fn", "method") or "__wasm_bindgen" in b.path or b.trait and not b.trait.endswith("convert::From"):
            continue
        if not (b.path.startswith("vimwiki_core::lang::elements") or "vimwiki_wasm::elements" in b.path) and not b.trait:
            continue
        wasm = b.crate == "vimwiki_wasm"
        if not wasm and b.crate != "vimwiki_core":
            continue
        name = last(b.path)
        rt = P.adt_of(b.locals[0][0]) or P.ts(b.locals[0][0])
        a1 = P.adt_of(P.peel(b.locals[1][0])) if b.args else None
        if b.trait:
            if not wasm or b.args != 1 or name != "from" or not all(x in P.adts and P.adts[x]["kind"] == "enum" for x in (a1, rt)):
                continue
            todo = [("enum", lambda: A.enum(b, a1, rt))]
        elif wasm and name == "to_vimwiki":
            dst = P.adt_of(P.t(b.locals[0][0])["args"][0])
            todo = [("enum", lambda: A.enum(b, a1, dst))]
        elif b.args == 1 and a1 and a1.endswith("::Located") and not wasm and rt.endswith("::Located") or (
                a1 and a1.endswith("::Located") and name in ("map", "transpose")):
            todo = [("located", lambda: A.located(b))]
        elif wasm and (name == "new" or name.startswith("new_")):
            todo = [("new", lambda: A.ctor(b))]
        elif b.args == 1 and name.startswith("is_") and rt == "bool":
            todo = [("kind", lambda: A.kind(b))]
        elif b.args == 1 and (wasm and name.endswith("_cnt") or name == "len"):
            todo = [("lookup", lambda: A.count(b)), ("getter", lambda: A.getter(b))]
        elif b.args == 2 and (name.endswith("_at") or wasm and name == "get"):
            todo = [("lookup", lambda: A.at(b))]
        elif b.args == 1 and rt.endswith("::Option") and name.startswith(("into_", "get_", "as_", "to_")):
            todo = [("cast", lambda: A.cast(b)), ("getter", lambda: A.getter(b))]
        elif b.args == 1:
            todo = [("getter", lambda: A.getter(b)), ("cast", lambda: A.cast(b))]
        else:
            continue
        n += 1
        key = short(b.path)
        for rule, f in todo:
            try:
                R.ok(rule, "%s: %s" % (key, f()))
                break
            except Skip:
                continue
            except Cast:
                continue
            except Bad as e:
                R.fail(rule, key, "%s: %s" % (b.span(None), e))
                break
            except TooMany:
                break
    R.stats["accessors"] = n
    by = {}
    for b in P.bodies.values():
        if b.kind == "method" and not b.trait and b.args == 1 and P.ts(b.locals[0][0]) == "bool" and b.crate in ("vimwiki_core", "vimwiki_wasm"):
            by[(P.ts(P.peel(b.locals[1][0])), last(b.path))] = b
    for (ty, name), b in sorted(by.items(), key=lambda x: x[0]):
        other = by.get((ty, OPPOSITE.get(name)))
        if other is not None:
            opposite(P, R, b, other)
