"""What serialization writes, deserialization reads back."""
import re
from prog import *
from pathval import *
from terms import show
from terms import _names

EXPLANATION = (
    "For every type of the workspace that implements Serialize, the MIR of serialize is evaluated path by path: the entries "
    "(name, value) that each succeeding path writes. The MIR of the field visitor of its Deserialize gives the field or "
    "variant that each name selects, the seed of an enum the variant that it builds. Obligations: every field is written "
    "once, under a name of its own, unchanged or through the conversion that is undone when it is read; the name selects the "
    "same field when it is read; every variant is written with its payload under a tag of its own that selects the same "
    "variant; what is flattened into the entries of a located part is itself made of entries, none of them named like those "
    "of the located part; keys of maps are text or go through a conversion.")
ASSUMPTIONS = ["the code that serde derives builds the struct from the fields its visitor selects",
               "the data format keeps names, text, numbers and sequences",
               "serde_with's map_as_tuple_list is its own inverse"]

SER = re.compile(r"impl serde::Serialize for (?:&'a )?([\w:]+)")
DE = re.compile(r"impl serde::Deserialize<'de> for ([\w:]+)(?:<[^>]*>)?>::deserialize(.*)$")
# runtime state of a conversion, documented as not part of the configuration
NOT_WRITTEN = {("HtmlConfig", "runtime")}


def short(n):
    return n.rsplit("::", 1)[-1]


def adt(P, ty):
    return P.adt_of(P.peel(ty))


class Model:
    def __init__(self, P):
        self.P = P
        self.pv = Paths(P, enter=lambda c, b: False)
        self.ser, self.de = {}, {}
        for n, b in P.bodies.items():
            if b.kind not in ("fn", "method"):
                continue
            if n.endswith(">::serialize") and "__SerializeWith" not in n:
                m = SER.search(n)
                if m and m.group(1) in P.adts:
                    self.ser.setdefault(m.group(1), b)
            m = DE.search(n)
            if m and m.group(1) in P.adts:
                self.de.setdefault(m.group(1), []).append((m.group(2), b))

    # ---- writing
    def paths(self, X):
        """[(variant or None, form, [(name, value)], skipped)] for the succeeding paths"""
        b = self.ser[X]
        a1 = mk("arg", b.path, 1)
        out = []
        for f, r, env in self.pv.root(b):
            if r.k == "agg" and r.a[1] == "Err":
                continue
            v = f.get(a1)
            v = next(iter(v)) if isinstance(v, frozenset) and len(v) == 1 else None
            ents, form, skipped = [], None, []
            calls = [k for k in list(f.d) + [r] if k.k == "call"]
            for k in calls:
                m = last(k.a[0])
                if m in ("serialize_struct", "serialize_map", "serialize_struct_variant"):
                    form = form or "entries"
                elif m == "serialize_unit_struct":
                    form = "unit"
                elif m == "serialize_newtype_struct":
                    form = "newtype"
                    ents.append((None, k.a[1][2]))
                elif m in ("serialize_field", "serialize_entry"):
                    if len(k.a[1]) == 3 and k.a[1][1].k == "const":
                        ents.append((k.a[1][1].a[0], k.a[1][2]))
                elif m == "skip_field":
                    skipped.append(k.a[1][1].a[0])
                elif m == "serialize" and len(k.a[1]) == 2:
                    dst = k.a[1][1]
                    flat = "FlatMapSerializer" in repr(dst) or (dst.k == "agg" and "FlatMap" in dst.a[0])
                    if dst.k == "agg" and "FlatMap" in dst.a[0] or flat:
                        ents.append(("*", k.a[1][0]))
                    elif dst.k == "arg":
                        form = "transparent"
                        ents.append((None, k.a[1][0]))
            conds = [k for k in f.d if k.k == "call" and last(k.a[0]) in ("is_none", "is_empty")]
            out.append((v, form, ents, skipped, conds, f))
        return out

    def unwith(self, v):
        """(value, conversion module)"""
        if v.k == "agg" and v.a[0].endswith("__SerializeWith"):
            mod = None
            for n, b in self.P.bodies.items():
                if n.endswith("serialize") and "__SerializeWith" in n and v.a[0] in n:
                    for c, _ in calls_of(self.P, b):
                        if last(c) == "serialize":
                            mod = c.rsplit("::", 1)[0]
            x = [a for f, a in zip(v.a[2], v.a[3]) if f == "values"]
            x = x[0] if x else v.a[3][0]
            if x.k == "agg" and x.a[0] == "tuple" and len(x.a[3]) == 1:
                x = x.a[3][0]
            return x, mod or "?"
        return v, None

    # ---- reading
    def names(self, X):
        """[(fields visitor) {name: index}]"""
        out = []
        for tail, b in self.de.get(X, ()):
            if not (tail.endswith("visit_str") and "FieldVisitor" in tail):
                continue
            d = {}
            for f, r, env in self.pv.root(b):
                if not (r.k == "agg" and r.a[1] == "Ok"):
                    continue
                p = r.a[3][0]
                while p.k == "agg" and len(p.a[3]) == 1 and p.a[3][0].k == "agg":
                    p = p.a[3][0]
                if p.k != "agg":
                    continue
                m = re.match(r"__field(\d+)$", p.a[1] or "")
                for k, v in f.d.items():
                    if k.k == "call" and last(k.a[0]) == "eq" and v == 1 and m:
                        c = [x for x in k.a[1] if x.k == "const"]
                        if c:
                            d.setdefault(c[0].a[0], int(m.group(1)))
            out.append(d)
        return out

    def read_with(self, X):
        mods = set()
        for tail, b in self.de.get(X, ()):
            if "__DeserializeWith" in tail:
                for c, _ in calls_of(self.P, b):
                    if last(c) == "deserialize":
                        mods.add(c.rsplit("::", 1)[0])
        return mods

    def seeds(self, X):
        """{field index: variants built}"""
        d = {}
        for tail, b in self.de.get(X, ()):
            if not ("__Seed" in tail and tail.endswith("deserialize")):
                continue
            for f, r, env in self.pv.root(b):
                idx = [re.match(r"__field(\d+)$", next(iter(v))) for k, v in f.d.items()
                       if isinstance(v, frozenset) and len(v) == 1 and isinstance(next(iter(v)), str)]
                idx = [int(m.group(1)) for m in idx if m]
                if len(idx) != 1:
                    continue
                made = set()
                stack = [r]
                while stack:
                    t = stack.pop()
                    if t.k == "fn":
                        made |= {x for x in (short(t.a[0]), short(t.a[1])) if x}
                    if t.k == "agg" and t.a[0] == X:
                        made.add(t.a[1])
                    if t.k == "clo":
                        cb = self.P.bodies.get(t.a[0])
                        for cb_ in ([cb] if cb else []):
                            for blk in cb_.blocks:
                                for s in blk["s"]:
                                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == X:
                                        made.add(s[2][1][2])
                    for a in t.a:
                        if isinstance(a, tuple):
                            stack += [x for x in a if hasattr(x, "k")]
                        elif hasattr(a, "k"):
                            stack.append(a)
                d.setdefault(idx[0], set()).update(made)
        return d


def tys(P, b):
    return [P.ts(l[0]) for l in b.locals]


def calls_of(P, b):
    for blk in b.blocks:
        t = blk["t"]
        if t[0] == "call":
            c = P.callee(t[1])
            if c is not None:
                yield P.cname(c), c


def run(P, R, tier):
    M = Model(P)
    R.rule("pair", "a type that is written can be read and the other way round", 40)
    R.rule("field", "every field is written once, unchanged, under a name that is read into the same field", 90)
    R.rule("variant", "every variant is written with its payload under a tag that is read as the same variant", 60)
    R.rule("flatten", "what is flattened into a located part is made of entries with names of their own", 8)
    R.rule("keys", "the keys of a map are text or converted", 2)
    R.stats["types"] = len(M.ser)

    for X in sorted(set(M.ser) | set(M.de)):
        a = P.adts[X]
        R.check("pair", X in M.ser and X in M.de, short(X), "%s is %s only" % (X, "written" if X in M.ser else "read"))
        if X not in M.ser or X not in M.de:
            continue
        loc = M.ser[X].path
        try:
            ps = M.paths(X)
        except TooMany:
            R.fail("field", short(X), "%s has too many paths to follow" % loc)
            continue
        a1 = mk("arg", M.ser[X].path, 1)
        if a["kind"] == "struct":
            struct(P, M, R, X, a, ps, a1, loc)
        else:
            enum(P, M, R, X, a, ps, a1, loc)
    flatten(P, M, R)
    keys(P, M, R)
    converters(P, M, R)


def struct(P, M, R, X, a, ps, a1, loc):
    fs = [f["name"] for f in a["variants"][0]["fields"]]
    names = M.names(X)
    reads = names[0] if names else {}
    mods = M.read_with(X)
    if not ps:
        R.fail("field", short(X), "%s: no path of it succeeds" % loc)
        return
    if not fs:
        R.ok("field", short(X))
    for i, f in enumerate(fs):
        key = "%s.%s" % (short(X), f)
        if (short(X), f) in NOT_WRITTEN:
            continue
        want = fld(a1, f)
        bad = None
        for v, form, ents, skipped, conds, facts in ps:
            hits = [(n, M.unwith(x)) for n, x in ents]
            mine = [(n, m) for n, (x, m) in hits if x == want]
            if not mine and skipped and facts.get(want) == frozenset(["None"]):
                continue        # absent, and read as absent when the name is missing (P14 for sections)
            if len(mine) != 1:
                bad = "%s %s" % ("writes it %d times:" % len(mine) if mine else "does not write", f)
                break
            n, mod = mine[0]
            if mod is not None and mod not in mods:
                bad = "writes %s through %s, which is not how it is read" % (f, mod)
                break
            if mod is None and n is not None and False:
                break
            if n is None:
                if len(fs) - sum(1 for g in fs if (short(X), g) in NOT_WRITTEN) != 1 and form != "newtype":
                    bad = "writes only %s" % f
                    break
                continue
            if n == "*":
                if not any("FlatMapDeserializer" in str(s) for t_, b in M.de[X] for s in tys(P, b)):
                    bad = "flattens %s, which is not read back that way" % f
                    break
                continue
            if len([1 for m_, _ in ents if m_ == n]) != 1:
                bad = "writes the name '%s' twice" % n
                break
            if reads.get(n) != i:
                got = reads.get(n)
                bad = "writes %s as '%s', which is read %s" % (
                    f, n, "as " + fs[got] if got is not None and got < len(fs) else "nowhere")
                break
        extra = mods - {M.unwith(x)[1] for p in ps for _, x in p[2]}
        if bad is None and extra and i == 0:
            bad = "is read through %s, which is not how it is written" % sorted(extra)[0]
        R.check("field", bad is None, key, "%s %s" % (loc, bad))


def enum(P, M, R, X, a, ps, a1, loc):
    vs = [v["name"] for v in a["variants"]]
    names = M.names(X)
    tags = [d for d in names if set(d.values()) and not (set(d) <= {"type", "data"})] or names
    read = {}
    for d in names:
        if len(d) >= len(vs) or len(names) == 1:
            read = d
            break
    seeds = M.seeds(X)
    for i, v in enumerate(vs):
        key = "%s::%s" % (short(X), v)
        mine = [p for p in ps if p[0] == v]
        if len(vs) == 1:
            mine = ps
        bad = None
        if not mine:
            bad = "does not write the variant " + v
        fields = [f["name"] for f in a["variants"][i]["fields"]]
        for _, form, ents, skipped, conds, facts in mine:
            tag = [(n, x) for n, x in ents if x.k == "agg" and x.a[0].endswith("AdjacentlyTaggedEnumVariant")]
            if len(tag) != 1:
                bad = "writes no tag for " + v
                break
            nm = tag[0][1].a[3][tag[0][1].a[2].index("variant_name")]
            nm = nm.a[0] if nm.k == "const" else None
            if read.get(nm) != i:
                g = read.get(nm)
                bad = "writes %s with the tag '%s', which is read %s" % (v, nm, "as " + vs[g] if g is not None and g < len(vs) else "nowhere")
                break
            rest = [(n, M.unwith(x)[0]) for n, x in ents if x is not tag[0][1]]
            if len(fields) == 1 and rest and rest[0][0] in ("data",):
                if rest[0][1] != fld(var(a1, v), fields[0]):
                    w = rest[0][1]
                    if not covers(w, a1, v, fields):
                        bad = "writes %s instead of the content of %s" % (show(w)[:80], v)
                        break
            elif fields:
                if not rest or not all(covers(w, a1, v, fields) for n, w in rest[:1]):
                    bad = "does not write the content of " + v
                    break
        if bad is None and fields and i in seeds and seeds[i] and v not in seeds[i]:
            bad = "is read back as %s where %s was written" % ("/".join(sorted(seeds[i])[:2]), v)
        R.check("variant", bad is None, key, "%s %s" % (loc, bad))


def covers(w, a1, v, fields):
    """w, the content written, holds every field of the variant"""
    have = set()
    stack = [w]
    while stack:
        t = stack.pop()
        for f in fields:
            if t == fld(var(a1, v), f):
                have.add(f)
        for a in t.a:
            if isinstance(a, tuple):
                stack += [x for x in a if hasattr(x, "k")]
            elif hasattr(a, "k"):
                stack.append(a)
    return have == set(fields)


def entry_names(M, X, d=0):
    """names of the entries that X is written as, or None when it is not written as entries"""
    if X not in M.ser or d > 6:
        return None
    names = set()
    for v, form, ents, skipped, conds, facts in M.paths(X):
        if form == "entries":
            names |= {n for n, _ in ents if n}
            names |= set(skipped)
        elif form == "transparent" and len(ents) == 1:
            a = M.P.adts[X]
            fs = a["variants"][0]["fields"]
            t = [f["ty"] for f in fs if fld(mk("arg", M.ser[X].path, 1), f["name"]) == ents[0][1]]
            sub = entry_names(M, adt(M.P, t[0]), d + 1) if t else None
            if sub is None:
                return None
            names |= sub
        else:
            return None
    return names


def located_types(P, M):
    """{T: a field or payload of type Located<T>} over what is written"""
    out = {}
    for X in M.ser:
        for v in P.adts[X]["variants"]:
            for f in v["fields"]:
                stack = [f["ty"]]
                while stack:
                    i = stack.pop()
                    t = P.t(i)
                    if t["k"] == "adt":
                        for g in t.get("args", []):
                            if isinstance(g, int):
                                stack.append(g)
                        if t["def"].endswith("::Located"):
                            g = [x for x in t.get("args", []) if isinstance(x, int)]
                            for y in g:
                                if P.t(y)["k"] == "adt":
                                    out.setdefault(P.t(y)["def"], "%s.%s" % (short(X), f["name"]))
                    else:
                        stack += [g for g in t.get("args", []) if isinstance(g, int)]
    return out


def flatten(P, M, R):
    L = [x for x in M.ser if x.endswith("::Located")]
    own = set()
    if L:
        for p in M.paths(L[0]):
            own |= {n for n, _ in p[2] if n and n != "*"}
        if not any(n == "*" for p in M.paths(L[0]) for n, _ in p[2]):
            # not flattened: nothing to collide
            for T in located_types(P, M):
                R.ok("flatten", short(T))
            return
    for T, where in sorted(located_types(P, M).items()):
        ns = entry_names(M, T)
        if ns is None:
            R.fail("flatten", short(T), "%s is written flattened into a located part (%s), but not as entries: writing it fails" % (T, where))
        else:
            R.check("flatten", not ns & own, short(T), "%s is flattened into a located part (%s) and both write '%s'" % (T, where, sorted(ns & own)))


def keys(P, M, R):
    for X in sorted(M.ser):
        for v in P.adts[X]["variants"]:
            for f in v["fields"]:
                stack = [f["ty"]]
                while stack:
                    i = stack.pop()
                    t = P.t(i)
                    args = [g for g in t.get("args", []) if isinstance(g, int)]
                    if t["k"] == "adt" and short(t["def"]) in ("HashMap", "BTreeMap") and args:
                        k = P.t(P.peel(args[0]))
                        text = k["s"] in ("str", "String", "alloc::string::String", "std::string::String") or "Cow<" in k["s"] and "str" in k["s"]
                        conv = False
                        for p in M.paths(X):
                            for n, x in p[2]:
                                y, mod = M.unwith(x)
                                if mod and y == fld(mk("arg", M.ser[X].path, 1), f["name"]):
                                    conv = True
                        R.check("keys", text or conv, "%s.%s" % (short(X), f["name"]), "%s.%s has keys of type %s, which are not text" % (X, f["name"], k["s"]))
                    stack += args


KEEP_OUT = {"to_string", "as_str", "to_owned", "from", "into", "clone", "deref", "borrow", "as_ref", "serialize", "collect_str", "serialize_str", "format"}
KEEP_IN = {"map", "map_err", "try_from", "try_into", "from_str", "parse", "as_str", "deref", "as_ref", "borrow", "into_owned", "deserialize", "as_deref", "and_then"}


def converters(P, M, R):
    """conversions of the workspace named by #[serde(with)]: text out, the same text parsed back"""
    R.rule("convert", "a conversion writes the text of the value and parses all of that text", 2)
    mods = set()
    for X in M.de:
        mods |= {m for m in M.read_with(X) if m.startswith("vimwiki")}
    for m in sorted(mods):
        for fn, keep in (("serialize", KEEP_OUT), ("deserialize", KEEP_IN)):
            b = P.bodies.get(m + "::" + fn)
            if b is None:
                R.fail("convert", m + "::" + fn, "%s::%s is not found" % (m, fn))
                continue
            bad = None
            for f, r, env in M.pv.root(b):
                if r.k == "agg" and r.a[1] == "Err":
                    continue
                x, hit = r, False
                while True:
                    if x.k == "agg" and x.a[1] == "Ok":
                        x = x.a[3][0]
                    elif x.k == "call" and last(x.a[0]) in ("collect_str", "serialize_str") and len(x.a[1]) == 2 and fn == "serialize":
                        x = x.a[1][1]
                    elif x.k == "call" and x.a[1] and last(x.a[0]) in keep:
                        x = x.a[1][0]
                    elif x.k in ("fld", "var", "item"):
                        x = x.a[0]
                    else:
                        break
                if x != mk("arg", b.path, 1):
                    bad = "%s does not keep all of the value: %s" % (b.path, show(x)[:100])
            R.check("convert", bad is None, m + "::" + fn, bad or "")
