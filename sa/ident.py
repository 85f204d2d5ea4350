"""Is a value an image of another one with nothing lost, added or moved?

`Ident.check(t, s, facts)` decides whether term `t` holds, component by component,
what the source term `s` holds, where ownership conversions, clones, collections
rebuilt from all of their elements and one-field wrappers are transparent.
"""
from pathval import *

# conversions of the standard library and of uriparse that keep the value
KEEP = {
    "into_owned", "to_borrowed", "as_borrowed", "clone", "cloned", "copied", "to_owned", "iter", "into_iter",
    "as_ref", "as_mut", "deref", "deref_mut", "borrow", "into", "from", "as_str", "as_slice", "as_deref", "collect",
    "from_iter", "into_boxed_slice", "to_vec", "into_vec", "into_inner", "as_inner", "into_string", "to_path_buf",
    "into_boxed_str", "as_path", "as_bytes", "by_ref", "iter_mut", "as_mut_slice", "drain", "to_string", "cast",
    "write_box_via_move", "box_new", "into_boxed_path", "as_deref_mut", "unsize",
}
WRAP_NEW = ("alloc::boxed::Box", "std::boxed::Box", "std::rc::Rc", "std::sync::Arc")
PUSH = {"push", "insert", "push_back", "add"}
EXTEND = {"extend", "append", "extend_from_slice", "push_str"}
EMPTY = {"new", "with_capacity", "default", "with_capacity_and_hasher", "with_hasher"}
URI = ["scheme", "authority", "path", "query", "fragment"]


class Ident:
    def __init__(self, P, pv, coinductive=None):
        self.P = P
        self.pv = pv
        self.co = coinductive or set()
        self.why = None

    # ---- types of source terms
    def typ(self, t):
        P = self.P
        if t.k == "arg":
            b = P.bodies.get(t.a[0])
            return b.ty(t.a[1]) if b is not None else None
        if t.k == "fld":
            base, v = t.a[0], None
            if base.k == "var":
                base, v = base.a
            bt = self.typ(base)
            if bt is None:
                return None
            bt = P.peel(bt)
            ty = P.t(bt)
            if ty["k"] == "tuple" and t.a[1].isdigit() and int(t.a[1]) < len(ty["args"]):
                return ty["args"][int(t.a[1])]
            if ty["k"] == "adt":
                if ty["def"] in P.adts:
                    for va in P.adts[ty["def"]]["variants"]:
                        if v is None or va["name"] == v:
                            for f in va["fields"]:
                                if f["name"] == t.a[1]:
                                    ft = P.t(f["ty"])
                                    if ft["k"] == "param" or (ft["k"] not in ("adt", "tuple", "ref") and len(ty.get("args", [])) == 1 and ft["s"] in ("T", "U")):
                                        tys = [x for x in ty["args"]]
                                        return tys[0] if tys else None
                                    return f["ty"]
                elif ty.get("args"):
                    return ty["args"][0]
            return None
        if t.k == "call" and t.a[1] and last(t.a[0]) in ("get", "deref", "deref_mut", "as_ref", "as_mut", "iter", "iter_mut", "first", "last",
                                                         "get_mut", "as_slice", "nth", "copied", "cloned"):
            return self.typ(t.a[1][0])
        if t.k == "item":
            bt = self.typ(t.a[0])
            if bt is None:
                return None
            ty = P.t(P.peel(bt))
            if ty["k"] in ("slice", "array"):
                return ty["args"][0] if ty.get("args") else None
            if ty["k"] == "adt":
                a = [x for x in ty.get("args", [])]
                if ty["def"].endswith("HashMap") or ty["def"].endswith("BTreeMap"):
                    return None
                return a[0] if a else None
        return None

    def single(self, s):
        """name of the only field of the struct s is, if it is one"""
        ty = self.typ(s)
        a = self.P.adt_of(ty) if ty is not None else None
        if a in self.P.adts and self.P.adts[a]["kind"] == "struct" and len(self.P.adts[a]["variants"][0]["fields"]) == 1:
            return self.P.adts[a]["variants"][0]["fields"][0]["name"]
        return None

    def fail(self, t, s, msg=""):
        if self.why is None:
            self.why = (t, s, msg)
        return False

    def body(self, b, src=0):
        """Every path of b returns an image of its parameter src (0-based)."""
        self.why = None
        args = tuple(mk("arg", b.path, i + 1) for i in range(b.args))
        rs = self.pv.run(b, args)
        if not rs:
            return self.fail(mk("never"), args[src], "no path returns")
        for facts, r, _ in rs:
            if not self.check(r, args[src], facts):
                return False
        return True

    def check(self, t, s, facts, d=0):
        if d > 60:
            return self.fail(t, s, "too deep")
        if t is s:
            return True
        d += 1
        k = t.k
        if k == "cast":
            return self.check(t.a[0], s, facts, d)
        if s.k == "cast":
            return self.check(t, s.a[0], facts, d)
        if s.k == "mutd" and not s.a[1]:
            return self.check(t, s.a[0], facts, d)
        sf = self.single(s)
        if k == "agg":
            name, variant, fs, vs = t.a
            l = name.rsplit("::", 1)[-1]
            if l == "Cow":
                f = facts.get(s)
                if f == frozenset([variant]) and self.quiet(vs[0], mk("fld", var(s, variant), "0"), facts, d):
                    return True
                if isinstance(f, frozenset) and len(f) == 1:
                    v0 = next(iter(f))
                    if v0 in ("Borrowed", "Owned") and self.quiet(vs[0], fld(var(s, v0), "0"), facts, d):
                        return True
                return self.check(vs[0], s, facts, d)
            if l == "Option" or l == "Result":
                f = facts.get(s)
                if variant == "None":
                    return True if f == frozenset(["None"]) else self.fail(t, s, "is None whatever the source holds")
                if variant == "Some":
                    return self.check(vs[0], item(s), facts, d)
                return self.check(vs[0], fld(var(s, variant), "0"), facts, d)
            if name == "tuple":
                for i, v in enumerate(vs):
                    if not self.check(v, fld(s, str(i)), facts, d):
                        return False
                return True
            a = self.P.adts.get(name)
            if a is None:
                return self.fail(t, s, "value of another type")
            if a["kind"] == "enum":
                f = facts.get(s)
                if f != frozenset([variant]):
                    return self.fail(t, s, "made where the source is %s" % (sorted(f) if isinstance(f, frozenset) else "not known to be that variant"))
                return all(self.check(v, fld(var(s, variant), n), facts, d) for n, v in zip(fs, vs))
            if len(fs) == 1:
                if sf is not None and sf == fs[0] and self.quiet(vs[0], fld(s, fs[0]), facts, d):
                    return True
                return self.check(vs[0], s, facts, d) if sf is None else \
                    self.check(vs[0], fld(s, sf), facts, d)
            if not fs:
                return True
            return all(self.check(v, fld(s, n), facts, d) for n, v in zip(fs, vs))
        if k == "call":
            n, args = t.a[0], t.a[1]
            m = last(n)
            if m in ("map", "map_or_else") and len(args) == 2:
                data, f = args
                if not self.check(data, s, facts, d):
                    return False
                return self.each(f, item(s), facts, d)
            if m == "transpose" and args:
                return self.check(args[0], s, facts, d)
            if m in KEEP and args and not (n in self.P.bodies and n not in self.co):
                return self.check(args[0], s, facts, d)
            if m == "new" and args and any(n.startswith(w) for w in WRAP_NEW):
                return self.check(args[0], s, facts, d)
            if m in ("expect", "unwrap", "from_parts") and args:
                inner = args[0] if m != "from_parts" else t
                if inner.k == "call" and last(inner.a[0]) == "from_parts" and "URIReference" in inner.a[0]:
                    for part, x in zip(URI, inner.a[1]):
                        p = mk("call", "uriparse::URIReference::<'uri>::" + part, (s,), ())
                        if not self.check(x, p, facts, d):
                            return False
                    return True
            if m in URI and n.startswith("uriparse::URIReference") and s.k == "call" and s.a[0] == n:
                return self.check(args[0], s.a[1][0], facts, d)
            if m in EMPTY and (not args or m.startswith("with_")):
                if self.empty_source(s, facts):
                    return True
                return self.fail(t, s, "empty whatever the source holds")
        if k == "mutd":
            base, effs = t.a
            return self.built(base, effs, t, s, facts, d)
        if k == "item" and s.k == "item":
            return self.check(t.a[0], s.a[0], facts, d)
        if k == "fld" and s.k == "fld" and t.a[1] == s.a[1]:
            tb, sb = t.a[0], s.a[0]
            if tb.k == "var" and sb.k == "var" and tb.a[1] == sb.a[1]:
                return self.check(tb.a[0], sb.a[0], facts, d)
            if tb.k != "var" and sb.k != "var" and self.quiet(tb, sb, facts, d):
                return True
        # Cow taken apart; boxed contents
        if k == "fld" and t.a[0].k == "var" and t.a[0].a[1] in ("Borrowed", "Owned") and t.a[1] == "0":
            return self.check(t.a[0].a[0], s, facts, d)
        if k == "fld" and t.a[1] in ("0", "pointer") and self.boxed(t.a[0]):
            return self.check(t.a[0], s, facts, d)
        if sf is not None and self.quiet(t, fld(s, sf), facts, d):
            return True
        return self.fail(t, s)

    def boxed(self, t):
        ty = self.typ(t)
        if ty is None:
            return False
        x = self.P.t(ty)
        while x["k"] == "ref":
            x = self.P.t(x["args"][0])
        return x["k"] == "adt" and x["def"].endswith(("Box", "Unique", "NonNull"))

    def quiet(self, t, s, facts, d):
        w = self.why
        r = self.check(t, s, facts, d)
        self.why = w
        return r

    def each(self, f, src, facts, d):
        """a function value maps src to an image of it"""
        if f.k == "fn":
            b = self.P.bodies.get(f.a[0])
            m = last(f.a[0])
            if b is not None and f.a[0] in self.co:
                return True
            if b is None:
                # a constructor of a wrapper, or a conversion
                return True if m in KEEP or m in ("Owned", "Borrowed", "Some", "Box") else \
                    self.fail(f, src, "not known to keep the value")
        rs = self.pv.apply(f, [src], facts, ())
        if not rs:
            return self.fail(f, src, "closure without result")
        return all(self.check(r, src, fa, d) for fa, r in rs)

    def empty_source(self, s, facts):
        for k, v in facts.d.items():
            if v == frozenset(["None"]) and k.k == "call" and last(k.a[0]) == "next" and k.a[1][1].a[0] == "visit1":
                if self.quiet(k.a[1][0], s, facts, 30):
                    return True
                if self.single(s) and self.quiet(k.a[1][0], fld(s, self.single(s)), facts, 30):
                    return True
        return False

    def built(self, base, effs, t, s, facts, d):
        """collection filled from (all of) another"""
        if not (base.k == "call" and last(base.a[0]) in EMPTY):
            # an iterator that was advanced
            if all(last(e.a[0]) in ("next", "size_hint", "by_ref", "reserve") for e in effs):
                return self.check(base, s, facts, d)
            return self.fail(t, s, "changed after it was made")
        src = item(s)
        n = 0
        for e in effs:
            m = last(e.a[0])
            if m in ("reserve", "shrink_to_fit"):
                continue
            if m in EXTEND:
                n += 1
                if not self.check(e.a[1][1], s, facts, d):
                    return False
            elif m in PUSH:
                n += 1
                xs = [a for a in e.a[1] if a.k != "self"]
                if len(xs) == 1:
                    if not self.check(xs[0], src, facts, d):
                        return False
                else:
                    for i, x in enumerate(xs):
                        if not self.check(x, fld(src, str(i)), facts, d):
                            return False
            else:
                return self.fail(t, s, "changed by " + m)
        if n != 1:
            return self.fail(t, s, "filled %d times" % n)
        return True

    def explain(self):
        if self.why is None:
            return "?"
        t, s, m = self.why
        return "%s is not what %s holds%s" % (show(t)[:160], show(s)[:120], (" (%s)" % m) if m else "")
