"""Strict equality, equality and hashing of elements."""
from pathval import *
from ident import Ident

EXPLANATION = (
    "For every implementation of strict equality and every handwritten implementation of equality in the element types, "
    "each path of its MIR that can answer true is taken, and the comparisons that must have succeeded on it are "
    "collected (through matches on both values, &&, all over zipped iterators with equal lengths, map lookups). The "
    "obligation: both values are the same variant and every field is compared with the same field of the other, strictly "
    "where the field's type contains regions; every variant can be equal to itself; the plain equality and the hash of a "
    "located element never read the region; a handwritten hash only reads what equality compares, and never in the order "
    "of a hash map.")
ASSUMPTIONS = ["derived implementations and those of the standard library compare and hash everything they hold"]

# fields that are determined by other fields, so that comparing them adds nothing
DERIVED_FIELDS = {
    ("Table", "row_cnt"): "count of rows of cells, computed by the constructor from the cells",
    ("Table", "col_cnt"): "count of columns of cells, computed by the constructor from the cells",
}
EQ = {"eq", "strict_eq"}
NE = {"ne", "strict_ne"}


class Cmp:
    def __init__(self, a, b, strict, kind="eq"):
        self.a, self.b, self.strict, self.kind = a, b, strict, kind


class Prover:
    def __init__(self, P, I, pv):
        self.P, self.I, self.pv = P, I, pv

    def established(self, t, truth, d=0):
        """comparisons that hold when the boolean term t has the given truth"""
        while t.k == "un" and t.a[0] == "Not":
            t, truth = t.a[1], not truth
        if d > 8:
            return []
        if t.k == "bin":
            if (t.a[0] == "Eq" and truth) or (t.a[0] == "Ne" and not truth):
                return [Cmp(t.a[1], t.a[2], True)]
            if t.a[0] == "BitAnd" and truth:
                return self.established(t.a[1], True, d + 1) + self.established(t.a[2], True, d + 1)
            return []
        if t.k != "call":
            return []
        m, args = last(t.a[0]), t.a[1]
        if (m in EQ and truth) or (m in NE and not truth):
            return [Cmp(args[0], args[1], m.startswith("strict"))]
        if m == "all" and truth and len(args) == 2:
            it, f = args
            z = self.strip(it)
            if z.k == "call" and last(z.a[0]) == "zip":
                a, b = z.a[1]
                p = mk("agg", "tuple", "", ("0", "1"), (item(a), item(b)))
                cs = self.closure(f, p, d)
                return [Cmp(a, b, all(c.strict for c in cs2), "zip") for cs2 in [self.pairs(cs, item(a), item(b))] if cs2] \
                    + [Cmp(a, b, False, "zip") for cs2 in [self.pairs(cs, item(a), item(b))] if cs2]
            p = item(it)
            cs = self.closure(f, p, d)
            out = []
            if z.k == "agg" and z.a[0].endswith("::Range") and z.a[3][0].k == "const" and z.a[3][0].a[0] == 0:
                for c in cs:
                    if c.a.k == "call" and c.b.k == "call" and last(c.a.a[0]) == "index" and last(c.b.a[0]) == "index" \
                            and c.a.a[1][1] is p and c.b.a[1][1] is p:
                        e = z.a[3][1]
                        A, B = c.a.a[1][0], c.b.a[1][0]
                        if e.k == "call" and last(e.a[0]) == "len" and (self.im(e.a[1][0], A) or self.im(e.a[1][0], B)):
                            out.append(Cmp(A, B, c.strict, "zip"))
            for c in cs:
                # item(a).1 against item(get(b, item(a).0))
                for x, y in ((c.a, c.b), (c.b, c.a)):
                    if y.k == "item" and y.a[0].k == "call" and last(y.a[0].a[0]) == "get":
                        g = y.a[0].a[1]
                        if self.im(g[1], fld(p, "0")) and self.im(x, fld(p, "1")):
                            out.append(Cmp(it, g[0], c.strict, "zip"))
            return out
        if m in ("map_or", "is_some_and") and truth:
            opt = args[0]
            f = args[-1]
            if m == "map_or" and not (args[1].k == "const" and args[1].a[0] in (False, 0)):
                return []
            return self.closure(f, item(opt), d)
        return []

    def pairs(self, cs, a, b):
        return [c for c in cs if (self.im(c.a, a) and self.im(c.b, b)) or (self.im(c.a, b) and self.im(c.b, a))]

    def strip(self, t):
        while t.k == "call" and last(t.a[0]) in ("by_ref", "into_iter", "iter") and t.a[1]:
            t = t.a[1][0]
        if t.k == "mutd":
            return self.strip(t.a[0])
        return t

    def im(self, a, b, facts=None):
        return a is b or self.I.quiet(a, b, facts or Facts(), 0)

    def closure(self, f, p, d):
        common = None
        for facts, r in self.pv.apply(f, [p], Facts(), ()):
            if is_false(r):
                continue
            cs = self.of_path(facts, r, d + 1)
            common = cs if common is None else [c for c in common if any(c.a is e.a and c.b is e.b for e in cs)]
        return common or []

    def of_path(self, facts, r, d=0):
        out = []
        for t, v in facts.d.items():
            if v in (0, 1) and not isinstance(v, frozenset):
                out += self.established(t, bool(v), d)
        out += self.established(r, True, d)
        # loops over zipped iterators that ran to their end
        for t, v in facts.d.items():
            if t.k == "call" and last(t.a[0]) == "next" and v == frozenset(["None"]):
                it = t.a[1][0]
                z = self.strip(it)
                if z.k != "call" or last(z.a[0]) != "zip":
                    continue
                a, b = z.a[1]
                if t.a[1][1].a[0] == "visit1":
                    out.append(Cmp(a, b, True, "zip"))
                else:
                    x = mk("item", it)
                    for c in list(out):
                        if (self.im(c.a, fld(x, "0")) and self.im(c.b, fld(x, "1"))) or \
                                (self.im(c.a, fld(x, "1")) and self.im(c.b, fld(x, "0"))):
                            out.append(Cmp(a, b, c.strict, "zip"))
        return out


def is_false(r):
    return r.k == "const" and r.a[0] in (False, 0)


def is_true(r):
    return r.k == "const" and r.a[0] in (True, 1)


def run(P, R, tier):
    R.rule("compared", "a path that answers true has compared every field with the same field of the other value", 36)
    R.rule("reflexive", "each variant can be equal to itself", 44)
    R.rule("implemented", "each element type that holds located parts has a strict equality", 14)
    R.rule("region-ignored", "plain equality and hash of a located element do not depend on its region", 2)
    R.rule("hash", "a handwritten hash reads only what equality compares, in an order that is fixed", 1)
    pv = Paths(P, enter=lambda c, b: b.name not in EQ | NE | {"hash", "fmt"})
    I = Ident(P, pv, set())
    V = Prover(P, I, pv)
    located = "vimwiki_core::lang::elements::utils::Located"
    memo = {}

    def has_located(ty, seen=()):
        t = P.t(ty)
        if t["k"] == "adt" and t["def"] == located:
            return True
        if t["s"] in seen:
            return False
        for a in t.get("args", []):
            if has_located(a, seen + (t["s"],)):
                return True
        if t["k"] == "adt" and t["def"] in P.adts:
            if t["def"] in memo:
                return memo[t["def"]]
            memo[t["def"]] = False
            r = any(has_located(f["ty"], seen + (t["s"],)) for v in P.adts[t["def"]]["variants"] for f in v["fields"])
            memo[t["def"]] = r
            return r
        return False

    def generic_strict(ty):
        t = P.t(P.peel(ty))
        return t["k"] == "param" or t["s"] == "T"

    impls = []
    for b in P.bodies.values():
        if b.crate != "vimwiki_core" or b.kind == "closure" or b.derived or b.self_ty is None:
            continue
        tr = (b.trait or "").rsplit("::", 1)[-1]
        if tr == "StrictEq" and b.name == "strict_eq":
            impls.append((b, True))
        elif tr == "PartialEq" and b.name == "eq" and b.path.startswith("<vimwiki_core::lang::elements"):
            impls.append((b, False))
    for b, strict in impls:
        adt = P.adt_of(b.self_ty)
        other = P.adt_of(b.ty(2))
        key = short(b.path)
        a1, a2 = mk("arg", b.path, 1), mk("arg", b.path, 2)
        rs = [x for x in pv.root(b) if not is_false(x[1])]
        if adt not in P.adts or other != adt:
            # a collection or a comparison with another type: all of what it holds, or one comparison
            for facts, r, _ in rs:
                cs = V.of_path(facts, r)
                if adt is not None and adt.endswith("Vec"):
                    ok = whole(V, cs, a1, a2, True)
                else:
                    ok = bool(cs) or not is_true(r)
                R.check("compared", ok, key, "%s answers true without comparing all elements" % b.span(None))
            continue
        d = P.adts[adt]
        name = adt.rsplit("::", 1)[-1]
        seen = set()
        bad = None
        for facts, r, _ in rs:
            cs = V.of_path(facts, r)
            f1, f2 = facts.get(a1), facts.get(a2)
            if whole(V, cs, a1, a2, strict and has_located(b.self_ty), facts):
                seen |= {v["name"] for v in d["variants"]}
                continue
            if d["kind"] == "enum":
                if not (isinstance(f1, frozenset) and f1 == f2 and len(f1) == 1):
                    bad = "answers true for values that can be of different variants (%s, %s)" % (f1 and sorted(f1), f2 and sorted(f2))
                    break
                vn = next(iter(f1))
                seen.add(vn)
                vs = [v for v in d["variants"] if v["name"] == vn]
            else:
                vn = None
                seen |= {v["name"] for v in d["variants"]}
                vs = d["variants"]
            for v in vs:
                for f in v["fields"]:
                    if (name, f["name"]) in DERIVED_FIELDS:
                        continue
                    if adt == located and f["name"] == "region" and not strict:
                        continue
                    x = fld(var(a1, vn) if vn else a1, f["name"])
                    y = fld(var(a2, vn) if vn else a2, f["name"])
                    need = strict and (has_located(f["ty"]) or (generic_strict(f["ty"]) and adt == located))
                    if not whole(V, cs, x, y, need, facts):
                        bad = "answers true without comparing %s%s%s" % ((vn + ".") if vn else "", f["name"], " strictly" if need else "")
                        break
                if bad:
                    break
            if bad:
                break
        R.check("compared", bad is None, key, "%s: %s" % (b.span(None), bad), "%s at %s" % (key, b.span(None)))
        for v in d["variants"]:
            R.check("reflexive", v["name"] in seen, key + " " + v["name"],
                    "%s: no path answers true for two values that are %s" % (b.span(None), v["name"]))
        if adt == located and not strict:
            uses = any("region" in show(t) for facts, r, _ in pv.root(b) for t in list(facts.d) + [r])
            R.check("region-ignored", not uses, key, "%s: equality reads the region" % b.span(None))
    done = {P.adt_of(b.self_ty) for b, s in impls if s}
    comparable = {P.adt_of(i["self"]) for i in P.impls if i.get("trait", "").endswith("::PartialEq")}
    for a, d in sorted(P.adts.items()):
        if a.startswith("vimwiki_core::lang::elements::") and "_::" not in a and a in comparable and \
                any(has_located(f["ty"]) for v in d["variants"] for f in v["fields"]) and d["kind"] in ("struct", "enum"):
            sp = d.get("span", [""])[0]
            R.check("implemented", a in done, short(a), "%s (%s) holds located parts and has no strict equality" % (a, sp))
    hashes(P, R, pv, located)


def whole(V, cs, x, y, strict, facts=None):
    """the comparisons establish that x and y hold the same"""
    zipped = lens = False
    for c in cs:
        for p, q in ((c.a, c.b), (c.b, c.a)):
            if V.im(p, x, facts) and V.im(q, y, facts):
                if c.kind == "zip":
                    zipped |= (c.strict or not strict)
                elif c.strict or not strict:
                    return True
            if p.k == "call" and q.k == "call" and last(p.a[0]) == "len" and last(q.a[0]) == "len" and \
                    V.im(p.a[1][0], x, facts) and V.im(q.a[1][0], y, facts):
                lens = True
    return zipped and lens


UNORDERED = {"keys", "values", "iter", "into_iter", "drain"}


def hashes(P, R, pv, located):
    for b in P.bodies.values():
        if b.crate != "vimwiki_core" or b.name != "hash" or b.derived or b.kind == "closure" \
                or not (b.trait or "").endswith("::Hash"):
            continue
        key = short(b.path)
        adt = P.adt_of(b.self_ty)
        a1 = mk("arg", b.path, 1)
        # fields compared by equality
        eqb = [e for e in P.bodies.values() if e.name == "eq" and e.self_ty is not None and P.adt_of(e.self_ty) == adt
               and (e.trait or "").endswith("::PartialEq") and e.args == 2 and P.adt_of(e.ty(2)) == adt]
        fields = None
        if eqb and not eqb[0].derived:
            txt = [show(t) for facts, r, _ in pv.root(eqb[0]) for t in list(facts.d) + [r]]
            fields = {f["name"] for v in P.adts[adt]["variants"] for f in v["fields"]
                      if any(("arg1.%s" % f["name"]) in x for x in txt)}
            if any("to_string(arg1)" in x for x in txt):
                fields = None
        bad = None
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c is None or c["name"] != "hash":
                continue
            o = t[2][0]
            v = _value(P, b, o, (bi, len(b.blocks[bi]["s"])))
            for x in v:
                if x.k == "fld" and x.a[0].k == "arg" and x.a[0].a == (b.path, 1):
                    if fields is not None and x.a[1] not in fields:
                        bad = "hashes the field %s, which equality does not compare" % x.a[1]
                    if adt == located and x.a[1] == "region":
                        bad = "hashes the region"
            un = unsorted(P, v)
            if un is not None:
                bad = "hashes in the order of a hash map: " + show(un)[:120]
        R.check("hash", bad is None, key, "%s %s" % (b.span(None), bad), "%s at %s" % (key, b.span(None)))
        if adt == located:
            R.check("region-ignored", bad is None, key + " hash", "%s %s" % (b.span(None), bad))


_E = {}


def _value(P, b, o, at):
    E = _E.setdefault(id(P), Eval(P))
    fr = E.root(b)
    return list(walk(fr.operand(o, at), E, cut=lambda x: x.k == "mutd" and any("sort" in last(e.a[0]) for e in x.a[1])))


def unsorted(P, terms):
    for x in terms:
        if x.k == "call" and "HashM" in x.a[0] and last(x.a[0]) in UNORDERED | {"into_keys", "into_values"}:
            return x
        if x.k == "call" and "HashSet" in x.a[0] and last(x.a[0]) in UNORDERED:
            return x
    return None
