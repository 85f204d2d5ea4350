"""Taking the children of an element loses none of them."""
from pathval import *
from ident import Ident
from located import HasLocated, LOCATED

EXPLANATION = (
    "For every implementation of the consuming children conversion, each path of its MIR is evaluated to the sequence it "
    "returns. The obligation: for the variant of that path, every field whose type holds located parts appears in the "
    "sequence whole (through map, flat_map, chain, once, collect, extend, loops that push on every iteration; never "
    "filtered, truncated or reversed), in the order of the fields, each child keeping its region. The slices of children "
    "that are lent must be the field that holds them.")
ASSUMPTIONS = ["iterator adaptors of the standard library do what they document"]


class Parts:
    def __init__(self, P, pv, I):
        self.P, self.pv, self.I = P, pv, I

    def parts(self, t, facts, d=0):
        """sequence of sources a term of a collection or iterator type is made of, or None"""
        if d > 30:
            return None
        k = t.k
        if k == "cast":
            return self.parts(t.a[0], facts, d + 1)
        if k == "agg" and t.a[0] == "array":
            return [("x", x) for x in t.a[3]]
        if k == "agg" and t.a[0] in self.P.adts and len(t.a[3]) == 1:
            return self.parts(t.a[3][0], facts, d + 1)
        if k == "call":
            m, args = last(t.a[0]), t.a[1]
            if m == "map" and len(args) == 2:
                ps = self.parts(args[0], facts, d + 1)
                return ps if ps is not None and self.fn_keeps(args[1], item(args[0]), facts) else None
            if m == "flat_map" and len(args) == 2:
                ps = self.parts(args[0], facts, d + 1)
                return ps if ps is not None and self.fn_keeps(args[1], item(args[0]), facts) else None
            if m == "flatten" and args:
                return self.parts(args[0], facts, d + 1)
            if m == "chain":
                a, b = self.parts(args[0], facts, d + 1), self.parts(args[1], facts, d + 1)
                return None if a is None or b is None else a + b
            if m == "once":
                return [("x", args[0])]
            if m in ("collect", "into_iter", "iter", "into_vec", "to_vec", "from_iter", "into_boxed_slice", "box_new",
                     "box_assume_init_into_vec_unsafe", "write_box_via_move", "into_inner", "into", "from") and args:
                return self.parts(args[0], facts, d + 1)
            if m == "into_children" and args:
                return [("c", args[0])]
            if m in ("new", "with_capacity", "empty", "default") and "::elements::" not in t.a[0]:
                return []
        if k == "mutd":
            ps = self.parts(t.a[0], facts, d + 1)
            if ps is None:
                return None
            for e in t.a[1]:
                m, args = last(e.a[0]), e.a[1]
                if m in ("push", "push_back"):
                    ps = ps + [("e", args[1])]
                elif m in ("extend", "append"):
                    q = self.parts(args[1], facts, d + 1)
                    if q is None:
                        return None
                    ps = ps + [("e", x) for kind, x in q]
                elif m.startswith("sort") or m in ("reserve", "shrink_to_fit", "next", "deref_mut"):
                    continue
                else:
                    return None
            return ps
        return [("s", t)]

    def fn_keeps(self, f, x, facts):
        if f.k == "fn" and f.a[0] not in self.P.bodies:
            return True     # constructor
        rs = self.pv.apply(f, [x], facts, ())
        return bool(rs) and all(self.keeps(r, x, fa) for fa, r in rs)

    def keeps(self, r, x, facts, d=0):
        """r holds all of x (as itself, wrapped, or as its children)"""
        if d > 20:
            return False
        if r is x or self.I.quiet(r, x, facts, 0):
            return True
        if r.k == "agg" and r.a[0] == LOCATED:
            inner, region = r.a[3][r.a[2].index("inner")], r.a[3][r.a[2].index("region")]
            if region.k == "fld" and region.a[1] == "region" and self.keeps(region.a[0], x, facts, d + 1):
                return self.holds(inner, fld(x, "inner"), facts, d + 1) or \
                    self.holds(inner, fld(region.a[0], "inner"), facts, d + 1)
            return False
        if r.k == "agg" and len(r.a[3]) == 1:
            return self.keeps(r.a[3][0], x, facts, d + 1)
        ps = self.parts(r, facts, d + 1)
        if ps is not None and len(ps) == 1 and ps[0][1] is not r:
            y = ps[0][1]
            return self.keeps(y, x, facts, d + 1) or self.keeps(y, fld(x, "inner"), facts, d + 1) \
                or self.keeps(y, fld(x, "1"), facts, d + 1) or self.keeps(y, fld(fld(x, "1"), "inner"), facts, d + 1)
        return False

    def holds(self, r, x, facts, d=0):
        if d > 20:
            return False
        if r is x or self.I.quiet(r, x, facts, 0):
            return True
        f = facts.get(x)
        if isinstance(f, frozenset) and len(f) == 1 and x.k != "var" and \
                self.holds(r, fld(var(x, next(iter(f))), "0"), facts, d + 1):
            return True
        if r.k == "agg" and len(r.a[3]) == 1:
            return self.holds(r.a[3][0], x, facts, d + 1)
        if r.k == "call" and len(r.a[1]) == 1 and (last(r.a[0]) in ("from", "into", "new") or r.a[0].rsplit("::", 1)[-1][:1].isupper()):
            return self.holds(r.a[1][0], x, facts, d + 1)
        return False


def run(P, R, tier):
    R.rule("children", "every located part of the variant is in the returned sequence, whole and in order", 22)
    R.rule("slice", "the lent slice of children is the field holding them", 7)
    pv = Paths(P, enter=lambda c, b: b.name not in ("into_children", "as_children_slice", "as_children_mut_slice"))
    I = Ident(P, pv, set())
    L = HasLocated(P)
    S = Parts(P, pv, I)
    for b in P.bodies.values():
        if b.crate != "vimwiki_core" or b.kind == "closure" or b.self_ty is None:
            continue
        tr = (b.trait or "").rsplit("::", 1)[-1]
        if tr == "IntoChildren" and b.name == "into_children":
            one(P, R, pv, I, L, S, b)
        elif tr in ("AsChildrenSlice", "AsChildrenMutSlice"):
            adt = P.adts.get(P.adt_of(b.self_ty))
            if adt is None:
                continue
            key = short(b.path)
            a1 = mk("arg", b.path, 1)
            for facts, r, env in pv.root(b):
                vn = _variant(adt, facts.get(a1))
                base = var(a1, vn) if vn and adt["kind"] == "enum" else a1
                ok = False
                left = facts.get(a1)
                if not any(L(f["ty"]) for v in adt["variants"] for f in v["fields"]
                           if not isinstance(left, frozenset) or v["name"] in left):
                    ok = True
                for v in adt["variants"]:
                    for f in v["fields"]:
                        if L(f["ty"]) and (r is fld(base, f["name"]) or I.quiet(r, fld(base, f["name"]), facts, 0)):
                            ok = True
                for x in walk_simple(r):
                    if x.k == "call" and last(x.a[0]) in ("as_children_slice", "as_children_mut_slice"):
                        ok = True
                R.check("slice", ok, key, "%s lends %s" % (b.span(None), show(r)[:200]))


def walk_simple(t):
    yield t
    if t.k == "call":
        for x in t.a[1]:
            yield from walk_simple(x)


def _variant(adt, f):
    if adt["kind"] != "enum":
        return adt["variants"][0]["name"]
    return next(iter(f)) if isinstance(f, frozenset) and len(f) == 1 else None


def one(P, R, pv, I, L, S, b):
    adt = P.adts[P.adt_of(b.self_ty)]
    a1 = mk("arg", b.path, 1)
    key = short(b.path)
    for facts, r, env in pv.root(b):
        f = facts.get(a1)
        names = sorted(f) if isinstance(f, frozenset) else [v["name"] for v in adt["variants"]]
        # a loop that was not entered
        if any(k.k == "call" and last(k.a[0]) == "next" and v == frozenset(["None"]) and k.a[1][1].a[0] == "visit1"
               for k, v in facts.d.items()):
            continue
        ps = S.parts(r, facts)
        for vn in names:
            v = [x for x in adt["variants"] if x["name"] == vn][0]
            base = var(a1, vn) if adt["kind"] == "enum" else a1
            pos = -1
            for fd in v["fields"]:
                if not L(fd["ty"]):
                    continue
                s = fld(base, fd["name"])
                at = None
                for i, (kind, x) in enumerate(ps or []):
                    if kind == "e" and pushed(x, s, facts, S, I) or S.keeps(x, s, facts) or S.keeps(x, fld(s, "inner"), facts) or S.keeps(x, mk("item", s), facts) \
                            or S.keeps(x, fld(mk("item", s), "1"), facts) or _under(x, s, facts, I):
                        at = i
                        break
                inst = "%s %s%s" % (key, (vn + ".") if adt["kind"] == "enum" else "", fd["name"])
                if at is None:
                    R.fail("children", inst, "%s: %s is not wholly in what is returned: %s" % (b.span(None), fd["name"], show(r)[:300]))
                elif at < pos:
                    R.fail("children", inst, "%s: %s comes before an earlier part" % (b.span(None), fd["name"]))
                else:
                    R.ok("children", inst)
                    pos = max(pos, at)


def pushed(x, s, facts, S, I):
    """x is what one round of a loop over s pushes: it keeps the item of that round"""
    for y in walk_all(x):
        if y.k == "item" and (_under(y.a[0], s, facts, I) or _under(y.a[0], fld(s, "inner"), facts, I)):
            if any(S.keeps(x, z, facts) for w in (y, fld(y, "1")) for z in (w, fld(w, "inner"))):
                return True
    return False


def walk_all(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.a:
        for x in (a if isinstance(a, tuple) else (a,)):
            if isinstance(x, Term):
                yield from walk_all(x, seen)


def _under(x, s, facts, I):
    """x is a part reached from s through one-field wrappers (Located::into_inner, newtype)"""
    y = x
    for _ in range(8):
        if I.quiet(y, s, facts, 0):
            return True
        if y.k == "fld" and y.a[1] in ("inner", "0"):
            y = y.a[0]
        elif y.k == "call" and y.a[1] and last(y.a[0]) in ("into_iter", "iter", "into_inner", "collect"):
            y = y.a[1][0]
        elif y.k == "mutd" and all(last(e.a[0]).startswith("sort") or last(e.a[0]) in ("reserve", "shrink_to_fit", "next", "deref_mut") for e in y.a[1]):
            y = y.a[0]
        else:
            return False
    return False
