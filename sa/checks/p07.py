"""Ownership conversions keep the element."""
from pathval import *
from ident import Ident

EXPLANATION = (
    "For each ownership conversion (into_owned, to_borrowed, as_borrowed) of an element type, every path of its MIR is "
    "evaluated to the value it returns, and that value is matched component by component against the receiver: same "
    "variant, each field from the same field, each collection rebuilt from all of the elements in the same way. "
    "Conversions of contained elements are assumed to keep them, being obligations of this same rule.")
ASSUMPTIONS = [
    "conversions of the standard library and of uriparse (clone, collect, into_owned, as_borrowed...) keep the value",
]
NAMES = ("into_owned", "to_borrowed", "as_borrowed")


def run(P, R, tier):
    R.rule("conversion", "each path of the conversion returns what the receiver holds: same variant, fields from the same fields", 50)
    R.rule("covered", "each element type that borrows text has conversions both ways", 36)
    R.rule("collected", "a one-field collection type built by collect holds what it was given", 3)
    conv = [b for b in P.bodies.values() if b.crate == "vimwiki_core" and b.name in NAMES and b.kind != "closure"
            and b.args == 1 and b.self_ty is not None]
    co = {b.path for b in conv}
    pv = Paths(P, enter=lambda c, b: b.path not in co)
    I = Ident(P, pv, co)
    have = {}
    for b in conv:
        have.setdefault(P.adt_of(b.self_ty), set()).add(b.name)
        ok = I.body(b)
        R.check("conversion", ok, short(b.path), "%s: %s" % (b.span(None), I.explain() if not ok else ""),
                "%s at %s" % (short(b.path), b.span(None)))
    for a, d in sorted(P.adts.items()):
        if not a.startswith("vimwiki_core::lang::elements::") or "_::" in a or a.startswith("<"):
            continue
        if not d.get("lifetimes", "'a" in str(d.get("generics", ""))) and a not in have:
            continue
        h = have.get(a, set())
        if not h:
            continue
        for kind, opts in (("owned", {"into_owned"}), ("borrowed", {"to_borrowed", "as_borrowed"})):
            R.check("covered", bool(h & opts), short(a) + " " + kind, "%s has no conversion to its %s form" % (a, kind))
    for i in P.impls:
        if i.get("trait", "").endswith("iter::FromIterator") and i["crate"] == "vimwiki_core":
            for n, p in i["items"]:
                b = P.bodies.get(p)
                a = P.adts.get(P.adt_of(i["self"]))
                if n != "from_iter" or b is None or a is None or len(a["variants"][0]["fields"]) != 1:
                    continue
                vec = P.t(a["variants"][0]["fields"][0]["ty"])
                if not vec.get("args") or not i.get("targs") or \
                        P.ts(vec["args"][0]).replace("'a", "") != P.ts(i["targs"][-1]).replace("'a", ""):
                    continue    # converts what it is given
                ok = I.body(b)
                R.check("collected", ok, short(b.path), "%s: %s" % (b.span(None), I.explain() if not ok else ""))
