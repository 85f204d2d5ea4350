"""A configuration key that is absent has the default value of its section."""
import re
from prog import *
from pathval import *
from terms import show
from checks.p24 import Model, short

EXPLANATION = (
    "For every configuration type that can be read, the MIR of its visitor gives, for each field, the value used when the "
    "key is absent. That value and the value of the field in the Default of the type are evaluated to symbolic terms, "
    "entering the functions of the workspace. Obligations: no absent key is an error, and both terms are the same, so that "
    "an empty section, or one with only some keys, equals the default for all the rest; the same holds when the section "
    "itself is absent; a default constructor of a type and its Default agree.")
ASSUMPTIONS = ["equal calls of library functions give equal values"]

EMPTY = {"alloc::vec::Vec": 1, "std::vec::Vec": 1, "alloc::string::String": 1, "std::string::String": 1, "std::collections::HashMap": 1}


class Eval:
    def __init__(self, P):
        self.P = P
        self.pv = Paths(P, enter=lambda c, b: b.crate.startswith("vimwiki"), maxdepth=10)

    def call(self, c):
        """values of a call without arguments"""
        P = self.P
        n = P.cname(c)
        bs = P.targets(c)
        if len(bs) == 1 and bs[0].args == 0 and bs[0].crate.startswith("vimwiki"):
            return frozenset(self.norm(r) for f, r, e in self.pv.root(bs[0]))
        return frozenset([self.norm(mk("call", n, (), tuple(P.ts(x) for x in c["args"])))])

    def norm(self, t):
        if not hasattr(t, "k"):
            return tuple(self.norm(x) for x in t) if isinstance(t, tuple) else t
        if t.k == "call":
            m = last(t.a[0])
            if m in ("from", "to_string", "to_owned", "into", "new") and len(t.a[1]) == 1 and t.a[1][0].k == "const":
                return mk("call", "text", (self.norm(t.a[1][0]),), ())
            if m in ("new", "default") and not t.a[1]:
                k = t.a[0].lower()
                for w in ("vec", "string", "hashmap", "option", "pathbuf"):
                    if re.search(r"\b%s\b" % w, k) or any(re.search(r"\b%s\b" % w, str(a).lower().split("<")[0]) for a in t.a[2][:1]):
                        return mk("call", "empty:" + w, (), ())
                if any(str(a) == "bool" for a in t.a[2][:1]) or "for bool" in k:
                    return mk("const", 0)
        if t.k == "const":
            return mk("const", t.a[0] if not isinstance(t.a[0], bool) else int(t.a[0]))
        return mk(t.k, *[self.norm(a) if hasattr(a, "k") or isinstance(a, tuple) else a for a in t.a])


def absent(P, b, X, where):
    """{field: callees that give its value when nothing was read}"""
    a = P.adts[X]
    fs = [f["name"] for f in a["variants"][0]["fields"]]
    defs = {}
    for bi, blk in enumerate(b.blocks):
        for s in blk["s"]:
            if s[0] == "=" and not s[1][1]:
                defs.setdefault(s[1][0], []).append(s[2])
        t = blk["t"]
        if t[0] == "call" and not t[3][1]:
            defs.setdefault(t[3][0], []).append(("call", t))
    out = {}
    for blk in b.blocks:
        for s in blk["s"]:
            if not (s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == X):
                continue
            for f, o in zip(s[2][1][3], s[2][2]):
                cs, seen = [], set()
                stack = [o]
                while stack:
                    o = stack.pop()
                    if o[0] not in ("cp", "mv"):
                        continue
                    l = o[1][0]
                    if o[1][1]:
                        # a field of the whole default
                        if len(o[1][1]) == 1 and o[1][1][0][0] == "f":
                            for d in defs.get(l, ()):
                                c = P.callee(d[1][1]) if d[0] == "call" else None
                                if c is not None and last(P.cname(c)) == "default":
                                    cs.append((c, o[1][1][0][1]))
                        continue
                    if l in seen:
                        continue
                    seen.add(l)
                    for d in defs.get(l, ()):
                        if d[0] == "use":
                            stack.append(d[1])
                        elif d[0] == "call":
                            c = P.callee(d[1][1])
                            if c is not None:
                                cs.append((c, d[1]))
                        elif d[0] == "agg":
                            cs.append((None, d))
                out.setdefault(f, []).extend(cs)
    return fs, out


def run(P, R, tier):
    M = Model(P)
    E = Eval(P)
    R.rule("absent", "an absent key gives the value of the field in the Default of the section", 45)
    R.rule("seq", "so it does in a section written as a sequence", 40)
    R.rule("default", "a section has a Default", 18)
    for X in sorted(M.de):
        if "::config::" not in X:
            continue
        dn = [b for n, b in P.bodies.items() if b.kind == "method" and b.args == 0 and last(n) == "default"
              and "Default" in n and re.search(r"%s\b" % re.escape(X), n) and b.self_ty is not None and P.adt_of(b.self_ty) == X]
        R.check("default", len(dn) == 1, short(X), "%s has no Default" % X)
        if len(dn) != 1:
            continue
        whole = [E.norm(r) for f, r, e in E.pv.root(dn[0])]
        for tail, b in M.de[X]:
            if tail.endswith("visit_map"):
                rule = "absent"
            elif tail.endswith("visit_seq"):
                rule = "seq"
            else:
                continue
            fs, got = absent(P, b, X, tail)
            for f in fs:
                key = "%s.%s" % (short(X), f)
                want = frozenset(fld(w, f) for w in whole)
                part = [(c, g) for c, g in got.get(f, ()) if isinstance(g, str)]
                cs = [c for c, t in got.get(f, ()) if c is not None and not isinstance(t, str) and last(P.cname(c)) not in ("branch", "next_value", "next_element")]
                miss = [c for c in cs if last(P.cname(c)) == "missing_field"]
                if miss or not cs + part:
                    R.fail(rule, key, "%s: leaving out %s is an error" % (b.path[:120], f))
                    continue
                vals = frozenset()
                for c in cs:
                    vals |= E.call(c)
                for c, g in part:
                    vals |= frozenset(fld(v, g) for v in E.call(c))
                R.check(rule, vals == want, key, "%s: without %s the section has %s, its Default %s" % (
                    short(X), f, ", ".join(show(v)[:80] for v in vals), ", ".join(show(v)[:80] for v in want)))
