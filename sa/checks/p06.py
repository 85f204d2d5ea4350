"""Writers leave nothing of an element out."""
from esp import *
from checks.p29 import writers, Touches, is_output
from located import LOCATED

EXPLANATION = (
    "Property simulation over the MIR of every writer of both output formats. The state is the set of components of the "
    "element not yet written: initially all of them (fields of the variant at hand, down to the parts that have writers of "
    "their own). A component is discharged by writing it (itself or through any function of it), by handing it to the "
    "formatter or to its own writer, or by finding it absent (no value, no items); a collection only by a loop over all "
    "of it, run to its end, in which each item is discharged in each round. Every successful path must end with nothing "
    "left. The components that a format has no place for are listed in the check with the reason.")
ASSUMPTIONS = ["a function of a component (escaping, trimming, resolving) that is written stands for the component",
               "the vimwiki table writer pads cells through a map by position; its cells are required to reach the output, not each of them"]

HTML = "vimwiki_core::lang::output::html::formatter::HtmlFormatter"
WIKI = "vimwiki_core::lang::output::vimwiki::formatter::VimwikiFormatter"
# what a format has no place for: (format, component) -> reason
NOPLACE = {
    ("html", "Header.centered"): "presentation of the source, the style sheet decides in HTML",
    ("html", "ListItem.suffix"): "HTML numbers ordered lists itself",
    ("html", "ListItem.pos"): "HTML numbers ordered lists itself",
    ("html", "ListItem.ty"): "the list decides between <ol> and <ul>",
    ("html", "ListItemAttributes.todo_status"): "written as the class, tested by the todo predicates",
    ("html", "Placeholder::Other.name"): "unknown placeholders have no output",
    ("html", "Placeholder::Other.value"): "unknown placeholders have no output",
    ("html", "Table.row_cnt"): "implied by the rows", ("html", "Table.col_cnt"): "implied by the rows",
}
for v in ("Wiki", "IndexedInterWiki", "NamedInterWiki", "Diary", "Raw"):
    NOPLACE[("wiki", v + ": LinkData.properties")] = "only transclusion links have a notation for properties"
NOPLACE[("wiki", "Raw: LinkData.description")] = "a raw link is a plain uri"

# components required on some path only, as they depend on others
SOME = {("wiki", "ListItem"): "the prefix and state of an item are written with its first content",
        ("wiki", "Table"): "cells are written through a map by position",
        ("html", "CodeBlock"): "highlighting on the server side has no place for metadata and language",
        }
TRANSPARENT = {"iter", "iter_mut", "into_iter", "enumerate", "zip_with_position", "deref", "as_ref", "as_deref", "as_slice", "collect",
               "copied", "cloned", "by_ref", "peekable", "as_inner", "into_inner", "map", "borrow", "clone", "as_str", "to_vec", "into_vec",
               "as_mut", "deref_mut", "rev", "into", "from", "to_borrowed", "as_borrowed", "into_owned", "as_mut_slice", "fuse", "index",
               "zip", "into_boxed_slice", "as_bytes", "as_path", "unwrap", "expect", "unwrap_or_default", "Some", "inspect"}
LOSSY = {"skip", "take", "filter", "step_by", "skip_while", "take_while", "nth", "first", "last", "split_first", "split_last", "chunks",
         "next", "get", "filter_map", "find", "dedup", "truncate", "pop", "remove", "retain", "drain", "min", "max", "position", "rfind",
         "rev", "split_at", "windows", "last_mut", "first_mut", "clear", "split_off", "swap_remove",
         "replace_range", "take_if"}
SCALAR = {"bool", "usize", "u8", "u16", "u32", "u64", "i16", "i32", "i64", "isize", "char", "f32", "f64"}


class Cover:
    def __init__(self, P, fmt, formatter, body, report, reads):
        self.busy = []
        self.P, self.fmt, self.fm, self.body, self.report = P, fmt, formatter, body, report
        self.reads = reads
        self.tuples = set()
        self.elem = {}
        self.optty = {}
        self.leafty = {}
        self.root = mk("arg", body.path, 1)
        self.some = set()
        self.all = {}
        self.n = 0
        self.withwriter = {P.adt_of(b.self_ty) for b in writers(P, formatter) if b.self_ty is not None}

    def starts(self):
        """what there is to write; one start for each variant of the element"""
        obs = frozenset(self.expand((), self.body.locals[1][0], "self", True))
        if not any(o[0] == () and o[1] == "enum" for o in obs):
            return [(obs, None)]
        return [(self.variant((), obs, v["name"]), Facts().put(self.root, frozenset([v["name"]])))
                for v in self.P.adts[self.elem[()]]["variants"]]

    def variant(self, p, prop, v):
        mine = [o for o in prop if o[0] == p and o[1] == "enum"]
        if not mine:
            return prop
        a = self.P.adts[self.elem[p]]
        new = []
        for x in a["variants"]:
            if x["name"] == v:
                for f in x["fields"]:
                    new += self.expand(p + ("@" + v, f["name"]), f["ty"],
                                       "%s::%s.%s" % (a["path"].rsplit("::", 1)[-1], v, f["name"]))
        return (prop - frozenset(mine)) | frozenset(new)

    # ------------------------------------------------------------ obligations
    def expand(self, path, ty, owner, root=False):
        P = self.P
        t = P.t(P.peel(ty))
        while True:
            if t["k"] == "adt" and t["def"] == LOCATED:
                t = P.t(P.peel(t["args"][0]))
                continue
            break
        k = t["k"]
        vs = [e[1:] for e in path if e.startswith("@")]
        if (self.fmt, owner) in NOPLACE or (vs and (self.fmt, "%s: %s" % (vs[-1], owner)) in NOPLACE):
            return []
        if k == "tuple":
            self.tuples.add(path)
            out = []
            for i, a in enumerate(t.get("args", [])):
                if P.ts(P.peel(a)) in SCALAR or P.ts(a).endswith("CellPos"):
                    continue
                out += self.expand(path + (str(i),), a, "%s.%d" % (owner, i))
            return out
        if k in ("slice", "array"):
            return [self.ob(path, "coll", owner)]
        if k != "adt":
            return [self.ob(path, "scalar" if t["s"] in SCALAR else "leaf", owner)]
        d = t["def"]
        if d.endswith("::Region") or d.endswith("::CellPos"):
            return []
        n = d.rsplit("::", 1)[-1]
        if n == "Option":
            self.optty[path] = t["args"][0]
            return [self.ob(path, "opt", owner)]
        if n in ("Vec", "HashMap", "HashSet", "BTreeMap", "BTreeSet", "VecDeque"):
            return [self.ob(path, "coll", owner)]
        if d in P.adts and d.startswith("vimwiki_core") and (root or d not in self.withwriter):
            a = P.adts[d]
            if a["kind"] == "struct":
                fs = a["variants"][0]["fields"]
                out = []
                for f in fs:
                    p = path if (len(fs) == 1 and f["name"] == "0") or f["name"] == "inner" else path + (f["name"],)
                    if f["name"] == "region":
                        continue
                    out += self.expand(p, f["ty"], "%s.%s" % (n, f["name"]))
                return out
            if all(not v["fields"] for v in a["variants"]):
                return [self.ob(path, "scalar", owner)]
            self.elem[path] = d
            return [self.ob(path, "enum", owner)]
        if d in P.adts and P.adts[d]["kind"] == "struct" and d in self.withwriter:
            self.leafty[path] = ty
        return [self.ob(path, "leaf", owner)]

    def ob(self, path, kind, owner):
        self.all.setdefault(path, owner)
        return (path, kind, owner)

    # ------------------------------------------------------------------ paths
    def path(self, t, d=0):
        """(path, lossy) of a term that is a part of the element, or None"""
        if t is self.root:
            return (), False
        if d > 40:
            return None
        k = t.k
        if k == "fld":
            r = self.path(t.a[0], d + 1)
            if r is None:
                return None
            p, lo = r
            if t.a[1] == "inner":
                return r
            if t.a[1] == "0" and t.a[0].k != "var" and p not in self.tuples:
                return r
            if t.a[1] in ("0", "1") and t.a[0].k == "var" and t.a[0].a[1] in ("Some", "Ok", "Borrowed", "Owned", "Continue"):
                return (p + ("[]",), lo) if t.a[0].a[1] == "Some" else r
            return p + (t.a[1],), lo
        if k == "var":
            r = self.path(t.a[0], d + 1)
            if r is None:
                return None
            if t.a[1] in ("Some", "Ok", "Borrowed", "Owned", "Continue"):
                return r
            return r[0] + ("@" + t.a[1],), r[1]
        if k == "item":
            r = self.path(t.a[0], d + 1)
            return None if r is None else (r[0] + ("[]",), r[1])
        if k in ("cast", "sub"):
            return self.path(t.a[0], d + 1)
        if k == "agg" and len(t.a[3]) == 1:
            return self.path(t.a[3][0], d + 1)
        if k == "mutd":
            r = self.path(t.a[0], d + 1)
            if r is None:
                return None
            lo = r[1] or any(last(e.a[0]) in LOSSY for e in t.a[1] if last(e.a[0]) not in ("next", "next_back"))
            return r[0], lo
        if k == "call" and t.a[1]:
            m = last(t.a[0])
            if m in ("filter", "split") and len(t.a[1]) == 2 and self.drops_empty(t.a[1][1], m == "filter"):
                return self.path(t.a[1][0], d + 1)
            if m in LOSSY and m != "rev":
                r = self.path(t.a[1][0], d + 1)
                return None if r is None else (r[0], True)
            if m in TRANSPARENT:
                r = self.path(t.a[1][0], d + 1)
                if m == "rev" and r is not None:
                    return r[0], True
                return r
        return None

    def drops_empty(self, f, keep):
        """a predicate that only sends away items without content"""
        b = self.P.bodies.get(f.a[0]) if f.k == "clo" else None
        if b is None:
            return False
        x = mk("opaque", "filtered")
        try:
            rs = self.E.pv.run(b, (f, x) + tuple(mk("opaque", "p") for _ in range(b.args - 2)), Facts())
        except Exception:
            return False
        for f2, v, _ in rs:
            neg = keep
            while v.k == "un" or (v.k == "call" and last(v.a[0]) == "not"):
                v = v.a[1][0] if v.k == "call" else v.a[-1]
                neg = not neg
            if v.k == "const":
                drop = not v.a[0] if keep else bool(v.a[0])
                if drop and not any(k.k == "call" and last(k.a[0]) == "is_empty" and val == 1 for k, val in f2.d.items()):
                    return False
                continue
            if neg or not (v.k == "call" and last(v.a[0]) == "is_empty" and v.a[1] and mentions(v, {x}, {})):
                return False
        return bool(rs)

    def deps(self, t):
        """parts of the element that a value is made of: list of (path, lossy, how)"""
        out, seen = [], set()

        def go(x, lossy, d):
            if (x, lossy) in seen or d > 60:
                return
            seen.add((x, lossy))
            if x.k == "phi":
                if x in self.busy:
                    return
                al = [a for a in self.E.alts.get(x, ()) if not self.blank(a)]
                self.busy.append(x)
                try:
                    back = [a for a in al if self.reaches(a, x)]
                    sets = [set(self.deps(a)) for a in back or al]
                finally:
                    self.busy.pop()
                for q, lo, rd in sets[0].intersection(*sets[1:]) if sets else ():
                    out.append((q, lo or lossy, rd))
                    # text built up over a loop stands for the collection
                    if back and "[]" in q:
                        out.append((q[:q.index("[]")], lo or lossy, rd))
                return
            r = self.path(x)
            if r is not None:
                out.append((r[0], r[1] or lossy, None))
                return
            if x.k == "mutd":
                # what is taken out may be any of what was put in before
                for i, e in enumerate(x.a[1]):
                    for y in e.a[1]:
                        go(y, lossy or any(last(z.a[0]) in LOSSY for z in x.a[1][i + 1:]), d + 1)
                go(x.a[0], lossy or any(last(z.a[0]) in LOSSY for z in x.a[1]), d + 1)
                return
            if x.k == "call":
                m = last(x.a[0])
                lo = lossy or (m in LOSSY and not (m == "filter" and len(x.a[1]) == 2 and self.drops_empty(x.a[1][1], True)))
                rd = self.reads(x.a[0])
                for a in x.a[1]:
                    if rd is not None:
                        q = self.path(a)
                        if q is not None:
                            out.append((q[0], q[1] or lo, rd))
                            continue
                    go(a, lo, d + 1)
                return
            for a in x.a:
                for y in (a if isinstance(a, (tuple, frozenset)) else (a,)):
                    if isinstance(y, Term):
                        go(y, lossy, d + 1)
        go(t, False, 0)
        return out

    def reaches(self, a, x):
        """whether a is made from x, however many joins lie between"""
        seen, todo = set(), [a]
        while todo:
            t = todo.pop()
            if t is x:
                return True
            if t in seen:
                continue
            seen.add(t)
            if t.k == "phi":
                todo += self.E.alts.get(t, ())
            for y in t.a:
                todo += [z for z in (y if isinstance(y, (tuple, frozenset)) else (y,)) if isinstance(z, Term)]
        return False

    def blank(self, a):
        if a.k == "const" and a.a[0] in ("", 0):
            return True
        return a.k == "call" and last(a.a[0]) in ("new", "default", "with_capacity") and not any(mentions(x, {self.root}, {}) for x in a.a[1])

    def discharge(self, prop, deps, scalars_only=False):
        gone = set()
        for q, lossy, rd in deps:
            for o in prop:
                p, kind, owner = o
                if kind in ("lost", "skipped") or scalars_only and kind != "scalar":
                    continue
                if rd is not None:
                    if p[:len(q)] == q and (owner in rd or p == q) and not (lossy and kind == "coll"):
                        gone.add(o)
                elif p[:len(q)] == q:
                    if not (lossy and (kind == "coll" or p == q)):
                        gone.add(o)
                elif q[:len(p)] == p and kind in ("opt", "enum", "leaf", "scalar") and not lossy:
                    gone.add(o)
        for o in gone:
            self.some.add(o[0])
        return prop - gone

    # ----------------------------------------------------------------- events
    def event(self, prop, ev, where):
        self.n += 1
        if ev[0] == "text":
            return [prop]
        ds = []
        if ev[0] == "child":
            for a in ev[2][:1]:
                ds += self.deps(a)
        else:
            ds = self.deps(ev[1])
        return [self.discharge(prop, ds)]

    def on_sink(self, prop, n, args, where):
        ds = []
        for a in args[1:]:
            ds += self.deps(a)
        return [self.discharge(prop, ds)]

    def under(self, prop, p):
        return [o for o in prop if o[0][:len(p)] == p and o[1] not in ("lost", "skipped")]

    def round_end(self, prop, src, where):
        r = self.path(src)
        if r is None:
            return prop
        left = self.under(prop, r[0] + ("[]",))
        if left:
            prop = (prop - frozenset(left)) | {(r[0], "skipped", where[0].span(where[1]))}
        return prop

    def on_next(self, prop, src, v, ty, where):
        self.nexts = getattr(self, "nexts", {})
        self.nexts[v] = (src, ty)
        return [self.round_end(prop, src, where)]

    def open(self, prop, p):
        """look into the leaves (parts with a writer of their own) that p is inside of"""
        for _ in range(6):
            inside = [o for o in prop if o[1] == "leaf" and p[:len(o[0])] == o[0] and o[0] in self.leafty]
            if not inside:
                break
            for o in inside:
                prop = (prop - {o}) | frozenset(self.expand(o[0], self.leafty[o[0]], o[2], True))
        return prop

    def some_of(self, prop, p):
        mine = [o for o in prop if o[0] == p and o[1] == "opt"]
        for o in mine:
            new = self.expand(p + ("[]",), self.optty[p], o[2])
            if new:
                prop = (prop - {o}) | frozenset(new)
        return prop

    def item_obs(self, prop, src, ty):
        r = self.path(src)
        if r is None or r[1]:
            return prop
        prop = self.open(prop, r[0])
        if not any(o[0] == r[0] and o[1] == "coll" for o in prop):
            return prop
        return prop | frozenset(self.expand(r[0] + ("[]",), ty, name(r[0]) + "[]"))

    def on_item(self, prop, src, ty, start, where):
        if start is True:
            return [self.item_obs(prop, src, ty) if ty is not None else prop]
        if start is False:
            return [self.round_end(prop, src, where)]
        return [self.done(prop, src)]

    def done(self, prop, src):
        r = self.path(src)
        if r is None and self.root is not None and mentions(src, {self.root}, {}):
            x = src
            while x.k == "call" and x.a[1]:
                if last(x.a[0]) in ("skip", "take", "step_by", "take_while", "skip_while", "nth", "map_while"):
                    prop = prop | {(("~",), "lost", "a loop over only some items (%s) of the element" % last(x.a[0]))}
                x = x.a[1][0]
        if r is not None and not r[1]:
            prop = self.open(prop, r[0])
            skip = frozenset(o for o in prop if o[0] == r[0] and o[1] == "skipped")
            if skip:
                return prop - skip
            gone = frozenset(o for o in prop if o[0] == r[0])
            for o in gone:
                self.some.add(o[0])
            return prop - gone
        # items of something computed from the element
        return self.discharge(prop, [d for d in self.deps(src) if r is None])

    def on_branch(self, prop, t, val, where):
        nx = getattr(self, "nexts", {})
        if t in nx:
            src, ty = nx[t]
            if val == frozenset(["Some"]):
                return [self.item_obs(prop, src, ty)]
            if val == frozenset(["None"]):
                return [self.done(prop, src)]
            return [prop]
        r = self.path(t)
        if r is not None:
            p = r[0]
            if isinstance(val, frozenset) and len(val) == 1:
                v = next(iter(val))
                if v == "None":
                    return [prop - frozenset(self.under(prop, p))]
                if v == "Some":
                    return [self.some_of(prop, p)]
                if p in self.elem:
                    return [self.variant(p, prop, v)]
            return [prop - frozenset(o for o in prop if o[0] == p and o[1] == "scalar")]
        if t.k == "call" and last(t.a[0]) in ("is_empty", "is_blank") and t.a[1] and val == 1:
            q = self.path(t.a[1][0])
            if q is not None and last(t.a[0]) == "is_empty":
                return [prop - frozenset(self.under(prop, q[0]))]
        if t.k == "call" and val == frozenset(["None"]):
            gone = set()
            if optlossy(t, ("filter", "take_if")) and mentions(t, {self.root}, {}) and self.path(t) is None:
                prop = prop | {(("~",), "lost", "what a filter sends away")}
            for q, lossy, rd in self.deps(t):
                for o in () if optlossy(t) else prop:
                    if o[1] == "lost":
                        continue
                    if o[0][:len(q)] == q and (rd is None or o[2] in rd or o[0] == q) or \
                            (q[:len(o[0])] == o[0] and o[1] in ("enum", "opt")):
                        gone.add(o)
            return [prop - frozenset(gone)]
        return [self.discharge(prop, self.deps(t), scalars_only=True)]


def optlossy(t, names=("filter", "and_then", "and", "xor", "zip", "take_if", "then", "then_some", "find", "nth", "checked_sub")):
    """the option is empty for another reason than the absence of the component"""
    while t.k == "call" and t.a[1]:
        if last(t.a[0]) in names:
            return True
        t = t.a[1][0]
    return False


def name(p):
    return ".".join(p).replace(".[]", "[]").replace(".@", "::") or "self"


class Reads:
    """components each function reads, transitively: {'Adt.field', 'Adt::Variant.field'}"""

    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.kids = {}
        for b in P.bodies.values():
            if b.kind == "closure":
                self.kids.setdefault(b.path.split("::{closure")[0], []).append(b)

    def __call__(self, n):
        b = self.P.bodies.get(n)
        if b is None:
            return None
        seen, out, todo = set(), set(), [b]
        if n in self.memo:
            return self.memo[n]
        while todo:
            x = todo.pop()
            if x.path in seen:
                continue
            seen.add(x.path)
            todo += self.kids.get(x.path, [])
            self.body(x, out, todo)
        out = self.memo[n] = frozenset(out)
        return out

    def body(self, b, out, todo):
        P = self.P

        def place(p):
            var = None
            for e in p[1]:
                if e[0] == "d":
                    var = e[1]
                elif e[0] == "f":
                    a = e[3] if len(e) > 3 else None
                    if isinstance(a, str):
                        n = a.rsplit("::", 1)[-1]
                        out.add("%s::%s.%s" % (n, var, e[1]) if var and P.adts.get(a, {}).get("kind") == "enum" else "%s.%s" % (n, e[1]))
                    var = None

        def op(o):
            if o[0] in ("cp", "mv"):
                place(o[1])
        for bi in b.live_blocks():
            for s in b.blocks[bi]["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] in ("use", "repeat", "cast"):
                    op(r[1])
                elif r[0] in ("ref", "discr"):
                    place(r[1])
                elif r[0] == "bin":
                    op(r[2]), op(r[3])
                elif r[0] == "un":
                    op(r[2])
                elif r[0] == "agg":
                    for o in r[2]:
                        op(o)
            t = b.blocks[bi]["t"]
            if t[0] == "call":
                for o in t[2]:
                    op(o)
                c = P.callee(t[1])
                if c is not None:
                    todo.extend(P.targets(c))


def run(P, R, tier):
    R.rule("html", "every component with a place in HTML is written on every successful path", 22)
    R.rule("wiki", "every component is written as vimwiki on every successful path", 21)
    reads = Reads(P)
    states = events = 0
    for fmt, formatter in (("html", HTML), ("wiki", WIKI)):
        touches = Touches(P, formatter)
        for b in sorted(writers(P, formatter), key=lambda b: b.path):
            msgs = []

            def report(where, msg):
                body, sp, bi = where
                m = "%s: %s" % (body.span(sp), msg)
                if m not in msgs:
                    msgs.append(m)
            A = Cover(P, fmt, formatter, b, report, reads)
            E = Esp(P, A, is_output, touches)
            A.E = E
            n = (P.adt_of(b.self_ty) or "?").rsplit("::", 1)[-1]
            outs = []
            for start, fa in A.starts():
                E.alts, E.phis = {}, {}
                outs += E.analyse(b, start, 2, fa)
            for prop, facts, v in outs:
                if E.is_err(v, facts):
                    continue
                if "Comment" in n and fmt == "html" and any("include" in show(k) and "config" in show(k) and v2 == 0 for k, v2 in facts.d.items()):
                    continue        # the configuration leaves comments out
                for p, kind, owner in sorted(prop):
                    if kind == "skipped":
                        continue
                    if (fmt, n) in SOME and any(q[:len(p)] == p for q in A.some):
                        continue
                    if kind == "enum" and p == ():
                        continue     # a variant without components
                    report((b, None, 0), "%s may go unwritten (%s)" % (owner, name(p)))
            if (fmt, n) in SOME:
                msgs = [m for m in msgs if "an item" not in m]
            states += E.nstates
            events += A.n
            key = short(b.path)
            if msgs:
                R.fail(fmt, key, "; ".join(msgs[:5]))
            else:
                R.ok(fmt, "%s: %s" % (key, ", ".join(sorted(set(A.all.values()) - {"self"})) or "nothing to write"))
    R.stats["states"] = states
    R.stats["write_events"] = events
    R.stats["no_place"] = {"%s %s" % k: v for k, v in NOPLACE.items()}
