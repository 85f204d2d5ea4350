"""A link leads to where it says."""
from prog import *
from terms import *
from pathval import Facts, item, fld, var
from checks.p12 import Writes, stream
from checks import p18
from flow import last

EXPLANATION = (
    "The paths of the functions that resolve a link (helpers entered, everything else as terms over the link, the page and the "
    "configuration) are enumerated. For each kind of link, and each combination of local, anchor only, directory and absolute, the "
    "URI that a successful path returns must be the one the kind calls for: the relative reference from the output path of the page to "
    "the output path of the target in the wiki the link names, with the anchor as fragment, or the URI of the link itself; a path fails only where "
    "the wiki is missing or the reference cannot be made. The predicates and conversions this rests on (is_local, anchor only, directory, "
    "to_path_buf, to_anchor, the making of output paths and relative references) are checked the same way, and so is that the writer of links "
    "writes that very URI.")
ASSUMPTIONS = [
    "uriparse and relative-path do what they document",
    "an anchor that is no valid fragment is left out (as it is written)",
]

SAME = {"into_owned", "clone", "to_owned", "as_path", "deref", "as_ref", "as_str", "from", "into", "to_string", "borrow", "as_deref",
        "cloned", "copied", "map_err", "ok_or", "ok_or_else", "ok", "expect", "unwrap", "into_boxed_str", "as_os_str", "to_string_lossy",
        "iter", "into_iter", "from_path", "as_relative_path", "must_use", "normalize", "into_string", "as_mut"}
DATA = ("to_path_buf", "to_anchor", "is_local", "is_remote", "is_local_anchor", "is_path_dir", "has_anchor", "fragment_str")


# the schemes of uriparse 0.6 that count, by the place they have among its variants
SCHEMES = {65: "File", 304: "Unregistered"}


class Norm:
    """Terms without what only changes the way a value is held"""

    def __init__(self, P, E, facts):
        self.P, self.E, self.f = P, E, facts

    def __call__(self, t, d=0):
        if d > 60:
            return ("deep",)
        g = lambda x: self(x, d + 1)
        k = t.k
        if k == "const":
            return ("c", t.a[0])
        if k == "arg":
            return ("$", t.a[-1])
        if k == "item":
            return ("item", g(t.a[0])) if last2(t.a[0]) in ("iter", "into_iter", "segments", "split") else g(t.a[0])
        if k == "var":
            return g(t.a[0]) if t.a[1] in ("Some", "Ok", "Borrowed", "Owned", "Continue", "Err") else ("var", g(t.a[0]), t.a[1])
        if k == "fld":
            if t.a[0].k == "var" and t.a[0].a[1] in ("Some", "Ok", "Borrowed", "Owned", "Continue", "Err") or t.a[1] == "inner":
                return g(t.a[0])
            return ("f", g(t.a[0]), t.a[1])
        if k in ("cast", "sub", "residual"):
            return g(t.a[0])
        if k == "agg":
            if len(t.a[3]) == 1 and t.a[1] in ("Some", "Ok", "Borrowed", "Owned", "Continue", "Err", "Break"):
                return g(t.a[3][0])
            return ("agg", t.a[1]) + tuple(g(x) for x in t.a[3])
        if k == "mutd":
            x = g(t.a[0])
            for e in t.a[1]:
                n = last(e.a[0])
                if n == "push" and x[0] != "pushed" and e.a[1][0].k == "self":
                    x = ("join", x, g(e.a[1][1]))
                elif n in ("map_fragment", "set_fragment"):
                    x = ("frag", x, self.apply(e.a[1][1], mk("opaque", "old"), d) if n == "map_fragment" else g(e.a[1][1]))
                elif n in ("next", "deref_mut", "as_mut"):
                    pass
                else:
                    x = ("mut", n, x) + tuple(g(a) for a in e.a[1][1:])
            return x
        if k == "call":
            n, a = last(t.a[0]), t.a[1]
            if n in ("map", "and_then", "unwrap_or_else", "map_or", "map_or_else", "or_else", "then") and len(a) >= 2:
                x = g(a[0])
                if n == "then":
                    return ("then", x, self.apply(a[1], None, d))
                if n in ("map", "and_then"):
                    return self.apply(a[1], a[0], d)
                if n in ("unwrap_or_else", "or_else"):
                    y = self.apply(a[1], mk("opaque", "err"), d)
                    return x if y == x else ("or", x, y)
                dflt = g(a[1]) if n == "map_or" else self.apply(a[1], None, d)
                return ("or", self.apply(a[2], a[0], d), dflt) if dflt[0] != "c" else ("mapor", x, self.apply(a[2], a[0], d), dflt)
            if n == "unwrap_or_default":
                return g(a[0])
            if n == "unwrap_or":
                x, y = g(a[0]), g(a[1])
                return x if x == y or y in (("c", ""), ("new", ("c", "")), ("new",)) and x[0] == "parent" else ("or", x, y)
            if n == "is_some_and":
                return ("mapor", g(a[0]), self.apply(a[1], a[0], d), ("c", 0))
            if n == "to_path_buf" and "LinkData" not in t.a[0]:
                return g(a[0])
            if n == "try_from" and "RelativeReference" in t.a[0]:
                return ("reference", g(a[0]))
            if n == "try_from" and len(a) == 1:
                return ("try_from", g(a[0]))
            if n in SAME and a:
                return g(a[0])
            if n == "format" and len(a) == 1 and "fmt" in t.a[0]:
                from fmtargs import pieces
                ps = pieces(a[0])
                if ps and len(ps) == 1 and not isinstance(ps[0], str):
                    return g(ps[0][0])
            return (n,) + tuple(g(x) for x in a)
        if k == "clo":
            return ("clo",)
        if k == "fn":
            return ("fn", last(t.a[0]))
        if k == "opaque":
            return ("?",) + tuple(str(x) for x in t.a)
        return (k,) + tuple(g(x) if isinstance(x, Term) else ("c", str(x)) for x in t.a if not isinstance(x, (tuple, frozenset)))

    def apply(self, fn, x, d):
        """what a function gives of the content of x, where it gives one thing"""
        y = item(x) if x is not None and x.k != "opaque" else x
        try:
            b = self.P.bodies.get(fn.a[0]) if fn.k == "clo" else None
            rs = self.E.apply(fn, [y] if y is not None and (b is None or b.args > 1) else [], self.f, ())
        except Exception:
            rs = []
        vs = {self(v, d + 1) for _, v in rs}
        return vs.pop() if len(vs) == 1 else ("one of",) + tuple(sorted(map(str, vs)))


def last2(t):
    while t.k in ("mutd", "cast"):
        t = t.a[0]
    return last(t.a[0]) if t.k == "call" else ""


class Links:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.memo = {}

    def stop(self, b):
        n = b.path
        return n.split("::")[-1] in ("make_output_path", "find_wiki_by_index", "find_wiki_by_name", "resolve_link", "make_relative_link",
                                     "make_path_relative", "is_directory_uri", "find_active_wiki", "to_current_wiki",
                                     "as_active_page_path_within_wiki", "to_tmp_wiki", "path_within", "to_description_or_fallback") \
            or "LinkData" in n and n.split("::")[-1] in DATA or "TryFrom<" in n and "Anchor" in n or "Output<" in n and n.endswith("::fmt")

    def body(self, suffix):
        bs = [b for k, b in self.P.bodies.items() if k.endswith(suffix)]
        return bs[0] if len(bs) == 1 else None

    def paths(self, suffix, rule, args=None):
        """[(facts over normal forms, result, facts)] of a function"""
        b = self.body(suffix)
        if b is None:
            self.R.fail(rule, suffix.split("::")[-1], "there is no one function %s" % suffix)
            return []
        E = Writes(self.P, lambda x: self.stop(x) and x is not b)
        out = []
        for f, v, env in E.run(b, args or tuple(mk("arg", b.path, i + 1) for i in range(b.args))):
            N = Norm(self.P, E, f)
            out.append(({(N(k), isinstance(x, int)): x for k, x in f.d.items()}, N(v), f, v, N, env))
        self.R.stats["paths"] = self.R.stats.get("paths", 0) + len(out)
        return out


# ------------------------------------------------------------------ facts
def bit(fs, t):
    return fs.get((t, True))


def absent(fs, t):
    """1 where an optional value is known to be missing, 0 where it is known to be there, None otherwise"""
    for n, v in (("is_none", 1), ("is_some", 0)):
        b = bit(fs, (n, t))
        if b is not None:
            return v if b else 1 - v
    k = fs.get((t, False))
    if isinstance(k, frozenset) and len(k) == 1:
        x = next(iter(k))
        return 1 if x in ("None", "Err") else 0
    return None


def run(P, R, tier):
    R.rule("target", "a link is resolved to what its kind calls for", 20)
    R.rule("error", "resolving a link fails only where a wiki is missing or the reference cannot be made", 3)
    R.rule("relative", "a relative reference leads from the page to the target", 1)
    R.rule("predicate", "what decides on a link says what it is named after", 6)
    R.rule("anchor", "the anchor of a link becomes its fragment", 2)
    R.rule("written", "the resolved URI is what is written", 3)
    R.rule("lookup", "a wiki is found by its index, its name or the longest path that leads to the page", 6)
    R.rule("within", "an output path is path_html joined with the page's path within the wiki", 1)
    L = Links(P, R)
    target(L, R)
    relative(L, R)
    predicates(L, R)
    anchors(L, R)
    active(L, R)
    written(L, R)
    p18.core(P, R)


CFG, WIKI, SRC, LINK = (("$", i) for i in (1, 2, 3, 4))


def target(L, R):
    out = ("make_output_path", WIKI, SRC, ("c", "html"))
    for fs, v, f, raw, N, env in L.paths("output::html::utils::resolve_link", "target"):
        kind = fs.get((LINK, False))
        if not (isinstance(kind, frozenset) and len(kind) == 1):
            R.fail("target", "resolve_link|kind", "resolve_link gives %s whatever the kind of the link" % show(v))
            continue
        kind = next(iter(kind))
        D = ("f", ("var", LINK, kind), "data")
        uri = ("f", D, "uri_ref")
        local = bit(fs, ("is_local", D))
        if local is None and bit(fs, ("is_remote", D)) is not None:
            local = 1 - bit(fs, ("is_remote", D))
        anchor = bit(fs, ("is_local_anchor", D))
        isdir = bit(fs, ("is_directory_uri", uri))
        if isdir is None:
            isdir = bit(fs, ("is_path_dir", D))
        absol = bit(fs, ("is_absolute", ("path", uri)))
        path = ("to_path_buf", D)
        html = ("c", "html")
        wiki = {"IndexedInterWiki": ("find_wiki_by_index", CFG, ("f", ("var", LINK, kind), "index")),
                "NamedInterWiki": ("find_wiki_by_name", CFG, ("f", ("var", LINK, kind), "name"))}.get(kind)
        page = ("join", path, ("c", "index")) if isdir else path
        beside = {("join", ("parent", SRC), page)}
        if absent(fs, ("parent", SRC)) == 1:
            beside = {page, ("join", ("c", ""), page), ("join", ("new",), page), ("join", ("new", ("c", "")), page)}
        want, frag, known = set(), False, True
        if kind == "Raw" or kind == "Wiki" and (local == 0 or anchor == 1) or kind == "Transclusion" and local == 0:
            want = {uri}
        elif kind == "Wiki":
            frag = True
            known = local == 1 and anchor == 0 and isdir is not None
            # (what an absolute path is joined to gives way to it)
            want = {("make_output_path", WIKI, p, html) for p in ({page} | beside if absol else beside)}
        elif wiki:
            frag = True
            known = isdir is not None
            want = {("make_output_path", wiki, page, html)}
        elif kind == "Diary":
            frag = True
            date = ("format", ("f", ("var", LINK, kind), "date"), ("c", "%Y-%m-%d"))
            root, rel = ("f", WIKI, "path"), ("f", WIKI, "diary_rel_path")
            want = {("make_output_path", WIKI, p, html) for p in (("join", ("join", root, rel), date), ("join", root, ("join", rel, date)))}
        elif kind == "Transclusion":
            known = local == 1
            ext = ("extension", path)
            want = {("make_output_path", WIKI, p, e) for p in ({path} if absol else set()) | {x[:2] + (path,) if x[0] == "join" else path for x in beside}
                    for e in (("or", ("to_str", ext), ("c", "")), ("to_str", ext), ("c", "") if absent(fs, ext) == 1 or absent(fs, ("to_str", ext)) == 1 else ("to_str", ext))}
        else:
            R.fail("target", "resolve_link|" + kind, "there is no rule for links of the kind %s" % kind)
            continue
        case = "%s local=%s anchor-only=%s directory=%s absolute=%s" % (kind, local, anchor, isdir, absol)
        key = "resolve_link|%s" % case
        refs = {("make_relative_link", out, w) for w in want} if want != {uri} else want
        if raw.k == "agg" and raw.a[1] == "Err" or raw.k != "agg":
            # `v` stands for what failed
            failed = {w for w in refs if w[0] == "make_relative_link"} | ({wiki} if wiki else set())
            err = v in failed or any(absent(fs, w) == 1 for w in failed)
            if raw.k == "agg" or v not in refs:
                R.check("error", err, key, "resolve_link fails for a link (%s) with %s" % (case, show(v)), case)
                continue
        x, fragment = v, None
        while x[0] == "frag":
            x, fragment = x[1], x[2] if fragment is None else fragment
        R.check("target", known and x in refs, key, "resolve_link leads a link (%s) to %s%s" % (
            case, show(x), "" if not known else ", not " + " or ".join(sorted(map(show, refs)))), case)
        to = ("to_anchor", D)
        if frag:
            no = absent(fs, to) == 1 or bit(fs, ("has_anchor", D)) == 0
            good = fragment in (("try_from", to),) or fragment is None and no
            R.check("target", good, key + "|fragment", "resolve_link gives a link (%s) %s as its fragment" % (case, show(fragment) if fragment else "nothing"), case + " fragment")
        else:
            R.check("target", fragment is None or fragment == ("try_from", to) and want != {uri}, key + "|fragment",
                    "resolve_link changes the fragment of a link (%s) to %s" % (case, show(fragment) if fragment else ""), case + " fragment")


def relative(L, R):
    a, b = ("make_path_relative", ("$", 1)), ("make_path_relative", ("$", 2))
    rel = ("relative", a, b)
    up = ("strip_prefix", rel, ("c", ".."))
    for fs, v, f, raw, N, env in L.paths("html::utils::make_relative_link", "relative"):
        ok = v == ("reference", ("or", up, rel)) or absent(fs, up) == 0 and v == ("reference", up) or absent(fs, up) == 1 and v == ("reference", rel)
        R.check("relative", ok, "make_relative_link", "make_relative_link makes the reference %s" % show(v), "make_relative_link")
    b = L.body("html::utils::make_path_relative")
    if b is None:
        R.fail("relative", "make_path_relative", "there is no make_path_relative")
        return
    kept = {}
    names = ("Prefix", "RootDir", "CurDir", "ParentDir", "Normal")
    bodies = [c for k, c in L.P.bodies.items() if k.startswith(b.path + "::{closure")] or [b]
    # a path has its root first, if at all: to skip what comes first is to leave it out
    invert = any("skip_while" in repr(v) for f, v, _ in Writes(L.P, lambda x: x is not b).run(b, (mk("opaque", "p0"),))) if b not in bodies else False
    for c in bodies:
        E = Writes(L.P, L.stop)
        for f, v, _ in E.run(c, tuple(mk("opaque", "p%d" % i) for i in range(c.args))):
            if c is b:
                # a loop of its own: what one round adds
                rounds = sum(1 for k, y in f.d.items() if k.k == "call" and last(k.a[0]) == "next" and y == frozenset(["Some"]))
                if rounds != 1:
                    continue
                x = "push" in repr(v)
            else:
                neg = invert
                while v.k == "un" and v.a[0] == "Not":
                    v, neg = v.a[1], not neg
                x = bool(v.a[0]) != neg if v.k == "const" else 1 if v.k == "agg" and v.a[1] == "Some" else 0 if v.k == "agg" and v.a[1] == "None" else None
            for t, y in f.d.items():
                if t.k == "discr" and not isinstance(y, frozenset) and y in range(5):
                    kept.setdefault(names[int(y)], set()).add(x)
                elif t.k == "discr" and isinstance(y, frozenset) and all(z in range(5) for z in y):
                    for n in set(range(5)) - set(y):
                        kept.setdefault(names[n], set()).add(x)
                elif isinstance(y, frozenset) and y & set(names):
                    for n in y:
                        kept.setdefault(n, set()).add(x)
    ok = bool(kept) and all(n in kept and all(kept[n]) for n in names[2:]) and all(not any(kept.get(n, ())) for n in names[:2])
    R.check("relative", ok, "make_path_relative", "make_path_relative keeps %s" % (sorted(n for n, x in kept.items() if any(x)) or "what was not understood"), "make_path_relative")


def truth(L, R, suffix, atoms, formula, rule="predicate"):
    """each path of a predicate answers what the formula says of the facts it has found out"""
    name = suffix.rsplit("::", 1)[-1]
    bad = None
    n = 0
    for fs, v, f, raw, N, env in L.paths(suffix, rule):
        if v[0] == "mapor":
            # one answer where there is nothing, another where there is
            cases = [({v[1]: 1}, v[3]), ({v[1]: 0}, v[2])]
        else:
            cases = [({}, v)]
        for more, r in cases:
            n += 1
            fs2 = dict(fs)
            for t, x in more.items():
                fs2[(t, False)] = frozenset(["None" if x else "Some"])
            val = {a: g(fs2) for a, g in atoms.items()}
            neg = False
            while r[0] in ("not", "un"):
                r, neg = r[-1], not neg
            if r[0] == "c" and r[1] in (0, 1, True, False):
                res = int(bool(r[1]))
                ok = possible(formula, val, atoms) == {bool(res) != neg}
            else:
                ok = True
                for x in (0, 1):
                    fs3 = dict(fs2)
                    fs3[(r, True)] = x
                    val = {a: g(fs3) for a, g in atoms.items()}
                    ok = ok and possible(formula, val, atoms) == {bool(x) != neg}
            if not ok:
                bad = bad or "%s where %s" % (show(r), ", ".join("%s=%s" % (a, x) for a, x in val.items() if x is not None) or "nothing is known")
    R.check(rule, n and bad is None, name, "%s answers %s" % (name, bad), name)


def possible(formula, val, atoms):
    free = [a for a in atoms if val[a] is None]
    out = set()
    for i in range(1 << len(free)):
        w = dict(val)
        for j, a in enumerate(free):
            w[a] = i >> j & 1
        out.add(bool(formula(w)))
    return out


def predicates(L, R):
    S = ("$", 1)
    uri = ("f", S, "uri_ref")
    segs = ("segments", ("path", uri))
    LD = "::LinkData::<'a>::"
    truth(L, R, LD + "is_local_anchor", {
        "scheme": lambda fs: absent(fs, ("scheme", uri)), "authority": lambda fs: absent(fs, ("authority", uri)), "query": lambda fs: absent(fs, ("query", uri)),
        "empty": lambda fs: bit(fs, ("is_empty", segs)), "blank": lambda fs: bit(fs, ("all", segs, ("clo",))),
        "anchor": lambda fs: first(bit(fs, ("has_anchor", S)), bit(fs, ("has_fragment", uri)), inv(absent(fs, ("fragment", uri)))),
    }, lambda w: w["scheme"] and w["authority"] and w["query"] and (w["empty"] or w["blank"]) and w["anchor"])
    for c in closures(L, LD + "is_local_anchor"):
        E = Writes(L.P, L.stop)
        for f, v, _ in E.run(c, tuple(mk("opaque", "p%d" % i) for i in range(c.args))):
            w = Norm(L.P, E, f)(v)
            R.check("predicate", w[0] == "is_empty" and w[1][:2] == ("?", "p1"), "is_local_anchor|segments", "is_local_anchor looks for segments with %s" % show(w), "segments of is_local_anchor")
    for suffix, u in ((LD + "is_path_dir", uri), ("html::utils::is_directory_uri", S)):
        lasts = [(n, ("segments", ("path", u))) for n in ("last", "next_back")]
        truth(L, R, suffix, {
            "none": lambda fs: first(*[absent(fs, x) for x in lasts]),
            "blank": lambda fs: first(*[bit(fs, ("is_empty", x)) for x in lasts]),
        }, lambda w: not w["none"] and w["blank"])
    truth(L, R, LD + "is_remote", {"local": lambda fs: bit(fs, ("is_local", S))}, lambda w: not w["local"])
    truth(L, R, LD + "has_anchor", {"f": lambda fs: first(bit(fs, ("has_fragment", uri)), inv(absent(fs, ("fragment", uri))), inv(absent(fs, ("fragment_str", S))))}, lambda w: w["f"])
    sch = ("scheme", uri)

    def kind(fs, *names):
        k = fs.get((sch, False))
        if not isinstance(k, frozenset) or k & {"None", "Some"}:
            k = next((x for (t, b), x in fs.items() if not b and isinstance(x, frozenset) and t == sch and not x & {"None", "Some"}), None)
        return k
    local_rule(L, R, LD + "is_local", sch)
    # the path of a link: all of its segments, from the root if it is absolute
    n = 0
    for fs, v, f, raw, N, env in L.paths(LD + "to_path_buf", "predicate"):
        n += 1
        ab = bit(fs, ("is_absolute", ("path", uri)))
        x, rooted = v, 0
        if v[0] == "join" and v[1] in (("new", ("agg", "RootDir")), ("agg", "RootDir"), ("new", ("c", "/")), ("c", "/")):
            x, rooted = v[2], 1
        pushed = 0
        while x[0] == "join":
            pushed += x[2] == ("item", segs)
            if x[2] != ("item", segs):
                break
            x = x[1]
        rounds = sum(1 for k, y in f.d.items() if k.k == "call" and last(k.a[0]) == "next" and y == frozenset(["Some"]))
        ok = ab == rooted and (x in (("new",), ("default",)) and pushed == rounds or x[0] == "collect" and x[1] in (segs, ("item", segs)))
        R.check("predicate", ok, "to_path_buf", "the path of a link (absolute=%s) is %s" % (ab, show(v)), "to_path_buf absolute=%s rounds=%d" % (ab, rounds))


def local_rule(L, R, suffix, sch):
    n = 0
    for fs, v, f, raw, N, env in L.paths(suffix, "predicate"):
        rs = []
        if raw.k == "call" and last(raw.a[0]) in ("map_or", "is_none_or") and len(raw.a[1]) >= 2:
            c = raw.a[1][-1]
            if last(raw.a[0]) == "map_or":
                R.check("predicate", N(raw.a[1][1]) in (("c", 1), ("c", True)), "is_local|none", "a link without a scheme is %s" % show(N(raw.a[1][1])), "is_local without scheme")
            try:
                rs = [({(N(k), isinstance(x, int)): x for k, x in f2.d.items()}, N(v2), f2) for f2, v2 in N.E.apply(c, [item(raw.a[1][0])], f, ())]
            except Exception:
                rs = []
        else:
            rs = [(fs, v, f)]
        for fs2, r, f2 in rs:
            n += 1
            kinds = []
            for k, x in f2.d.items():
                if isinstance(x, frozenset) and all(isinstance(y, str) for y in x):
                    kinds.append(x)
                elif k.k == "discr":
                    kinds.append(frozenset([SCHEMES.get(x, "other")]) if isinstance(x, int) else frozenset(["other"] + [n for i, n in SCHEMES.items() if i not in x]))
            names = frozenset().union(*kinds) if kinds else frozenset()
            eq = [x for k, x in f2.d.items() if isinstance(x, int) and k.k == "call" and last(k.a[0]) == "eq" and any(y == ("c", "local") for y in map(N, k.a[1]))]
            none = "None" in names and "Some" not in names
            if r[0] == "c":
                res = bool(r[1])
                if res:
                    ok = none or frozenset(["File"]) in kinds or eq == [1] and frozenset(["Unregistered"]) in kinds
                else:
                    sure = frozenset.intersection(*[k for k in kinds if not k & {"None", "Some"}] or [frozenset(["File"])])
                    ok = not none and "File" not in sure and (eq == [0] or "Unregistered" not in sure)
                R.check("predicate", ok, "is_local", "is_local answers %s where %s" % (res, "; ".join("%s is %s" % (show(N(k)), sorted(x) if isinstance(x, frozenset) else x) for k, x in f2.d.items())), "is_local %s" % sorted(map(sorted, kinds)))
            else:
                R.check("predicate", r[0] == "eq" and ("c", "local") in r and any(k == frozenset(["Unregistered"]) for k in kinds), "is_local", "is_local answers %s" % show(r), "is_local eq")
    R.check("predicate", n > 0, "is_local|any", "is_local was not understood", "is_local paths")


def closures(L, suffix):
    b = L.body(suffix)
    return [c for k, c in L.P.bodies.items() if b is not None and k.startswith(b.path + "::{closure")]


def first(*xs):
    return next((x for x in xs if x is not None), None)


def inv(x):
    return None if x is None else 1 - x


def anchors(L, R):
    S = ("$", 1)
    uri = ("f", S, "uri_ref")
    for fs, v, f, raw, N, env in L.paths("::LinkData::<'a>::to_anchor", "anchor"):
        ok = False
        for frag in (("fragment_str", S), ("fragment", uri)):
            ok = ok or v in (("collect", ("split", frag, ("c", "%23"))), ("from_iter", ("split", frag, ("c", "%23"))), ("collect", ("item", ("split", frag, ("c", "%23"))))) \
                or absent(fs, frag) == 1
        R.check("anchor", ok, "to_anchor", "the anchor of a link is %s" % show(v), "to_anchor")
    for fs, v, f, raw, N, env in L.paths("::LinkData::<'a>::fragment_str", "anchor"):
        R.check("anchor", v == ("fragment", uri) or absent(fs, ("fragment", uri)) == 1, "fragment_str", "the fragment of a link is %s" % show(v), "fragment_str")
    bs = [b for k, b in L.P.bodies.items() if "TryFrom<" in k and "Anchor" in k and k.endswith("::try_from") and "Fragment" in k]
    R.check("anchor", len(bs) == 1, "fragment", "there is no one conversion of an anchor into a fragment", "conversion")
    for b in bs:
        for fs, v, f, raw, N, env in L.paths(b.path, "anchor"):
            ok = v in (("try_from", ("join", ("f", S, "0"), ("c", "-"))), ("try_from", ("join", S, ("c", "-"))))
            R.check("anchor", ok, "Fragment::try_from", "an anchor becomes the fragment %s" % show(v), "Fragment::try_from")


def active(L, R):
    S = ("$", 1)
    rt = ("f", S, "runtime")
    H = "::HtmlConfig::"
    for fs, v, f, raw, N, env in L.paths(H + "to_current_wiki", "written"):
        act = ("find_active_wiki", S)
        ok = v in (("or", act, ("to_tmp_wiki", rt)),) or absent(fs, act) == 0 and v == act or absent(fs, act) == 1 and v == ("to_tmp_wiki", rt)
        R.check("written", ok, "to_current_wiki", "the current wiki is %s" % show(v), "to_current_wiki")
    for fs, v, f, raw, N, env in L.paths(H + "find_active_wiki", "written"):
        i = ("f", rt, "wiki_index")
        ok = v == ("find_wiki_by_index", S, i) or absent(fs, i) == 1
        R.check("written", ok, "find_active_wiki", "the active wiki is %s" % show(v), "find_active_wiki")
    for fs, v, f, raw, N, env in L.paths(H + "as_active_page_path_within_wiki", "written"):
        ok = v == ("path_within", ("to_current_wiki", S), ("f", rt, "page"))
        R.check("written", ok, "as_active_page_path_within_wiki", "the page's path within its wiki is %s" % show(v), "as_active_page_path_within_wiki")
    for fs, v, f, raw, N, env in L.paths("::HtmlWikiConfig::path_within", "written"):
        R.check("written", v == ("strip_prefix", ("$", 2), ("f", S, "path")), "path_within", "a path within a wiki is %s" % show(v), "path_within")


def written(L, R):
    cfg = ("f", ("$", 2), "config")
    want = ("resolve_link", cfg, ("to_current_wiki", cfg), ("as_active_page_path_within_wiki", cfg), ("$", 1))
    bs = [b for k, b in L.P.bodies.items() if "Output<" in k and "HtmlFormatter>" in k and " for " in k and "Link<'a>>::fmt" in k and k.endswith("::fmt")]
    R.check("written", len(bs) == 1, "Link", "there is no one writer of links", "writer")
    for b in bs:
        seen = {}
        for fs, v, f, raw, N, env in L.paths(b.path, "written"):
            if raw.k == "agg" and raw.a[1] == "Err" or 2 not in env:
                continue
            text = ""
            kind = fs.get((("$", 1), False))
            kind = kind if isinstance(kind, frozenset) else frozenset(["any"])
            for p in stream(L.P, env[2]):
                if isinstance(p, str):
                    text += p
                    continue
                for at, img in (('<a href="', False), ('<img src="', True)):
                    if text.endswith(at) and isinstance(p, Term):
                        x = N(p)
                        good = kind == {"Transclusion"} if img else "Transclusion" not in kind and "any" not in kind
                        k = (at, x == want, good)
                        if k not in seen:
                            seen[k] = 1
                            R.check("written", x == want, "Link|" + at, "the writer of links writes %s to %s" % (at, show(x)), "Link " + at)
                            R.check("written", good, "Link|kind|" + at, "the writer of links writes %s for %s" % (at, ", ".join(sorted(kind))), "kinds of " + at)
                text = ""
        for at in ('<a href="', '<img src="'):
            R.check("written", any(k[0] == at for k in seen), "Link|none|" + at, "the writer of links writes no %s" % at, "some " + at)


def show(t):
    if not isinstance(t, tuple):
        return str(t)
    if t[0] == "c":
        return repr(t[1])
    if t[0] == "$":
        return "$%s" % t[1]
    if t[0] == "f":
        return "%s.%s" % (show(t[1]), t[2])
    if t[0] == "var":
        return show(t[1])
    return "%s(%s)" % (t[0], ", ".join(show(x) for x in t[1:]))
