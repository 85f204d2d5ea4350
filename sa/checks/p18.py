"""A page is converted as itself, in the wiki it lies in, to its own output."""
from checks.cli import *
from checks.p17 import page as page_of

EXPLANATION = (
    "An abstract interpretation of the command line from run on (sa/effects.py), in which a configuration carries the page and wiki its runtime was given, and of the lookups of "
    "vimwiki-core. Obligations: every page converted to HTML is the one found (by equality of its path) or loaded at a path X, under a configuration whose active page is X and whose active "
    "wiki is the one found for X; it is written to make_output_path of that wiki for X; lookups by index, name and path give the wiki of that index, of that name, and the "
    "innermost of those whose path X starts with; the output path is path_html joined with X's path within the wiki.")
ASSUMPTIONS = ["paths are compared by the component-wise operations of std::path"]

WIKIS = ("f", "HtmlConfig", "wikis", ("the", "HtmlConfig"))
SET = ("f", "HtmlRuntimeConfig", "wiki_index", ("f", "HtmlConfig", "runtime", ("the", "HtmlConfig")))


def run(P, R, tier):
    R.rule("active", "a page is converted under a configuration whose page is its path and whose wiki is found by its path", 2)
    R.rule("same", "what is written is the page of the very path the output path is made of", 1)
    R.rule("output", "the output path is made by the wiki the page lies in", 1)
    R.rule("lookup", "a wiki is found by its index, its name or the longest path that leads to the page", 6)
    R.rule("within", "an output path is path_html joined with the page's path within the wiki", 1)
    C = Cli(P)
    R.stats["functions"] = C.functions()
    R.stats["operations"] = len(C.events)
    for e in C.calls(r"::to_html_page$|::to_html_string$"):
        if e.callee is not None or len(e.args) < 2:
            continue
        xs = {source(C, t) for t in e.args[0]}
        x = xs.pop() if len(xs) == 1 else None
        if x is None:
            R.fail("same", where(e) + "|page", "%s converts %s, which is not the page of one path" % (where(e), show(e.args[0])[:200]))
            continue
        for t in e.args[1]:
            ok = t[0] == "the" and len(t) == 4 and t[2] == one(x) and all(found_index(y, x) for y in t[3]) and bool(t[3])
            R.check("active", ok, where(e) + "|config", "%s converts the page of %s under %s" % (where(e), show(x), show(t)[:300]))
    for e in C.calls(r"^std::fs::write$|::write_all$|::write_fmt$"):
        html = {x for a in e.args[1:] for x in walk(a) if x[0] == "call" and x[1] in ("to_html_page", "to_html_string")}
        if not html:
            continue
        for t in e.args[0]:
            while t[0] == "call" and t[1] in ("create", "new", "open", "with_capacity") and t[2]:
                if len(t[2][-1]) != 1:
                    break
                t = next(iter(t[2][-1]))
            if t[0] == "call" and t[1] in ("stdout", "lock"):
                continue
            if not (t[0] == "call" and t[1] == "make_output_path" and len(t[2]) == 3 and len(t[2][1]) == 1):
                R.fail("output", where(e) + "|path", "%s writes a page to %s" % (where(e), show(t)[:300]))
                continue
            x = next(iter(t[2][1]))
            src = {source(C, y) for h in html for y in h[2][0]}
            R.check("same", src == {x}, where(e) + "|written", "%s writes the page of %s to the output path of %s" % (where(e), "|".join(show(y) if y else "?" for y in src), show(x)))
            bad = [w for w in t[2][0] if not wiki_of(w, x)]
            R.check("output", not bad, where(e) + "|wiki", "%s writes the page of %s to where %s puts it" % (where(e), show(x), show(bad[0])[:200] if bad else ""))
            R.check("output", t[2][2] == one(("const", "html")), where(e) + "|ext", "%s writes the page of %s with the extension %s" % (where(e), show(x), show(t[2][2])))
    core(P, R)


def source(C, t):
    """the path a page was found or loaded at"""
    if t[0] == "f" and t[1:3] == ("WikiFile", "data") and t[3][0] == "item" and t[3][1][0] == "find":
        files, alts = t[3][1][1:]
        own = ("f", "WikiFile", "path", ("item", files))
        xs = set()
        for k in alts:
            ys = {next(iter(y)) for f, v in k if v == 1 and f[0] in ("call", "bin") and f[1] in ("eq", "Eq")
                  for y in [[a for a in (f[2] if f[0] == "call" else [one(f[2]), one(f[3])]) if a != one(own)]] if len(y) == 1 and len(y[0]) == 1 for y in [y[0]]}
            xs.add(ys.pop() if len(ys) == 1 else None)
        return xs.pop() if len(xs) == 1 else None
    if t[0] == "call" and t[1] in ("parse", "from_reader"):
        for y in walk(t):
            if y[0] == "call" and y[1] == "read_to_string" and len(y[2][0]) == 1:
                x = next(iter(y[2][0]))
                if page_of(C, t, x):
                    return x
    return None


def is_config(v):
    return all(t[0] == "the" and t[1] == "HtmlConfig" for t in v)


def found_index(t, x):
    return t[0] == "call" and t[1] == "find_wiki_index_by_path" and is_config(t[2][0]) and t[2][1] == one(x)


def wiki_of(t, x):
    if t[0] == "agg" and t[1:3] == ("Option", "None") or t[0] == "call" and t[1] == "default":
        return True
    if t[0] == "call" and t[1] in ("find_wiki_by_path",):
        return is_config(t[2][0]) and t[2][1] == one(x)
    if t[0] == "call" and t[1] in ("find_active_wiki", "to_current_wiki"):
        return all(c[0] == "the" and len(c) == 4 and c[2] == one(x) and all(found_index(i, x) for i in c[3]) for c in t[2][0])
    if t[0] == "call" and t[1] == "find_wiki_by_index":
        return is_config(t[2][0]) and all(found_index(i, x) for i in t[2][1])
    return False


# ------------------------------------------------------------------ vimwiki-core
def core(P, R):
    S = Sim(P, crates=("vimwiki_core",), opaque=("make_path_relative",))
    R.stats["lookups"] = 0
    X = ("arg",)
    the = one(("the", "HtmlConfig"))

    def result(name, *args):
        bs = [b for k, b in P.bodies.items() if k.endswith("::HtmlConfig::" + name)]
        if len(bs) != 1:
            return None, None
        R.stats["lookups"] += 1
        n = len(S.events)
        r = S.root(bs[0], (the,) + args)
        return frozenset().union(*[v for _, v in r]) - one(("agg", "Option", "None", (), ())), bs[0]

    def say(name, ok, v, what):
        R.check("lookup", ok, name, "HtmlConfig::%s does not give %s: %s" % (name, what, show(v)[:300]))

    path = ("f", "HtmlWikiConfig", "path", ("item", WIKIS))
    below = ("call", "starts_with", (one(X), one(path)))

    def deepest(v):
        if len(v) != 1:
            return False
        t = next(iter(v))
        if t[0] != "index":
            return False
        if t[1] == WIKIS:           # a loop of its own: it compares paths and their lengths
            used = [x for e in S.events.values() if "find_wiki_index_by_path" in e.body.path for a in e.args for y in a for x in walk(y)]
            return any(e.name == "starts_with" and e.args == below[2] for e in S.events.values()) and any(x[0] == "call" and x[1] in ("components", "as_os_str") for x in used)
        if t[1][0] != "sel" or t[1][2] != WIKIS:
            return False
        _, how, _, key, conds = t[1]
        longest = how == "max_by_key" and all(k[0] == "call" and k[1] in ("count", "len") and path in set(walk(k)) for k in key) and bool(key)
        return longest and any(all(any(f == below and x == 1 for f, x in k) for k in c) for c in conds)

    def named(v):
        if len(v) != 1:
            return False
        t = next(iter(v))
        own = ("f", "HtmlWikiConfig", "name", ("item", WIKIS))
        if t[0] != "index":
            return False
        if t[1] == WIKIS:
            return any(e.name == "eq" and any(own in a for a in e.args) and any(X in set(walk(a)) for a in e.args) for e in S.events.values())
        if t[1][0] != "sel" or t[1][1] != "find" or t[1][2] != WIKIS:
            return False
        return all(any(f[0] == "call" and f[1] == "eq" and x == 1 and one(own) in f[2] and X in set(walk(f)) for f, x in k) for k in t[1][3])

    def at(v, i):
        return len(v) == 1 and all(t[0] == "item" and t[1][0] == "at" and t[1][1] == WIKIS and t[1][2] == i or
                                   t[0] == "call" and t[1] == "index" and t[2] == (one(WIKIS), i) for t in v)

    v, b = result("find_wiki_index_by_path", one(X))
    if v is not None:
        say("find_wiki_index_by_path", deepest(v), v, "the wiki with the longest path that the given path starts with")
        w, _ = result("find_wiki_by_path", one(X))
        if w is not None:
            say("find_wiki_by_path", at(w, v) or len(w) == 1 and all(t[0] == "item" and deepest(one(("index", t[1]))) for t in w), w, "the wiki found by its path's index")
    v, b = result("find_wiki_index_by_name", one(X))
    if v is not None:
        say("find_wiki_index_by_name", named(v), v, "the wiki of the given name")
        w, _ = result("find_wiki_by_name", one(X))
        if w is not None:
            say("find_wiki_by_name", at(w, v) or len(w) == 1 and all(t[0] == "item" and named(one(("index", t[1]))) for t in w), w, "the wiki found by its name's index")
    v, b = result("find_wiki_by_index", one(X))
    if v is not None:
        say("find_wiki_by_index", at(v, one(X)), v, "the wiki at the given index")
    v, b = result("find_active_wiki")
    if v is not None:
        say("find_active_wiki", at(v, one(SET)), v, "the wiki at the runtime's index")
    v, b = result("to_current_wiki")
    if v is not None:
        rest = frozenset(t for t in v if not at(one(t), one(SET)))
        page = ("f", "HtmlRuntimeConfig", "page", SET[3])
        tmp = all(t[0] == "agg" and t[1] == "HtmlWikiConfig" and "path" in t[3] and t[4][t[3].index("path")] <= frozenset([("call", "parent", (one(page),)), ("call", "new", ()), ("call", "default", ())])
                  and ("call", "parent", (one(page),)) in t[4][t[3].index("path")] for t in rest)
        say("to_current_wiki", tmp and len(rest) < len(v), v, "the active wiki or a wiki of the page's directory")
    v, b = result("active_page")
    if v is not None:
        say("active_page", v == one(("f", "HtmlRuntimeConfig", "page", SET[3])), v, "the runtime's page")

    W = ("W",)
    for k, b in sorted(P.bodies.items()):
        if not k.endswith("::HtmlWikiConfig::make_output_path"):
            continue
        res = S.root(b, (one(W), one(X), one(("ext",))))
        root = one(("f", "HtmlWikiConfig", "path", W))
        for facts, v in res:
            for t in sorted(v, key=str):
                ok = t[0] == "call" and t[1] == "with_extension" and t[2][1] == one(("ext",)) and all(
                    j[0] == "call" and j[1] == "join" and j[2][0] == one(("f", "HtmlWikiConfig", "path_html", W)) and all(inside(y, X, root) for y in j[2][1]) for j in t[2][0])
                R.check("within", ok, "make_output_path", "make_output_path gives %s, not path_html joined with the path within the wiki" % show(t)[:300])
        # the input itself is taken only where it is below the wiki
        for e in S.events.values():
            if e.body is b and e.name == "strip_prefix" and e.args[0] == one(X):
                R.check("within", e.fact(("call", "starts_with", (one(X), root))) == 1, "make_output_path|below", "make_output_path takes the path within a wiki of a path that may be elsewhere")


def inside(t, X, root):
    if not (t[0] == "call" and t[1] == "strip_prefix" and t[2][1] == root):
        return False
    for y in t[2][0]:
        if y == X:
            continue
        if y[0] == "call" and y[1] == "join" and y[2][0] == root and all(X in set(walk(z)) for z in y[2][1]):
            continue
        return False
    return True
