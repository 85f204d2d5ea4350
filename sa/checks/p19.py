"""Wikis keep their place, and what is processed is what was asked for."""
from checks.cli import *

EXPLANATION = (
    "The effects of the command line (sa/effects.py), path by path, with the conditions they are under. Obligations: the list of wikis is vim's, then the file's, then one for each extra path, and "
    "nothing is taken out, moved or sorted; a loaded wiki's index is its place in that whole list, its name and path are those at the same place; a wiki is loaded or converted "
    "only where --include is empty or names that wiki's own index or name; a file found below a wiki is read only where its extension is that wiki's, below a directory to format "
    "only where it is one of --extensions; and nothing else decides.")
ASSUMPTIONS = ["options are parsed as declared"]

WIKIS = ("f", "HtmlConfig", "wikis", ("the", "HtmlConfig"))
WIKI = ("item", WIKIS)
INCLUDE = opt("CommonOpt", "include")
SHRINK = {"remove", "clear", "retain", "retain_mut", "truncate", "drain", "pop", "split_off", "dedup", "dedup_by", "dedup_by_key", "swap_remove", "sort", "sort_by", "sort_by_key", "sort_unstable",
          "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "rotate_left", "rotate_right", "insert", "take", "replace", "sort_by_cached_key", "extract_if"}
VIM = "load_global_var"


def run(P, R, tier):
    R.rule("order", "vim's wikis come first, then the file's, then those of the extra paths, and none is taken out", 3)
    R.rule("index", "a loaded wiki has the index, name and path of one and the same place in the configuration", 2)
    R.rule("include", "a wiki is processed only where --include is empty or names its own index or name", 2)
    R.rule("select", "a file is processed only where its extension is the one asked for", 3)
    C = Cli(P)
    R.stats["functions"] = C.functions()
    R.stats["operations"] = len(C.events)
    order(P, R, C)
    index(R, C)
    include(P, R, C)
    select(R, C)


def vims(v):
    return any(x[0] == "call" and x[1] == VIM for t in v for x in walk(t))


def order(P, R, C):
    for e in C.events:
        if e.callee is not None or not e.args:
            continue
        if WIKIS in e.args[0] and e.name in SHRINK and "Vec" in e.full or WIKIS in e.args[0] and e.name in SHRINK and "slice" in e.full:
            R.fail("order", "%s|%s" % (where(e), e.name), "%s calls %s on the list of wikis, which changes the index of wikis" % (where(e), e.name))
        if e.name in ("extend", "append") and len(e.args) > 1:
            if vims(e.args[1]) and WIKIS in e.args[0]:
                R.fail("order", where(e) + "|vim", "%s adds vim's wikis after those of the configuration" % where(e))
            if WIKIS in e.args[1]:
                R.check("order", all(t == WIKIS for t in e.args[1]) and vims(e.args[0]), where(e) + "|config", "%s adds %s to %s" % (where(e), show(e.args[1])[:150], show(e.args[0])[:150]))
        if e.name == "push" and WIKIS in e.args[0]:
            ok = len(e.args) > 1 and all(t[0] == "agg" and t[1] == "HtmlWikiConfig" and origins(t[4][t[3].index("path")]) and origins(t[4][t[3].index("path")])[0].endswith(".extra_paths") for t in e.args[1] if "path" in t[3])
            R.check("order", ok, where(e) + "|extra", "%s adds %s to the list of wikis" % (where(e), show(e.args[1])[:200] if len(e.args) > 1 else ""))
    by = {}
    for (path, bi, adt, f, facts, ctx), v in C.sim.stores.items():
        if (adt, f) == ("HtmlConfig", "wikis"):
            by.setdefault((path, bi), frozenset())
            by[(path, bi)] |= v
    for (path, bi), v in sorted(by.items()):
        at = path.rsplit("::", 1)[-1]
        kept = any(WIKIS in set(walk(t)) for t in v) and not any(x[0] == "filter" for t in v for x in walk(t))
        for e in C.events:
            if e.body.path == path and e.callee is None and e.name in ("extend", "append") and len(e.args) > 1 and e.args[0] <= v and e.args[1] == one(WIKIS):
                kept = kept or bi in after(e.body, e.block)
        R.check("order", kept, at + "|kept", "%s replaces the list of wikis by %s, without those of the configuration" % (at, show(v)[:200]))
        first = not any(x[0] == "call" and x[1] == "chain" and WIKIS in x[2][0] for t in v for x in walk(t))
        R.check("order", first, at + "|first", "%s puts the wikis of the configuration before vim's" % at)


def after(b, n):
    seen, todo = set(), list(b.succ(n))
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo.extend(b.succ(x))
    return seen


def index(R, C):
    by = {}
    for (path, bi, adt, f, facts, ctx), v in C.sim.stores.items():
        if adt == "Wiki":
            k = by.setdefault((path, bi, ctx), {})
            k[f] = k.get(f, frozenset()) | v
    for (path, bi, ctx), fs in sorted(by.items(), key=str):
        base = {x[3] for t in fs.get("path", frozenset()) | fs.get("name", frozenset()) for x in [t] if x[0] == "f" and x[1] == "HtmlWikiConfig"}
        at = path.rsplit("::", 1)[-1]
        if not base:
            continue
        for f in ("name", "path"):
            if f in fs:
                R.check("index", fs[f] == one(("f", "HtmlWikiConfig", f, WIKI)), at + "|" + f, "%s loads a wiki with the %s %s" % (at, f, show(fs[f])[:200]))
        R.check("index", fs.get("index") == one(("index", WIKIS)), at + "|index", "%s gives a wiki the index %s, not its place among all that are configured" % (at, show(fs.get("index", frozenset()))[:200]))


def include(P, R, C):
    S = C.sim
    for e in C.events:
        if e.callee is not None or e.name != "new" or "WalkDir" not in e.full or not e.args:
            continue
        for t in e.args[0]:
            if not (t[0] == "f" and t[1:3] == ("HtmlWikiConfig", "path")):
                continue
            at = where(e)
            if t[3] != WIKI:
                R.fail("include", at + "|which", "%s walks %s" % (at, show(t)))
                continue
            facts = dict(e.facts)
            why = None
            if facts.get(("call", "is_empty", (one(INCLUDE),))) != 1:
                anys = [f for f, v in e.facts if v == 1 and f[0] == "call" and f[1] == "any" and f[2] and f[2][0] == one(INCLUDE)]
                if not anys:
                    why = "without looking at --include"
                for f in anys:
                    why = why or own(P, C, f)
            R.check("include", why is None, at + "|own", "%s walks each wiki %s" % (at, why))
    # nothing but --include decides over the list
    for e in C.events:
        if e.callee is None and e.name == "next" and e.args:
            for t in e.args[0]:
                base, conds = t, []
                while base[0] in ("filter", "enum", "seq"):
                    if base[0] == "filter":
                        conds.append(base[2])
                    base = base[2] if base[0] == "seq" else base[1]
                if base[0] == "call" and base[1] in ("skip", "take", "step_by", "rev", "skip_while", "take_while") and WIKIS in set(walk(base)):
                    R.fail("include", where(e) + "|part", "%s goes through %s" % (where(e), show(base)))
                if base == WIKIS:
                    for c in conds:
                        bad = [f for k in c for f, v in k if not (f[0] == "call" and f[1] in ("is_empty", "any") and f[2] and f[2][0] == one(INCLUDE))]
                        R.check("include", not bad, where(e) + "|only", "%s leaves out wikis by %s" % (where(e), show(bad[0])[:200] if bad else ""))


def own(P, C, f):
    """does the predicate over --include look at the index and the name of the wiki at hand?"""
    seen = set()
    for a in f[2][1:]:
        for c in a:
            if c[0] != "clo":
                continue
            before = set(C.sim.events)
            outs = C.sim.apply(c, (one(("item", INCLUDE)),), frozenset(), ("?",))
            body = P.bodies.get(c[1])
            todo, bodies = [c[1]], set()
            while todo:
                p = todo.pop()
                if p in bodies:
                    continue
                bodies.add(p)
                for e in C.sim.events.values():
                    if e.body.path == p:
                        for arg in e.args:
                            for y in arg:
                                for x in walk(y):
                                    if x[0] == "bin" and x[1] not in ("Eq", "Ne") and ("index", WIKIS) in x:
                                        seen.add(("bin", x[1]))
                                    if x[0] == "index":
                                        seen.add(("index", x[1]))
                                    if x[0] == "f" and x[1] == "HtmlWikiConfig":
                                        seen.add((x[2], x[3]))
            for fs, v in outs:
                for y in v:
                    for x in walk(y):
                        if x[0] == "index":
                            seen.add(("index", x[1]))
                        if x[0] == "f" and x[1] == "HtmlWikiConfig":
                            seen.add((x[2], x[3]))
    if ("index", WIKIS) not in seen:
        return "by something other than its index"
    if ("name", WIKI) not in seen:
        return "by something other than its name"
    rest = seen - {("index", WIKIS), ("name", WIKI)}
    return "by %s too" % sorted(map(str, rest))[0][:100] if rest else None


def select(R, C):
    for e in C.events:
        if not e.args or e.callee is not None or e.name not in ("read_to_string", "read", "open") or "fs::" not in e.full:
            continue
        for x in e.args[0]:
            if x[0] != "item" or x[1][0] != "call" or x[1][1] != "new":
                continue
            root = next(iter(x[1][2][0]))
            ext = ("call", "extension", (one(x),))
            facts = [(f, v) for f, v in e.facts if ext in set(walk(f))]
            at = where(e)
            if root[0] == "f" and root[1:3] == ("HtmlWikiConfig", "path"):
                want = ("f", "HtmlWikiConfig", "ext", root[3])
                ok = any(v == 1 and f[0] in ("call", "bin") and f[1] in ("eq", "Eq") and any(strip(y) == want for a in (f[2] if f[0] == "call" else ()) for y in a) for f, v in facts)
                R.check("select", ok, at + "|wiki", "%s reads a file below a wiki without making sure that it has the wiki's extension" % at)
            elif origins(one(root)) and origins(one(root))[-1].endswith("extra_paths"):
                ok = any(v == 1 and f[0] == "call" and f[1] == "eq" and any(strip(y) == ("call", "default_ext", ()) for a in f[2] for y in a) for f, v in facts)
                R.check("select", ok, at + "|extra", "%s reads a file below an extra path without making sure that it has the default extension" % at)
            elif root == ("item", opt("FormatSubcommand", "paths")):
                ok = any(v == 1 and f[0] == "call" and f[1] in ("contains", "any") and any(opt("FormatSubcommand", "extensions") in set(walk(y)) for y in f[2][0]) for f, v in facts)
                R.check("select", ok, at + "|format", "%s formats a file below a directory without making sure that its extension is one of --extensions" % at)
            else:
                R.fail("select", at + "|?", "%s reads files below %s" % (at, show(root)))


def strip(t):
    while t[0] == "agg" and t[1] == "Option" and t[2] == "Some" and len(t[4][0]) == 1:
        t = next(iter(t[4][0]))
    return t
