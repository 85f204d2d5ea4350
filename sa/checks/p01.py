"""No panic: indices, slices, unwraps and subtractions hold on every path."""
import os, time
from zone import *
from prog import *
from flow import last

SPAN = "vimwiki_core::lang::parsers::span::Span"


def span_facts(z, base):
    n = lambda f: ("n", ("f", f, base), 0)
    inner = ("n", ("len", ("a", ("f", "inner", base))), 0)
    return [(n("start"), n("end"), 0), (n("end"), inner, 0)]


def span_built(z, st, v):
    d = dict(zip(v[3], v[4]))
    s, e = d.get("start"), d.get("end")
    l = z.length(st, d["inner"]) if "inner" in d else None
    if s is None or e is None or l is None or s[0] != "n" or e[0] != "n":
        yield "a span is made of a start, an end and a text", False
        return
    yield "a span starts before its end", z.le(st, s, e)
    yield "a span ends within its text", z.le(st, e, l)


def isspan(P, ty):
    t = P.types[P.peel(ty)]
    if t["k"] == "tuple" and len(t["args"]) == 1:
        t = P.types[t["args"][0]]
    return t["k"] == "adt" and t.get("def") == SPAN


def parses(P, rty):
    """Whether rty is what a parser returns: the rest of the input and a value, or an error."""
    t = P.types[rty]
    if t["k"] != "adt" or last(t["def"]) != "Result":
        return False
    t = P.types[t["args"][0]]
    return t["k"] == "tuple" and len(t["args"]) == 2 and P.types[t["args"][0]].get("def") == SPAN


def parsed(z, st, body, t, vals, rty, uid):
    """What a parser leaves is a part of what it was given."""
    P = z.P
    if not parses(P, rty):
        return None
    args = [v for o, v in zip(t[2], vals) if o[0] in ("cp", "mv") and isspan(P, o[1][2])]
    if len(args) != 1:
        return None
    v = args[0]
    if v[0] == "agg" and v[1] == "tuple":
        v = v[4][0]
    rest = ("a", z.fresh("rest", uid))
    z.forget(st, rest[1])
    us = P.types[rty]["args"][0]
    i = z.field(st, v, "start", z.usize), z.field(st, v, "end", z.usize)
    o = z.field(st, rest, "start", z.usize), z.field(st, rest, "end", z.usize)
    z.fact(st, i[0], o[0], 0)
    z.fact(st, o[1], i[1], 0)
    out = ("a", z.fresh("parsed", uid))
    z.forget(st, out[1])
    pt = P.types[P.types[rty]["args"][0]]["args"][1]
    if isspan(P, pt):
        p = z.field(st, out, "start", z.usize), z.field(st, out, "end", z.usize)
        z.fact(st, i[0], p[0], 0)
        z.fact(st, p[1], i[1], 0)
    elif z.tname(pt) in ("usize", "u64", "u32", "u16", "u8"):
        out = z.opaque(pt, out[1])
    err = ("a", z.fresh("failed", uid))
    return ("en", "Result", (("Ok", ("0",), (("agg", "tuple", "", ("0", "1"), (rest, out)),)), ("Err", ("0",), (err,))))


def risky(P, b):
    for bi in b.live_blocks():
        bl = b.blocks[bi]
        t = bl["t"]
        if t[0] == "assert" and not t[6][3]:
            return True
        if t[0] == "call" and not t[5][3]:
            c = P.callee(t[1])
            if c is not None:
                m = last(P.cname(c))
                if m in RISK or "panicking" in P.cname(c):
                    return True
        for s in bl["s"]:
            if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] == SPAN:
                return True
    return False


RISK = {"unwrap", "expect", "unwrap_err", "expect_err", "index", "index_mut", "insert", "remove", "swap_remove", "split_at",
        "split_off", "truncate", "drain", "replace_range", "chunks", "chunks_exact", "windows", "step_by", "swap",
        "copy_from_slice", "rotate_left", "rotate_right", "insert_str", "pow", "borrow_mut", "borrow", "panic", "panic_fmt",
        "split_at_mut", "copy_within", "panic_display"}


def scope(b):
    return b.crate in ("vimwiki_core", "vimwiki_cli") and "::tests::" not in b.path and "timekeeper" not in b.path \
        and "timekeeper" not in b.file and "structopt::StructOpt" not in b.path and b.kind != "promoted"


def analyse(P, only=None, verbose=False):
    z = Zone(P, invariants={"Span": span_facts, "Span!": span_built})
    z.consts = params(P)
    z.contract = parsed
    bodies = [b for b in P.bodies.values() if scope(b)]
    top = {}
    for b in bodies:
        if risky(P, b) and not derived(b):
            top.setdefault(outer(b.path), []).append(b)
    fail = {}
    times = []
    for name in sorted(top):
        if only and not re.search(only, name):
            continue
        b = P.bodies.get(name)
        t0 = time.time()
        todo = [b] if b is not None else []
        for x in todo:
            try:
                z.entry(x)
            except Budget:
                fail[name] = "budget"
        for c in top[name]:
            if c.kind == "closure" and c.path not in z.ran:
                try:
                    z.entry(c)
                except Budget:
                    fail[c.path] = "budget"
        times.append((time.time() - t0, name))
        if verbose:
            print(name, round(time.time() - t0, 1), z.steps, flush=True)
    settle(P, z, fail)
    return z, fail, times


def settle(P, z, fail):
    """Where a function needs something of its arguments, each of its callers has to give it: the calls are followed
    from the callers, and the function on its own is let off if that was possible for all of them."""
    sites, values = callsites(P)
    z.off = set()
    z.callers = {}
    entered = {c for d in z.obs.values() for c in d}
    again = True
    while again:
        again = False
        for d in list(z.obs.values()):
            for ctx in [c for c, ok in d.items() if not ok]:
                f = P.bodies.get(ctx)
                if f is None or ctx in z.off or f.kind == "closure" or f.trait or ctx in values or not sites.get(ctx):
                    continue
                for g, bi in sites[ctx]:
                    o = P.bodies.get(outer(g.path), g)
                    for x in {o.path: o, g.path: g}.values():
                        if x.path not in entered and scope(x) and (ctx_missing(z, ctx, g, bi)):
                            entered.add(x.path)
                            try:
                                z.entry(x)
                            except Budget:
                                fail[x.path] = "budget"
                if not any(ctx_missing(z, ctx, g, bi) for g, bi in sites[ctx]):
                    z.off.add(ctx)
                    z.callers[ctx] = sites[ctx]
                    again = True


def ctx_missing(z, f, g, bi):
    return (g.path, bi) not in z.inlined.get(f, ())


def callsites(P):
    sites, values = {}, set()
    for b in P.bodies.values():
        test = "::tests::" in b.path or "#[test]" in b.path
        for bi in b.live_blocks():
            bl = b.blocks[bi]
            t = bl["t"]
            os = [o for s in bl["s"] if s[0] == "=" for o in ops(s[2])]
            if t[0] == "call":
                os += t[2]
                c = P.callee(t[1])
                if c is not None and not test:
                    for x in P.targets(c):
                        sites.setdefault(x.path, []).append((b, bi))
            for o in os:
                if o[0] == "k" and "fn" in o[1]:
                    values.add(P.cname(o[1]["fn"]))
    return sites, values


def derived(b):
    return bool(b.defspan and len(b.defspan) > 3 and b.defspan[3])


def outer(path):
    return path.split("::{closure")[0]


def params(P):
    """Texts that every caller gives as constants that are not empty: parameter atom -> facts."""
    out = {}
    sites = {}
    for b in P.bodies.values():
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c is None:
                continue
            for x in P.targets(c):
                sites.setdefault(x.path, []).append((b, t))
    used = set()
    for b in P.bodies.values():      # functions passed as values may be called with anything
        for bl in b.blocks:
            for s in bl["s"]:
                if s[0] == "=":
                    for o in ops(s[2]):
                        if o[0] == "k" and "fn" in o[1]:
                            used.add(P.cname(o[1]["fn"]))
            t = bl["t"]
            if t[0] == "call":
                for o in t[2]:
                    if o[0] == "k" and "fn" in o[1]:
                        used.add(P.cname(o[1]["fn"]))
    low = {}
    strs = {}
    for b in P.bodies.values():
        if b.kind == "closure" or b.path in used or b.path not in sites:
            continue
        for i in range(b.args):
            if P.types[b.locals[i + 1][0]]["s"].lstrip("&").replace("'static ", "").replace("'a ", "") == "str":
                strs[(b.path, i)] = None
    low = {k: 99 for k in strs}
    ch = True
    while ch:
        ch = False
        for (p, i), v in list(low.items()):
            n = 99
            for b, t in sites[p]:
                if "::tests::" in b.path or "#[test]" in b.path:
                    continue
                o = t[2][i]
                n = min(n, minlen(P, b, o, low))
            if n < v:
                low[(p, i)] = n
                ch = True
    for (p, i), n in low.items():
        if 0 < n < 99:
            at = ("len", ("a", ("p", p, i + 1)))
            out.setdefault(at, []).append((None, at, -n))
    return out


def ops(r):
    if r[0] == "use":
        return [r[1]]
    if r[0] == "agg":
        return r[2]
    if r[0] == "cast":
        return [r[1]]
    return []


def minlen(P, b, o, low):
    if o[0] == "k":
        v = o[1].get("v")
        return len(v.encode()) if isinstance(v, str) else 0
    if o[0] in ("cp", "mv"):
        l, proj = o[1][0], o[1][1]
        if 1 <= l <= b.args and not [e for e in proj if e[0] != "*"] and b.kind != "closure":
            return low.get((b.path, l - 1), 0)
        fs = [e for e in proj if e[0] != "*"]
        if b.kind == "closure" and l == 1 and len(fs) == 1 and fs[0][0] == "f" and fs[0][1].isdigit():
            up = P.bodies.get(b.path.rsplit("::{closure", 1)[0])
            found = [s[2][2][int(fs[0][1])] for bl in up.blocks for s in bl["s"] if s[0] == "=" and s[2][0] == "agg"
                     and s[2][1][0] == "closure" and s[2][1][1] == b.path] if up is not None else []
            return min([minlen(P, up, x, low) for x in found] or [0])
        ds = b.defs().get(l, [])
        if len(ds) == 1 and ds[0][2] == "assign":
            r = ds[0][3]
            if r[0] == "use":
                return minlen(P, b, r[1], low)
            if r[0] == "ref":
                return minlen(P, b, ["cp", r[1]], low)
            if r[0] == "cast":
                return minlen(P, b, r[1], low)
    return 0


def failing(P, z):
    """[(file, kind, line, why, contexts)] of what is not shown."""
    out = []
    for site, d in sorted(z.obs.items()):
        body = P.bodies.get(site[0])
        bad = [c for c, ok in d.items() if not ok and not (c in z.off and (
            body is not None and body.kind != "closure" or
            # a closure that is returned is not run by every caller
            all(outer(g.path) in d or g.path in d for g, _ in z.callers[c])))]
        if bad:
            out.append((site, bad))
    return out


EXPLANATION = (
    "Abstract interpretation of the MIR of every function of the library and the command line tool that can panic: each "
    "bounds check, slice, cut of a text, checked subtraction and narrow addition, unwrap, expect and explicit panic is an "
    "obligation, discharged from differences between integers (what branches establish, lengths and positions, min, what "
    "searches return), from variants that are known and from where characters of a text begin. Helper functions and "
    "closures are entered with what they are given; what a function needs of its arguments has to be shown for every call of it.")
ASSUMPTIONS = [
    "a parser leaves, and takes a span from, a part of the span it is given; nom hands a span positions within it",
    "sums of lengths and positions of texts in memory do not exceed usize",
    "recursion as deep as the input nests does not exhaust the stack (N02)",
    "third-party functions do not panic on what they are given",
]
KINDS = {
    "index": ("an index is within what it indexes", 3),
    "slice": ("a range is within what it slices", 10),
    "boundary": ("a text is cut between characters only", 4),
    "subtraction": ("what is subtracted is not larger than what it is subtracted from", 10),
    "overflow": ("a sum stays within its narrow type", 1),
    "division": ("nothing is divided by zero", 0),
    "unwrap": ("what is unwrapped is there", 3),
    "panic": ("a branch that panics is not reached", 0),
    "invariant": ("a span starts before its end and ends within its text", 2),
}
# (file, kind) -> (sites, why): looked into by hand, beyond what the analysis can show
REVIEWED = {
    ("elements/blocks/tables.rs", "subtraction"): (8, "size_hint: rows and columns seen so far are never more than there are"),
    ("parsers/span.rs", "subtraction"): (1, "Offset: nom asks for the offset of a later part of the same span only"),
    ("parsers/span.rs", "invariant"): (1, "Slice: nom slices within the span"),
    ("parsers/span.rs", "overflow"): (1, "depth: a list nested so deep has exhausted the stack before"),
    ("parsers/utils/whitespace.rs", "subtraction"): (1, "no more bytes are counted at the end of an input than it has"),
    ("parsers/utils/whitespace.rs", "invariant"): (1, "no more bytes are counted at the end of an input than it has"),
    ("parsers/vimwiki/blocks/definitions.rs", "subtraction"): (1, "the bundle of definitions ends after the definition on the line of the term"),
    ("inline/links/mod.rs", "unwrap"): (1, "an anchor is percent-encoded wherever it would not be a URI"),
    ("inline/links/data.rs", "unwrap"): (1, "the parts of a URI make up that URI again"),
    ("blocks/lists/item.rs", "overflow"): (2, "counts of list items in memory"),
    ("blocks/lists/item.rs", "subtraction"): (1, "the remainder comes first: the number is at least one in each round"),
    ("output/html/config.rs", "unwrap"): (3, "the wiki of a page was found by the page's path; the default base is a URI; output paths are asked for within the wiki"),
    ("output/html/convert.rs", "slice"): (1, "what is skipped is what the text was found to start with"),
    ("output/html/convert.rs", "boundary"): (1, "what is skipped is what the text was found to start with"),
    ("output/vimwiki/mod.rs", "subtraction"): (3, "the width of a column is the maximum of its cells' widths"),
    ("output/vimwiki/formatter.rs", "subtraction"): (1, "what is called leaves the indentation as it found it"),
    ("output/vimwiki/formatter.rs", "slice"): (1, "what is called only appends"),
    ("output/vimwiki/formatter.rs", "boundary"): (2, "what is called only appends"),
}


def reviewed(P, site, c):
    f = P.bodies[c].file if site[3] == "invariant" and c in P.bodies else site[1]
    for (end, kind), (n, why) in REVIEWED.items():
        if kind == site[3] and f.endswith(end):
            return (end, kind)
    return None


def run(P, R, tier):
    for k, (text, floor) in KINDS.items():
        R.rule(k, text, floor)
    R.rule("decided", "each function is followed to its end", 0)
    R.rule("appends", "what is written between two lengths of the output only appends to it", 2)
    z, fail, _ = analyse(P)
    bad = [(s, cs) for s, cs in failing(P, z) if "timekeeper" not in s[1]]
    groups = {}
    for site, cs in bad:
        for c in cs:
            k = reviewed(P, site, c)
            groups.setdefault(k or (site[1], site[3]), {"ok": k, "sites": {}})["sites"].setdefault(
                (site[2], site[4]) if site[3] != "invariant" or not k else outer(c), []).append((site, c))
    left = set()
    for k, g in groups.items():
        allowed = REVIEWED[g["ok"]][0] if g["ok"] else 0
        if len(g["sites"]) <= allowed:
            left.update((s[:5], c) for xs in g["sites"].values() for s, c in xs)
    R.stats["functions"] = len({c for d in z.obs.values() for c in d})
    R.stats["contexts"] = sum(len(d) for d in z.obs.values())
    R.stats["steps"] = z.total if hasattr(z, "total") else 0
    for f, why in sorted(fail.items()):
        R.fail("decided", shortp(f), "%s: too many paths to follow" % shortp(f))
    badset = {s: cs for s, cs in bad}
    hand = 0
    for site in sorted(z.obs):
        if "timekeeper" in site[1]:
            continue
        cs = [c for c in badset.get(site, []) if (site[:5], c) not in left]
        if site in badset and not cs:
            hand += 1
        kind = site[3]
        R.check(kind, not cs, "%s %s" % (kind, shortp(outer(site[0]))),
                "%s:%d: in %s: not shown that %s%s" % (site[1], site[2], shortp(site[0]), site[4],
                                                      (" (called from %s)" % ", ".join(sorted({shortp(c) for c in cs if c != site[0]})[:4])) if [c for c in cs if c != site[0]] else ""),
                "%s %s:%d %s" % (shortp(site[0]), site[1], site[2], site[4]))
    R.stats["reviewed by hand"] = hand
    appends(P, R)


SHRINK = {"truncate", "clear", "pop", "remove", "drain", "retain", "split_off", "replace_range", "take", "replace", "swap"}


def appends(P, R):
    """The formatter's functions that cut the output to a length taken before what they are given has run."""
    fmt = [b for b in P.bodies.values() if "formatter::VimwikiFormatter" in b.path and "::tests::" not in b.path
           and ">::" in b.path or "formatter::VimwikiFormatter::" in b.path]
    shrink = set()
    again = True
    while again:
        again = False
        for b in fmt:
            if b.path in shrink:
                continue
            for bi, t in b.calls():
                c = P.callee(t[1])
                if c is None:
                    continue
                n = P.cname(c)
                if (last(n) in SHRINK and ("String" in n or "mem::" in n)) or n in shrink:
                    shrink.add(b.path)
                    again = True
    for b in P.bodies.values():
        if "::tests::" in b.path or b.crate not in ("vimwiki_core", "vimwiki_cli"):
            continue
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c is None or P.cname(c) not in shrink:
                continue
            for o in t[2]:
                if o[0] in ("cp", "mv"):
                    ty = P.types[b.locals[o[1][0]][0]]
                    if ty["k"] != "closure" or o[1][1]:
                        continue
                    seen, todo, hit = set(), [ty["def"]], None
                    while todo:
                        x = P.bodies.get(todo.pop())
                        if x is None or x.path in seen:
                            continue
                        seen.add(x.path)
                        if x.path in shrink:
                            hit = x.path
                        for _, u in x.calls():
                            d = P.callee(u[1])
                            if d is not None:
                                todo += [y.path for y in P.targets(d)]
                        for bl in x.blocks:
                            for st in bl["s"]:
                                if st[0] == "=" and st[2][0] == "agg" and st[2][1][0] == "closure":
                                    todo.append(st[2][1][1])
                                for op in ops(st[2]) if st[0] == "=" else []:
                                    if op[0] == "k" and "fn" in op[1]:
                                        todo.append(P.cname(op[1]["fn"]))
                    R.check("appends", hit is None, shortp(b.path), "%s:%d: in %s: what is given to %s runs %s, which shortens the output" % (
                        t[5][0], t[5][1], shortp(b.path), last(P.cname(c)), hit and shortp(hit)), "%s:%d" % (t[5][0], t[5][1]))


def shortp(p):
    return re.sub(r"vimwiki_(core|cli)::(lang::)?", "", p)


if __name__ == "__main__":
    import sys
    P = Prog()
    z, fail, times = analyse(P, sys.argv[1] if len(sys.argv) > 1 else None, len(sys.argv) > 2)
    bad = failing(P, z)
    for site, cs in bad:
        print(site[1][-40:], site[2], site[3], site[4][:60], "|", [c[-30:] for c in cs][:3], "of", len(z.obs[site]))
    print(len(z.obs) - len(bad), len(bad), "fail", fail, "off", len(z.off), "time", sorted(times)[-2:], sum(t for t, _ in times))
