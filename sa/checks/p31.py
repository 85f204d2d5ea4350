"""Configuration options have the effect they name, where they name it."""
import re
from prog import *
from pathval import *
from flow import last
from fmtargs import decode
from checks.p29 import is_output

EXPLANATION = (
    "Every read of a field of a configuration section is found in the MIR of the library (constructors, defaults and "
    "serialization apart) and the value read is followed through copies, negations, tuples, closure captures and arguments "
    "to what it decides or where it is used. The writer of an element that a read serves is the implementation of Output it "
    "is in, or those that reach it through the call graph. Obligations: every option is used by a writer of what its "
    "section is named after, and by no writer of anything else; where a yes/no option decides, the code that runs only when "
    "it is set trims, leaves out padding, writes the comment or the indented form, and the code that runs only when it is "
    "not set does not.")
ASSUMPTIONS = ["a section is named after the elements it is for"]

PLAIN = {"clone", "to_string", "as_str", "as_ref", "deref", "borrow", "to_owned", "as_path", "as_deref", "into", "cloned", "copied"}
TRIM = re.compile(r"^(and_)?trim")
# elements a section is for, by its name
ELEMENTS = {
    "Comment": {"Comment", "LineComment", "MultiLineComment"},
    "List": {"List", "ListItem", "ListItemTodoStatus", "ListItemContents", "ListItemContent", "ListItemAttributes"},
    "TodoListItem": {"ListItemTodoStatus", "ListItem", "ListItemAttributes"},
    "DefinitionList": {"DefinitionList", "DefinitionListValue", "TermAndDefinitions", "DefinitionBundle"},
    "Code": {"CodeBlock", "CodeInline"},
    "Link": {"Link", "LinkData"},
    "Table": {"Table", "Cell", "CellSpan", "ColumnAlign"},
}
ANY = {"Page", "Template", "Wiki"}      # not about one kind of element


def short(n):
    return n.rsplit("::", 1)[-1]


def section(adt):
    m = re.search(r"::config::(?:Html|Vimwiki)(\w*)Config$", adt)
    return m.group(1) if m else None


class Options:
    def __init__(self, P):
        self.P = P
        self.reads = {}      # (adt, field) -> [(body, dest local)]
        self.secs = {a for a in P.adts if a.startswith("vimwiki_core::") and section(a) and section(a) != "Runtime"}
        self.callers = {}
        for n, b in P.bodies.items():
            for bi in b.live_blocks():
                t = b.blocks[bi]["t"]
                if t[0] == "call":
                    c = P.callee(t[1])
                    if c is not None:
                        for tb in P.targets(c):
                            self.callers.setdefault(tb.path, set()).add(n)
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                        self.callers.setdefault(s[2][1][1], set()).add(n)
                    if s[0] == "=":
                        for o in operands(s[2]):
                            if o[0] == "k" and "fn" in o[1]:
                                self.callers.setdefault(P.cname(o[1]["fn"]), set()).add(n)

    def ignored(self, b):
        if b.derived or "::config::_::" in b.path or "serde" in b.path:
            return True
        m = last(b.path)
        return m == "default" or m.startswith("default_") or b.crate not in ("vimwiki_core", "vimwiki_cli")

    def collect(self):
        P = self.P
        for n, b in P.bodies.items():
            if self.ignored(b):
                continue
            for bi in b.live_blocks():
                blk = b.blocks[bi]
                for s in blk["s"]:
                    if s[0] == "=":
                        for p in places(s[2]):
                            self.see(b, p, s[1][0] if not s[1][1] else None, s[2])
                t = blk["t"]
                if t[0] == "call":
                    for o in t[2]:
                        if o[0] in ("cp", "mv"):
                            self.see(b, o[1], None, None, t)
                elif t[0] == "switch" and t[1][0] in ("cp", "mv"):
                    self.see(b, t[1][1], None, None)

    def see(self, b, p, dst, rv, call=None):
        ty = None
        for i, e in enumerate(p[1]):
            if e[0] == "f" and len(e) > 3 and e[3] in self.secs:
                self.reads.setdefault((e[3], e[1]), []).append((b, tuple(map(tuple, p[1][i + 1:])), p, dst, rv))

    # ---- roots
    def roots(self, b, seen=None):
        """types whose Output a body serves; None for one that is reached from elsewhere"""
        seen = set() if seen is None else seen
        if b.path in seen:
            return set()
        seen.add(b.path)
        r = b
        while r.kind in ("closure", "promoted") and r.parent and r.parent in self.P.bodies:
            r = self.P.bodies[r.parent]
        m = re.search(r"^<?(.*?) as .*Output<", r.path) or re.search(r"impl .*Output<.*> for ([\w:]+)", r.path)
        if "Output<" in r.path and m:
            return {short(re.sub(r"<.*", "", m.group(1)))}
        out = set()
        cs = self.callers.get(r.path, set()) | (self.callers.get(b.path, set()) if b is not r else set())
        for c in cs:
            cb = self.P.bodies.get(c)
            if cb is not None and not self.ignored(cb):
                out |= self.roots(cb, seen)
        return out

    # ---- forward use
    def follow(self, b, read):
        """(used, [(body, true edge, false edge)]) of one read value"""
        P = self.P
        _, rest, place, dst, rv = read
        used, edges, seen = [False], [], set()
        todo = [(b, tuplep(place), False)]
        while todo:
            b, pl, neg = todo.pop()
            if pl[0] == 0:
                used[0] = True
            if (b.path, pl, neg) in seen:
                continue
            seen.add((b.path, pl, neg))

            def hit(p):
                """projection of p beyond pl, if p is (part of) the value or holds it"""
                q = tuplep(p)
                if q[0] != pl[0]:
                    return None
                a, c = strip(q[1]), strip(pl[1])
                if a[:len(c)] == c:
                    return a[len(c):]
                return None
            for bi in b.live_blocks():
                blk = b.blocks[bi]
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    r = s[2]
                    if r[0] == "agg" and r[1][0] == "adt" and r[1][1] in self.secs:
                        continue        # another section with the same option
                    if r[0] == "agg":
                        for i, o in enumerate(r[2]):
                            if o[0] not in ("cp", "mv"):
                                continue
                            q = tuplep(o[1])
                            a, c = strip(q[1]), strip(pl[1])
                            more = c[len(a):] if q[0] == pl[0] and c[:len(a)] == a else ()
                            if hit(o[1]) is not None or more:
                                if r[1][0] == "closure":
                                    cb = P.bodies.get(r[1][1])
                                    if cb is not None:
                                        todo.append((cb, (1, (("f", str(i)),) + more), neg))
                                else:
                                    nm = r[1][3][i] if r[1][0] == "adt" and i < len(r[1][3]) else str(i)
                                    todo.append((b, (s[1][0], tuplep(s[1])[1] + (("f", nm),) + more), neg))
                        continue
                    for p in places(r):
                        h = hit(p)
                        if h is None:
                            # the whole of something that holds the value moves on
                            q = tuplep(p)
                            if q[0] == pl[0] and r[0] in ("use", "ref", "cast"):
                                a, c = strip(q[1]), strip(pl[1])
                                if c[:len(a)] == a and c != a:
                                    todo.append((b, (s[1][0], tuplep(s[1])[1] + c[len(a):]), neg))
                            continue
                        if r[0] in ("use", "ref", "cast"):
                            if not s[1][1] and s[1][0] == 0:
                                used[0] = True
                            todo.append((b, tuplep(s[1]), neg))
                        elif r[0] == "un" and r[1] == "Not":
                            todo.append((b, tuplep(s[1]), not neg))
                        elif r[0] in ("bin", "discr", "len", "un"):
                            used[0] = True
                t = blk["t"]
                if t[0] == "switch" and t[1][0] in ("cp", "mv") and hit(t[1][1]) is not None:
                    used[0] = True
                    if len(t[2]) == 1 and int(t[2][0][0]) == 0:
                        yes, no = t[3], t[2][0][1]
                        if neg:
                            yes, no = no, yes
                        edges.append((b, bi, yes, no))
                elif t[0] == "call":
                    for j, o in enumerate(t[2]):
                        if o[0] not in ("cp", "mv"):
                            continue
                        h = hit(o[1])
                        q = tuplep(o[1])
                        a, c0 = strip(q[1]), strip(pl[1])
                        holder = q[0] == pl[0] and c0[:len(a)] == a and c0 != a
                        if h is None and not holder:
                            continue
                        c = P.callee(t[1])
                        if c is None:
                            used[0] = True
                            continue
                        m = last(P.cname(c))
                        bs = [x for x in P.targets(c) if x.crate.startswith("vimwiki")]
                        if m in PLAIN and h is not None:
                            todo.append((b, tuplep(t[3]), neg))
                        elif bs and not self.ignored(bs[0]):
                            used[0] = used[0] or holder
                            for x in bs:
                                if x.args == len(t[2]):
                                    todo.append((x, (j + 1, c0[len(a):] if holder else ()), neg))
                        elif h is not None:
                            used[0] = True
                elif t[0] == "drop":
                    pass
        return used[0], edges


def strip(pr):
    return tuple(e[:2] for e in pr if e[0] != "*")


def tuplep(p):
    return (p[0], tuple(tuple(e[:2]) if e[0] != "*" else ("*",) for e in p[1]))


def operands(r):
    k = r[0]
    if k in ("use", "cast", "repeat"):
        return [r[1]]
    if k == "un":
        return [r[2]]
    if k == "bin":
        return [r[2], r[3]]
    if k == "agg":
        return list(r[2])
    return []


def places(r):
    if r[0] in ("ref", "discr", "len", "addr"):
        yield r[1]
    for o in operands(r):
        if o[0] in ("cp", "mv"):
            yield o[1]


def only(b, src, tgt, other):
    """blocks that run only by way of the edge src -> tgt"""
    def reach(start, cut):
        seen, todo = set(), [start]
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for y in b.succ(x):
                if (x, y) != cut:
                    todo.append(y)
        return seen
    without = reach(0, (src, tgt))
    return {x for x in b.live_blocks() if x not in without}


def texts(P, b, blocks, depth=0):
    """literals of the text written in blocks, and methods called, closures built there included"""
    lits, calls = [], []

    def konst(k):
        v = k.get("v")
        if isinstance(v, str):
            lits.append(v)
        elif isinstance(v, list) and v and all(isinstance(x, int) for x in v):
            lits.extend(x for x in decode(v) if isinstance(x, str))
        elif isinstance(v, dict) and isinstance(v.get("bytes"), list):
            lits.extend(x for x in decode(v["bytes"]) if isinstance(x, str))
        elif "promoted" in k:
            owner = P.bodies.get(k["of"]) or b
            ps = b.promoted or owner.promoted
            if k["promoted"] < len(ps):
                pb = ps[k["promoted"]]
                a, c = texts(P, pb, pb.live_blocks(), depth + 1)
                lits.extend(a)
    for bi in blocks:
        blk = b.blocks[bi]
        for s in blk["s"]:
            if s[0] != "=":
                continue
            for o in operands(s[2]):
                if o[0] == "k":
                    konst(o[1])
            if s[2][0] == "agg" and s[2][1][0] == "closure" and depth < 4:
                cb = P.bodies.get(s[2][1][1])
                if cb is not None:
                    a, c = texts(P, cb, cb.live_blocks(), depth + 1)
                    lits += a
                    calls += c
        t = blk["t"]
        if t[0] == "call":
            for o in t[2]:
                if o[0] == "k":
                    konst(o[1])
            c = P.callee(t[1])
            if c is not None:
                calls.append(last(P.cname(c)))
                for x in P.targets(c):
                    if x.crate.startswith("vimwiki") and depth < 3 and not is_output(c, P.cname(c)) and not TRIM.match(last(P.cname(c))):
                        a, cc = texts(P, x, x.live_blocks(), depth + 1)
                        lits += a
                        calls += [y for y in cc if TRIM.match(y)] if False else cc
    return lits, calls


WRITES = {"write_fmt", "write_str", "write_char", "push_str", "format", "write"}


def blank(ls):
    return [x for x in ls if x and not x.strip()]


def polarity(name, yes, no):
    """what is wrong with what runs only when the option is set / not set"""
    (yl, yc), (nl, nc) = yes, no
    yt, nt = [c for c in yc if TRIM.match(c)], [c for c in nc if TRIM.match(c)]
    if name.startswith("trim_"):
        if nt:
            return "trims when it is not set"
        if not yt:
            return "does not trim when it is set"
    elif name == "no_padding":
        pad = [x for x in yl if x.startswith(" ") or x.endswith(" ")]
        if pad:
            return "pads when it is set"
        if not [x for x in nl if " " in x]:
            return "does not pad when it is not set"
    elif name.startswith("separate"):
        if any("\n" in x for x in nl):
            return "separates when it is not set"
        if not any("\n" in x for x in yl):
            return "does not separate when it is set"
    elif name.startswith("include"):
        if [c for c in nc if c in WRITES]:
            return "writes when it is not set"
        if not [c for c in yc if c in WRITES]:
            return "does not write when it is set"
    elif "indented" in name:
        if not blank(yl) or any(x.strip() for x in yl):
            return "does not indent when it is set"
        if blank(nl) and not any(x.strip() for x in nl):
            return "indents when it is not set"
    elif name.startswith("ignore_newline"):
        # a line break as markup stands for the line feed of the text
        if any("<br" in x for x in yl):
            return "keeps line breaks when it is set"
        if any("<br" in x for x in nl) or not nl:
            return None
    return None


def variants(P, O, R, key, name, sec, live):
    """an option named after a variant of what is written is used for that variant only"""
    for rd, edges in live:
        b = rd[0]
        if b.kind not in ("fn", "method") or b.args < 1:
            continue
        a = P.adt_of(b.ty(1))
        if a not in P.adts or P.adts[a]["kind"] != "enum":
            continue
        vs = [v["name"] for v in P.adts[a]["variants"]]
        mine = [v for v in vs if flat(v) == flat(name) or flat(name) == flat(v) + "char"]
        if not mine:
            continue
        sink, other = [], []
        for f, r, env in Paths(P, enter=lambda c, x: False).root(b):
            if r.k == "agg" and r.a[1] == "Err":
                continue
            on = f.get(mk("arg", b.path, 1))
            text = repr(sorted((repr(k) for k in list(f.d) + list(env.values()) if k.k in ("mutd", "call")), key=len)[-1:] or "")
            hit = re.search(r"\b%s\b" % re.escape(name), text) is not None
            if not isinstance(on, frozenset):
                continue
            for v in on:
                (sink if hit else other).append(v)
        R.check("variant", set(sink) == set(mine) and not set(other) & set(mine), key,
                "%s: the option %s of %s is written for %s" % (b.path, name, sec, ", ".join(sorted(set(sink))) or "nothing"))


def flat(s):
    return s.replace("_", "").lower()


def run(P, R, tier):
    O = Options(P)
    O.collect()
    R.rule("used", "an option is used where the elements of its section are written", 30)
    R.rule("place", "a writer uses the options of its own section only", 18)
    R.rule("effect", "what runs only when an option is set, or only when it is not, is what its name says", 10)
    R.rule("variant", "an option named after a variant is written for that variant", 6)
    R.stats["options"] = sum(len(P.adts[a]["variants"][0]["fields"]) for a in O.secs)
    R.stats["reads"] = sum(len(v) for v in O.reads.values())
    for a in sorted(O.secs):
        sec = section(a)
        if not sec:
            continue
        for f in P.adts[a]["variants"][0]["fields"]:
            name = f["name"]
            sub = P.adt_of(f["ty"])
            if sub in O.secs:
                continue
            key = "%s.%s" % (short(a), name)
            live = []
            for rd in O.reads.get((a, name), ()):
                used, edges = O.follow(rd[0], rd)
                if used:
                    live.append((rd, edges))
            want = ELEMENTS.get(sec, {sec})
            served = []
            for rd, edges in live:
                rs = O.roots(rd[0])
                served.append(rs)
                if sec not in ANY and rs:
                    R.check("place", rs <= want, "%s|%s" % (key, short(rd[0].root if isinstance(rd[0].root, str) else rd[0].path)),
                            "%s reads the option %s of %s for %s" % (rd[0].path, name, short(a), ", ".join(sorted(rs - want))))
            ok = any(rs & want for rs in served) if sec not in ANY else bool(live)
            R.check("used", ok, key, "the option %s of %s is not used %s" % (
                name, short(a), "where " + "/".join(sorted(want)) + " is written" if sec not in ANY else "anywhere"))
            if P.ts(f["ty"]) != "bool":
                variants(P, O, R, key, name, short(a), live)
                continue
            seen = set()
            for rd, edges in live:
                for b, bi, yes, no in edges:
                    if (b.path, bi) in seen:
                        continue
                    seen.add((b.path, bi))
                    y = texts(P, b, only(b, bi, yes, no))
                    n = texts(P, b, only(b, bi, no, yes))
                    w = polarity(name, y, n)
                    R.check("effect", w is None, "%s|%s" % (key, short(b.path)), "%s: the option %s of %s %s" % (b.path, name, short(a), w))
