"""Ids in the HTML of a page are unique."""
import re
from prog import *
from terms import *
from pathval import Paths, TooMany
from fmtargs import pieces
from flow import last

EXPLANATION = (
    "Every writer of an element is followed along its paths (helpers entered, loops taken up to twice), collecting what it "
    "writes as one stream of constants and values. Each value written as an id attribute must be what a function of the "
    "formatter that makes ids returned, unchanged, and on no path is one such result written as an id twice; a link to "
    "#... written with an element leads to an id that is written with it. On each path of a function that makes ids, what it "
    "returns has been looked up in the formatter's table and found absent, and is put in the table before it is returned, or is an "
    "entry of the table with its number, which the path makes one more. "
    "Nothing else changes the table, and no writer of an element makes a formatter of its own.")
ASSUMPTIONS = [
    "attributes that a page itself gives (of code blocks, links and transclusions) and templates are not the tool's ids",
    "a hash table finds what was put in it",
]

FORMATTER = "::HtmlFormatter"
SAME = {"deref", "as_ref", "to_string", "into_owned", "clone", "borrow", "as_str", "must_use", "to_owned", "into", "from", "as_deref",
        "cloned", "copied", "as_mut", "to_string_lossy", "identity", "into_string", "into_boxed_str"}
WRITE = {"write_fmt", "write_str", "write_char", "push_str", "push"}


def core(t):
    """A text without what only changes the way it is held"""
    while True:
        if t.k == "agg" and len(t.a[3]) == 1 and t.a[1] in ("Borrowed", "Owned"):
            t = t.a[3][0]
        elif t.k == "call" and len(t.a[1]) == 1 and last(t.a[0]) in SAME:
            t = t.a[1][0]
        elif t.k == "call" and last(t.a[0]) == "format" and len(t.a[1]) == 1:
            ps = pieces(t.a[1][0])
            if ps and len(ps) == 1 and not isinstance(ps[0], str):
                t = ps[0][0]
            else:
                return t
        else:
            return t


class Writes(Paths):
    """Paths that follow helpers that are handed the formatter"""

    def __init__(self, P, stop):
        super().__init__(P, enter=lambda c, b: not stop(b), maxpaths=20000)
        self.stops = stop

    def call(self, body, env, refs, facts, t, stack, site):
        c = self.P.callee(t[1])
        if c is not None and c["def"] not in CALL_ONCE:
            bs = self.P.targets(c)
            mut = [j for j, o in enumerate(t[2]) if o[0] in ("cp", "mv") and o[1][0] in refs and not o[1][1]]
            if mut and len(bs) == 1 and bs[0].path not in stack and len(stack) < self.maxdepth and bs[0].args == len(t[2]) and not self.stops(bs[0]):
                args = tuple(self.operand(body, env, o) for o in t[2])
                out = []
                for f2, v, menv in self._run(bs[0], args, facts, stack):
                    e2 = dict(env)
                    for j in mut:
                        base, pre = refs[t[2][j][1][0]]
                        new = menv.get(j + 1, args[j])
                        self.update(e2, base, pre, new)
                        e2[t[2][j][1][0]] = new
                    out.append((f2, v, e2))
                return out
        return super().call(body, env, refs, facts, t, stack, site)


def stream(P, t):
    """What has been written to a formatter, in order: text, values, and the functions that were handed it"""
    out = []
    if t.k != "mutd":
        return out
    out += stream(P, t.a[0])
    for e in t.a[1]:
        n = last(e.a[0])
        if n in WRITE and len(e.a[1]) == 2:
            out += flat(e.a[1][1])
        else:
            out.append(("call", e))
    return out


def flat(x):
    """A written text as constants and values"""
    ps = pieces(x)
    if ps is not None:
        out = []
        for p in ps:
            out += [p] if isinstance(p, str) else flat(p[0])
        return out
    y = core(x)
    if y.k == "const" and isinstance(y.a[0], str):
        return [y.a[0]]
    if y.k == "call" and last(y.a[0]) == "format" and len(y.a[1]) == 1 and pieces(y.a[1][0]) is not None:
        return flat(y.a[1][0])
    if y.k == "mutd" and all(last(e.a[0]) in WRITE for e in y.a[1]):
        # a text that was put together
        out = flat(y.a[0]) if not (y.a[0].k == "call" and last(y.a[0].a[0]) in ("new", "with_capacity", "default")) else []
        for e in y.a[1]:
            out += flat(e.a[1][1])
        return out
    return [y]


ID = re.compile(r"""[\s"']id\s*=\s*("([^"]*)"|'([^']*)'|([^\s>"']+))""")
HREF = re.compile(r"""[\s"']href\s*=\s*["']#([^"']*)["']""")
HOLE = re.compile("\x00(\\d+)\x01")


class Ids:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.memo = {}
        self.E = Eval(P, lambda c, b: False)

    def method(self, b):
        return b.args >= 1 and self.P.adt_of(self.P.peel(b.locals[1][0])) is not None and \
            self.P.types[self.P.peel(b.locals[1][0])].get("def", "").endswith(FORMATTER)

    def stop(self, b):
        n = last(b.path)
        return (n == "fmt" and b.args == 2) or (n in WRITE and self.method(b)) or self.method(b) and self.P.types[b.locals[1][0]]["k"] == "ref" and self.texts(b)

    def texts(self, b):
        """A function of the formatter that is given a text and returns one: it may make ids"""
        s = self.P.ts(b.locals[0][0])
        return b.args == 2 and ("str" in s or "String" in s) and "Option" not in s and "Result" not in s

    # ---------------------------------------------------------------- makers
    def maker(self, b):
        """None if what b returns is new and recorded, otherwise why not"""
        if b.path not in self.memo:
            self.memo[b.path] = None
            self.memo[b.path] = self._maker(b)
        return self.memo[b.path]

    def _maker(self, b):
        try:
            rs = Paths(self.P, maxpaths=20000).root(b)
        except TooMany:
            return "it has too many paths to follow"
        if not rs:
            return "it never returns"
        for facts, r, env in rs:
            if self.impossible(facts):
                continue
            r = core(r)
            if r.k == "call":
                c = self.called(r)
                if c is not None and c.path != b.path and self.method(c) and self.texts(c):
                    w = self.maker(c)
                    if w is None:
                        continue
                    return w
            puts = [(core(e.a[1][1]), e.a[1][2:], self.fields(y.a[0])) for y in walk(env.get(1, mk("const", "()")), self.E) if y.k == "mutd"
                    for e in y.a[1] if last(e.a[0]) in ("insert", "push", "replace") and len(e.a[1]) >= 2]
            tables = set().union(*[f for k, v, f in puts if k == r or self.numbered(r, k, v)]) if puts else set()
            if not tables:
                return "what it returns (%s) is not recorded on some path, so that it may be returned again for the same text" % show(r, 4)
            if not any(self.absent(k, v, r, tables) for k, v in facts.d.items()):
                return "it may return what is recorded already (%s)" % show(r, 4)
            self.tables |= tables
        return None

    def numbered(self, r, base, v):
        """r is base and a number, which is recorded for base and is one more than the number that was recorded"""
        if len(v) != 1 or r.k != "call" or last(r.a[0]) != "format":
            return False
        ps = pieces(r.a[1][0])
        if not ps or len(ps) != 3 or not isinstance(ps[1], str) or ps[1][-1:].isdigit() or isinstance(ps[0], str) or isinstance(ps[2], str):
            return False
        n = ps[2][0]
        while n.k == "fld" and n.a[0].k == "bin":
            n = n.a[0]
        m = v[0]
        while m.k == "fld" and m.a[0].k == "bin":
            m = m.a[0]
        if core(ps[0][0]) != base or n != m or n.k != "bin" or not n.a[0].startswith("Add"):
            return False
        one = [x for x in n.a[1:] if x.k == "const" and x.a[0] == 1]
        old = [x for x in n.a[1:] if any(y.k == "call" and last(y.a[0]) in ("get", "get_mut", "remove", "index") and len(y.a[1]) > 1 and core(y.a[1][1]) == base
                                         for y in walk(x, self.E))]
        return bool(one) and bool(old)

    def key(self, x):
        """The table that a call looks in and the text it looks for"""
        n = last(x.a[0])
        while n in ("copied", "cloned", "as_deref", "is_none", "is_some") and x.a[1] and x.a[1][0].k == "call":
            x = x.a[1][0]
            n = last(x.a[0])
        if n in ("contains_key", "contains", "get", "get_mut", "insert") and len(x.a[1]) > 1:
            return n, x.a[1][0], core(x.a[1][1])
        return None

    def impossible(self, facts):
        """Facts that contradict each other: a text is in a table in one state of it and was not before, or the reverse"""
        inn, out = set(), set()
        for k, v in facts.d.items():
            if k.k != "call":
                continue
            x = self.key(k)
            if x is None or x[0] == "insert":
                continue
            if x[0] in ("contains_key", "contains"):
                (inn if v == 1 else out).add(x[1:])
            elif v == frozenset(["None"]):
                out.add(x[1:])
            elif v == frozenset(["Some"]):
                inn.add(x[1:])
        for t, k in out:
            if (t, k) in inn:
                return True
            while t.k == "mutd":
                if any(last(e.a[0]) == "insert" and len(e.a[1]) > 1 and core(e.a[1][1]) == k for e in t.a[1]):
                    return True
                if any(last(e.a[0]) not in ("insert", "reserve", "entry") for e in t.a[1]):
                    break
                t = t.a[0]
                if (t, k) in inn:
                    return True
        return False

    def fields(self, t):
        while t.k == "mutd":
            t = t.a[0]
        return {t.a[1]} if t.k == "fld" else set()

    def absent(self, k, v, r, tables):
        """Whether a fact says that r is not in the table"""
        if k.k != "call" or not k.a[1]:
            return False
        n, x = last(k.a[0]), k
        while n in ("copied", "cloned", "as_deref", "map", "is_none", "is_some") and x.a[1] and x.a[1][0].k == "call":
            x = x.a[1][0]
            n = last(x.a[0])
        if len(x.a[1]) < 2 or core(x.a[1][1]) != r or not (self.fields(x.a[1][0]) & tables):
            return False
        if n in ("contains_key", "contains"):
            return v == 0
        if n in ("get", "get_mut", "get_key_value", "get_full"):
            return v == frozenset(["None"])
        if n == "insert":
            return v == 1 or v == frozenset(["None"])
        return False

    def called(self, t):
        for k, b in self.P.bodies.items():
            if k == t.a[0]:
                return b
        return None

    # --------------------------------------------------------------- writers
    def writers(self):
        for k, b in self.P.bodies.items():
            if last(k) == "fmt" and b.args == 2 and b.kind != "closure" and self.P.types[self.P.peel(b.locals[2][0])].get("def", "").endswith(FORMATTER):
                yield b

    def whole(self, x):
        """The one value a text of holes is, if it is that"""
        m = HOLE.fullmatch(x)
        return int(m.group(1)) if m else None

    def line(self, xs):
        text, vals, n = "", [], 0
        for x in xs:
            if isinstance(x, str):
                text += x
            elif isinstance(x, tuple):
                text += "\x02"
            else:
                vals.append(x)
                text += "\x00%d\x01" % (len(vals) - 1)
        return text, vals

    def texts_of(self, b):
        """The constants of a function, its closures, and the helpers it may call"""
        out, todo, seen = [], [b.path], set()

        def consts(x):
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, dict):
                for y in x.values():
                    consts(y)
            elif isinstance(x, (list, tuple)):
                if len(x) > 2 and all(isinstance(y, int) for y in x):
                    out.append("".join(chr(y) for y in x if 0 < y < 256))
                for y in x:
                    consts(y)
        while todo:
            k = todo.pop()
            if k in seen or k not in self.P.bodies:
                continue
            seen.add(k)
            x = self.P.bodies[k]
            if x is not b and self.stop(x):
                continue
            for blk in x.blocks:
                consts(blk["s"])
                consts(blk["t"])
            for q in x.promoted:
                for blk in q.blocks:
                    consts(blk["s"])
            for bi, t in x.calls():
                c = self.P.callee(t[1])
                if c is not None:
                    todo += [y.path for y in self.P.targets(c)]
            todo += [y for y in self.P.bodies if y.startswith(k + "::{closure")]
        return out

    def writer(self, b, what):
        if not any(re.search(r"""\bid\s*=|["'=]#""", x) for x in self.texts_of(b)):
            return
        try:
            rs = Writes(self.P, self.stop).root(b)
        except TooMany:
            self.R.stats["writers with too many paths"] = self.R.stats.get("writers with too many paths", 0) + 1
            return
        self.R.stats["paths"] = self.R.stats.get("paths", 0) + len(rs)
        for facts, r, env in rs:
            text, vals = self.line(stream(self.P, env.get(2, mk("const", "()"))))
            ids = []
            for m in ID.finditer(text):
                v = next(g for g in m.groups()[1:] if g is not None)
                ids.append(self.source(b, what, v, vals))
            ids = [x for x in ids if x is not None]
            for x in ids:
                self.R.check("once", ids.count(x) == 1, "%s|%s" % (what, show(x, 3)), "%s writes the same id (%s) for two tags" % (what, show(x, 5)))
            for m in HREF.finditer(text):
                i = self.whole(m.group(1))
                ok = i is not None and core(vals[i]) in ids
                self.R.check("link", ok, what, "%s writes a link to #%s but no tag of that id" % (what, show(core(vals[i]), 5) if i is not None else m.group(1)))

    def source(self, b, what, v, vals):
        i = self.whole(v)
        if i is None:
            self.R.fail("source", what + "|" + HOLE.sub("{}", v), "%s writes an id (%s) that is not the one made for it" % (what, HOLE.sub("{}", v)))
            return None
        x = core(vals[i])
        c = self.called(x) if x.k == "call" else None
        ok = c is not None and self.method(c) and self.texts(c)
        why = self.maker(c) if ok else None
        self.R.check("source", ok, "%s|%s" % (what, show(x, 3)), "%s writes an id (%s) that was not made unique" % (what, show(x, 5)))
        if ok:
            self.R.check("made", why is None, c.path, "%s: %s" % (c.path, why))
        return x

    def run(self):
        P, R = self.P, self.R
        self.tables = set()
        fmts = list(self.writers())
        for b in fmts:
            m = re.search(r"::(\w+)(<'_>|<'a>)?>::fmt$", b.path)
            self.writer(b, "the writer of " + (m.group(1) if m else b.path))
        # the table
        makers = {p for p, w in self.memo.items()}
        for k, b in P.bodies.items():
            owner = k.split("::{closure")[0]
            for bi in sorted(b.live_blocks()):
                blk = b.blocks[bi]
                for s in blk["s"]:
                    if s[0] == "=" and s[2][0] == "ref" and s[2][2] and self.of_table(s[2][1]):
                        R.check("table", owner in makers, owner, "%s may change the ids that have been given" % owner)
                    if s[0] == "=" and self.of_table(s[1]):
                        R.fail("table", owner, "%s replaces the ids that have been given" % owner)
        # formatters of their own
        todo, seen = [b.path for b in fmts], set()
        while todo:
            k = todo.pop()
            if k in seen or k not in P.bodies:
                continue
            seen.add(k)
            b = P.bodies[k]
            news = False
            for bi in sorted(b.live_blocks()):
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1].endswith(FORMATTER):
                        news = True
            R.check("own", not news, k, "%s makes another formatter, which doesn't know the ids of the page" % k)
            for bi, t in b.calls():
                c = P.callee(t[1])
                if c is not None:
                    todo += [x.path for x in P.targets(c)]
            for c in P.bodies:
                if c.startswith(k + "::{closure"):
                    todo.append(c)

    def of_table(self, p):
        return any(e[0] == "f" and e[1] in self.tables and len(e) > 3 and str(e[3]).endswith(FORMATTER) for e in p[1])


def run(P, R, tier):
    R.rule("source", "what is written as an id was made by the formatter", 4)
    R.rule("made", "the formatter never makes one id twice", 1)
    R.rule("once", "an id is written for one tag only", 4)
    R.rule("link", "a link to an id of the element leads to one that is written", 1)
    R.rule("table", "only the making of an id changes the table of ids", 1)
    R.rule("own", "writers of elements make no formatter", 20)
    Ids(P, R).run()
