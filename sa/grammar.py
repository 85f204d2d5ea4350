"""What parsers do with the text they consume: which of it they keep, drop, or leave behind."""
import json
import re
from prog import *
from terms import *
from flow import last

SPAN = "vimwiki_core::lang::parsers::span::Span"
SPANFN = "lang::parsers::span::Span<"


def is_span(P, ty):
    t = P.types[P.peel(ty)]
    return t["k"] == "adt" and t.get("def") == SPAN


def parses(P, rty):
    """Whether rty is what a parser returns: the rest of the input and a value, or an error."""
    t = P.types[rty]
    if t["k"] != "adt" or last(t["def"]) != "Result":
        return False
    t = P.types[t["args"][0]]
    return t["k"] == "tuple" and len(t["args"]) == 2 and P.types[t["args"][0]].get("def") == SPAN


class PEval(Eval):
    """Terms where the run of a parser on a span stays a node: call("parse", (parser, span))."""

    def __init__(self, P):
        super().__init__(P, lambda c, b: not self.stop(b))

    def stop(self, b):
        return (b.kind != "closure" and parses(self.P, b.locals[0][0]) and b.args == 1) or self.spanop(b)

    def spanop(self, b):
        return b.file.endswith("parsers/span.rs")

    def parser(self, x):
        if x.k == "clo":
            b = self.P.bodies.get(x.a[0])
            return b is not None and b.args == 2 and parses(self.P, b.locals[0][0])
        if x.k == "fn":
            b = self.P.bodies.get(x.a[0])
            return parses(self.P, b.locals[0][0]) if b is not None else x.a[0].startswith("nom::")
        return x.k == "call" or x.k in ("fld", "arg", "var", "opaque")

    def apply(self, f, args, stack, site):
        if len(args) == 1:
            xs = alts(f)
            if all(self.parser(x) for x in xs):
                return join([mk("call", "parse", (x,) + tuple(args), ()) for x in xs])
        return super().apply(f, args, stack, site)

    def call(self, c, args, stack, site, fr=None):
        n = self.P.cname(c)
        if not (c["def"] in CALL_ONCE and len(args) == 2) and len(args) == 1:
            b = self.P.bodies.get(n)
            if b is not None and b.kind != "closure" and parses(self.P, b.locals[0][0]):
                return mk("call", "parse", (mk("fn", n, n), args[0]), ())
            if b is None and n.startswith("nom::") and last(n) in DIRECT:
                return mk("call", "parse", (mk("fn", n, n), args[0]), ())
        return super().call(c, args, stack, site, fr)


NOTHING, DELIMITER, CHOICE, ANY = range(4)

# parsers of nom that take whitespace, line endings, or nothing
WHITE = {"space0", "space1", "multispace0", "multispace1", "line_ending", "newline", "crlf", "tab", "eof", "rest_len"}
ONE = {"char", "one_of", "anychar", "none_of", "satisfy"}
# nom functions that are parsers themselves; the others build parsers
DIRECT = {"space0", "space1", "multispace0", "multispace1", "line_ending", "newline", "crlf", "tab", "eof", "anychar", "rest", "rest_len",
          "not_line_ending", "digit0", "digit1", "alpha0", "alpha1", "alphanumeric0", "alphanumeric1", "hex_digit0", "hex_digit1"}

# functions of a span that look at it or narrow it: none of what they are given is kept by them,
# and the numbers they are given say where, not what
SPANOPS = {"with_length", "advance_start_by", "backtrack_start_by", "take_split", "take", "slice", "with_deeper_depth", "with_shallower_depth",
           "with_depth", "start_offset", "end_offset", "remaining_len", "input_len", "is_empty", "depth", "consumed_len", "as_consumed",
           "is_only_whitespace", "starts_with", "line_and_column", "offset"}
NARROW = {"with_length", "advance_start_by", "backtrack_start_by", "take_split", "take", "slice", "with_deeper_depth", "with_shallower_depth",
          "with_depth"}
SAME = {"with_deeper_depth", "with_shallower_depth", "with_depth"}
POSITION = {"region", "input"}
THROUGH = {"context", "cut", "complete", "into", "dbg_dmp", "all_consuming", "verify", "opt", "many0", "many1", "many_m_n", "count",
           "many0_count", "many1_count", "consumed"}


def spanop(t):
    return t.k == "call" and t.a[1] and (SPANFN in t.a[0] or "Span<'a> as" in t.a[0] or "span::Span" in t.a[0]) and last(t.a[0]) in SPANOPS


def parse_of(t):
    return t.k == "call" and t.a[0] == "parse"


def split_of(t):
    return t.k == "call" and last(t.a[0]) in ("take_split", "split_at") and "Span" in t.a[0]


def result_of(t):
    """The parse or split of which t is one of the two results: (node, "0" or "1")"""
    if t.k == "fld" and t.a[1] in ("0", "1"):
        x = t.a[0]
        if split_of(x):
            return x, t.a[1]
        if x.k == "payload" and parse_of(x.a[0]):
            return x.a[0], t.a[1]
        if x.k == "fld" and x.a[1] == "0" and x.a[0].k == "var" and x.a[0].a[1] == "Ok" and parse_of(x.a[0].a[0]):
            return x.a[0].a[0], t.a[1]
    return None


class Alt:
    """One way a parser succeeds: what is left, what is made of the rest, and where that is."""

    def __init__(self, frame, arg, rest, value, bi):
        self.frame, self.arg, self.rest, self.value, self.bi = frame, arg, rest, value, bi


class Grammar:
    def __init__(self, P, R):
        self.P, self.R = P, R
        self.E = PEval(P)
        self.memo = {}
        self.kept = set()
        self.todo = []
        self._alts = {}
        self.why = {}

    # ------------------------------------------------------------- parsers
    def combinator(self, p):
        if p.k == "call" and p.a[0].startswith("nom::"):
            return last(p.a[0]), p.a[1]
        return None, ()

    def leaf(self, p):
        if p.k == "fn" and p.a[0].startswith("nom::"):
            return last(p.a[0])
        return None

    def name(self, p):
        if p.k == "clo":
            b = self.P.bodies.get(p.a[0])
            if p.a[1] and "context::{closure" in p.a[0]:
                return self.name(p.a[1][0])
            n = re.sub(r"::\{closure#\d+\}", "", p.a[0])
            return "::".join(n.split("::")[-2:])
        if p.k == "fn":
            return "::".join(p.a[0].split("::")[-2:])
        if p.k == "call":
            n = last(p.a[0])
            return n + "(" + ", ".join(self.name(x) for x in p.a[1]) + ")"
        if p.k == "const":
            return repr(p.a[0])
        if p.k == "agg":
            return ", ".join(self.name(x) for x in p.a[3]) if p.a[0] == "tuple" else last(p.a[0])
        return show(p, 9)

    def alts(self, p):
        """The ways a parser that is a function or closure here succeeds (None: it isn't one)"""
        if p in self._alts:
            return self._alts[p]
        out = None
        b = self.P.bodies.get(p.a[0]) if p.k in ("fn", "clo") else None
        if b is not None and parses(self.P, b.locals[0][0]):
            n = b.args
            arg = mk("arg", b.path, n)
            params = (p, arg) if p.k == "clo" else (arg,)
            if len(params) == n:
                fr = self.E.frame(b, params, (), frozenset())
                out = self.ways(fr, arg)
        self._alts[p] = out
        return out

    def ways(self, fr, arg):
        ev = self.E.events(fr.body, 0)
        reach = ev.all if ev.simple else ev.exit
        out = []
        for e in sorted(reach):
            kind, bi, si, x = ev.events[e]
            if kind == "assign":
                t = fr.rvalue(x, (bi, si))
            elif kind == "call":
                t = fr.call(bi, x)
            else:
                continue
            for y in alts(t):
                out += self.outcome(fr, arg, y, bi)
        return out

    def outcome(self, fr, arg, y, bi, n=0):
        if y.k == "agg" and y.a[1] == "Ok":
            v = y.a[3][0]
            return [Alt(fr, arg, fld(v, "0"), fld(v, "1"), bi)]
        if y.k == "never" or (y.k == "agg" and y.a[1] == "Err") or (y.k == "call" and y.a[0].endswith("from_residual")):
            return []
        if parse_of(y):
            v = payload(y)
            return [Alt(fr, arg, fld(v, "0"), fld(v, "1"), bi)]
        if y.k == "call" and last(y.a[0]) == "map_err" and y.a[1]:
            return [a for z in alts(y.a[1][0]) for a in self.outcome(fr, arg, z, bi)]
        if y.k == "call" and last(y.a[0]) in ("map", "and_then") and "Result" in y.a[0]:
            r = self.E.apply(y.a[1][1], (payload(y.a[1][0]),), fr.stack, None)
            if last(y.a[0]) == "and_then":
                return [a for z in alts(r) for a in self.outcome(fr, arg, z, bi)]
            return [Alt(fr, arg, fld(z, "0"), fld(z, "1"), bi) for z in alts(r)]
        if y.k == "loop" and n < 3:
            return [a for z in children(y, self.E) for w in alts(z) for a in self.outcome(fr, arg, w, bi, n + 1)]
        v = payload(y)
        return [Alt(fr, arg, fld(v, "0"), fld(v, "1"), bi)]

    # --------------------------------------------------------------- facts
    def facts(self, fr, bi, edge=None):
        """What is known where control is at block bi: (term, value) and (term, None, values it isn't)"""
        b = fr.body
        dom = b.dominators()
        out = []
        pairs = [(s, t) for t in dom.get(bi, ()) for s in b.preds()[t] if len(b.preds()[t]) == 1]
        if edge:
            pairs.append(edge)
        for s, t in pairs:
            term = b.blocks[s]["t"]
            if term[0] != "switch":
                continue
            d = fr.operand(term[1], (s, len(b.blocks[s]["s"])))
            hit = [int(v) for v, x in term[2] if x == t]
            if hit and term[3] != t:
                if len(hit) == 1:
                    out.append((d, hit[0], ()))
            elif term[3] == t and not hit:
                out.append((d, None, tuple(int(v) for v, x in term[2])))
        return out

    def succeeded(self, facts):
        """Runs of parsers that are known to have succeeded"""
        for d, v, no in facts:
            if d.k == "discr":
                for x in alts(d.a[0]):
                    if x.k == "call" and x.a[0] == "Try>::branch":
                        x = x.a[1][0]
                    if parse_of(x) and (v == 0 or (v is None and 1 in no)):
                        yield x
            if d.k == "call" and last(d.a[0]) == "is_ok" and parse_of(d.a[1][0]) and (v == 1 or (v is None and 0 in no)):
                yield d.a[1][0]

    def true(self, facts):
        for d, v, no in facts:
            t = v == 1 or (v is None and 0 in no)
            f = v == 0
            while d.k == "un" and d.a[0] == "Not":
                d, t, f = d.a[1], f, t
            if t or f:
                yield d, t

    # ------------------------------------------------------- text (level)
    # How much the text a parser takes may tell: nothing (no text, whitespace, line endings), nothing
    # more (one delimiter, or a run of one), which of several given texts it is, or anything
    def once(self, what, p, default):
        key = (what, p)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = default
        r = getattr(self, "_" + what)(p)
        self.memo[key] = r
        return r

    def level(self, p):
        return max(self.once("level", x, NOTHING) for x in alts(p))

    def blank(self, p):
        """Whether dropping the text a parser takes drops nothing: delimiters, whitespace, line endings"""
        return self.level(p) <= DELIMITER

    def choice(self, ls):
        """Level of one of several"""
        m = max(ls)
        return max(m, CHOICE) if sum(1 for x in ls if x >= DELIMITER) > 1 else m

    def _level(self, p):
        n = self.leaf(p)
        if n is not None:
            return NOTHING if n in WHITE else ANY
        c, a = self.combinator(p)
        if c is not None:
            if c in ("tag", "char", "tag_no_case"):
                x = a[0]
                return NOTHING if x.k == "const" and self.chars(x).strip() == "" else DELIMITER
            if c in ("success", "fail", "peek", "not"):
                return NOTHING
            if c in ("one_of", "is_a"):
                return NOTHING if a[0].k == "const" and self.chars(a[0]).strip() == "" else CHOICE
            if c in ("take_while", "take_while1", "satisfy", "take_while_m_n"):
                return self.fixed(a[-1])
            if c == "value":
                return self.level(a[1])
            if c == "verify":
                return min(self.level(a[0]), self.fixed(a[1]))
            if c in ("opt", "cond"):
                return self.choice([NOTHING, self.level(a[-1])] * 2) if self.level(a[-1]) else NOTHING
            if c == "alt":
                return self.choice([self.level(x) for x in self.parts(a)])
            if c in ("map", "map_res", "map_opt", "recognize", "map_parser", "fold_many0", "fold_many1", "flat_map") or c in THROUGH:
                return self.level(a[-1] if c in ("many_m_n",) else a[0])
            if c in ("pair", "separated_pair", "preceded", "terminated", "delimited", "separated_list0", "separated_list1", "tuple", "many_till"):
                return max(self.level(x) for x in self.parts(a))
            return ANY
        ws = self.alts(p)
        if not ws:
            return ANY
        return self.choice([self.levelrest(w, w.rest) for w in ws]) if len(ws) > 1 else self.levelrest(ws[0], ws[0].rest)

    def chars(self, x):
        v = x.a[0]
        while isinstance(v, tuple) and v:
            v = v[-1]
        return v if isinstance(v, str) else "?"

    def parts(self, a):
        out = []
        for x in a:
            if x.k == "agg" and x.a[0] == "tuple":
                out += x.a[3]
            else:
                out.append(x)
        return out

    def fixed(self, f):
        """Level of the text for which a predicate holds"""
        x = mk("opaque", "text")
        ways = self.truths(f, (x,))
        if ways is not None:
            ls = [min([self.fixedfact(y) for y in fs], default=ANY) for fs in ways]
            if ls and max(ls) < ANY:
                return self.choice(ls) if sum(1 for l in ls if l) else NOTHING
        return max(self.fixedterm(t, x) for t in alts(self.E.apply(f, (x,), frozenset(), None)))

    def fixedfact(self, fact):
        d, v, no = fact
        if v is not None and d.k not in ("discr", "bin", "call", "un") and isinstance(v, int) and v > 1:
            return NOTHING if v < 128 and not chr(v).strip() else DELIMITER
        for t, true in self.true([fact]):
            if true:
                return self.fixedterm(t, None)
        return ANY

    def truths(self, f, args):
        """The facts for which a function of this crate returns true, one list for each of its paths (None: not known)"""
        xs = alts(f)
        if len(xs) != 1 or xs[0].k not in ("fn", "clo"):
            return None
        f = xs[0]
        b = self.P.bodies.get(f.a[0])
        if b is None or self.P.types[b.locals[0][0]]["s"] != "bool":
            return None
        params = ((f,) if f.k == "clo" else ()) + tuple(args)
        if len(params) != b.args:
            return None
        fr = self.E.frame(b, params, (), frozenset())
        out, n = [], 0
        todo = [(0, (), None, frozenset())]
        while todo:
            x, fs, val, seen = todo.pop()
            n += 1
            if x in seen or n > 400:
                return None
            seen = seen | {x}
            blk = b.blocks[x]
            for si, st in enumerate(blk["s"]):
                if st[0] == "=" and st[1][0] == 0 and not st[1][1]:
                    val = fr.rvalue(st[2], (x, si))
            t = blk["t"]
            if t[0] == "ret":
                if val is None:
                    return None
                if val.k != "const":
                    out.append(fs + ((val, 1, ()),))
                elif val.a[0] not in (False, 0):
                    out.append(fs)
                continue
            if t[0] == "call" and t[3][0] == 0 and not t[3][1]:
                val = fr.call(x, t)
            if t[0] == "switch":
                d = fr.operand(t[1], (x, len(blk["s"])))
                for v, y in t[2]:
                    todo.append((y, fs + ((d, int(v), ()),), val, seen))
                todo.append((t[3], fs + ((d, None, tuple(int(v) for v, _ in t[2])),), val, seen))
                continue
            todo += [(y, fs, val, seen) for y in b.succ(x) if not b.blocks[y].get("cleanup")]
        return out

    def white(self, v):
        """A constant that is a character of whitespace"""
        if isinstance(v, bool) or not isinstance(v, int):
            v = self.chars(mk("const", v)) if not isinstance(v, (int, str)) else v
            return isinstance(v, str) and len(v) == 1 and not v.strip()
        return 1 < v < 128 and not chr(v).strip()

    def fixedterm(self, t, x):
        if t.k == "join":
            return max(self.fixedterm(y, x) for y in alts(t))
        if t.k == "const" and t.a[0] in (False, 0):
            return NOTHING
        if t.k == "bin" and t.a[0] == "Eq":
            if any(y.k == "const" and self.white(y.a[0]) for y in t.a[1:]):
                return NOTHING
            return DELIMITER if t.a[1].k == "const" or t.a[2].k == "const" else ANY
        if t.k == "call":
            n = last(t.a[0])
            if n in ("is_only_whitespace", "is_whitespace", "is_ascii_whitespace", "is_space", "is_newline"):
                return NOTHING
            if n == "all" and len(t.a[1]) == 2:
                return self.fixed(t.a[1][1])
            if n == "eq":
                return DELIMITER if any(y.k == "const" for y in t.a[1]) else ANY
        return ANY

    def levelrest(self, w, r, seen=()):
        """Level of what lies between the input of a parser and r"""
        if r in seen or r == w.arg:
            return NOTHING
        seen = seen + (r,)
        if r.k == "join":
            return max(self.levelrest(w, x, seen) for x in alts(r))
        if r.k == "loop":
            return max([self.levelrest(w, x, seen) for x in children(r, self.E)], default=ANY)
        n = result_of(r)
        if n is not None:
            node, i = n
            if parse_of(node):
                return max(self.levelrun(w, node), self.levelrest(w, node.a[1][1], seen)) if i == "0" else ANY
            other = fld(node, "1" if i == "0" else "0")
            return max(DELIMITER, self.levelrest(w, node.a[1][0], seen)) if self.compared(w, other) else ANY
        if spanop(r) and last(r.a[0]) in SAME:
            return self.levelrest(w, r.a[1][0], seen)
        if spanop(r) and last(r.a[0]) == "slice" and self.trimmed(w, r):
            return self.levelrest(w, r.a[1][0], seen)
        return ANY

    def levelrun(self, w, node):
        """Level of what a parser takes here, where another one may have succeeded on it"""
        p, s = node.a[1]
        m = self.level(p)
        if m == ANY and self.one(p):
            for x in self.succeeded(self.facts(w.frame, w.bi)):
                q = self.unpeeked(x.a[1][0])
                if x != node and self.root(x.a[1][1]) == self.root(s) and not self.zero(q):
                    m = min(m, self.level(q))
        return m

    def one(self, p):
        return self.leaf(p) in ONE or self.combinator(p)[0] in ONE or \
            (self.combinator(p)[0] == "take" and self.combinator(p)[1][0].k == "const" and self.combinator(p)[1][0].a[0] in (1, True))

    def unpeeked(self, p):
        while self.combinator(p)[0] == "peek":
            p = self.combinator(p)[1][0]
        return p

    def zero(self, p):
        """A parser that may succeed without taking anything"""
        c, a = self.combinator(p)
        if c in ("not", "success", "opt", "many0", "cond", "separated_list0", "take_while"):
            return True
        if self.leaf(p) in ("space0", "multispace0", "eof", "rest", "rest_len"):
            return True
        return False

    def root(self, s):
        """The span s is at the start of, parsers that take nothing aside"""
        while True:
            n = result_of(s)
            if n and n[1] == "0" and parse_of(n[0]) and self.combinator(n[0].a[1][0])[0] in ("not", "peek"):
                s = n[0].a[1][1]
                continue
            if spanop(s) and last(s.a[0]) in SAME:
                s = s.a[1][0]
                continue
            return s

    def compared(self, w, t):
        """Whether t is known to be equal to something given"""
        for d, v in self.true(self.facts(w.frame, w.bi)):
            if d.k == "call" and last(d.a[0]) in ("eq", "ne") and len(d.a[1]) == 2 and v == (last(d.a[0]) == "eq"):
                for i in (0, 1):
                    if self.bytes_of(d.a[1][i]) == t and not any(y == w.arg for y in walk(d.a[1][1 - i], self.E)):
                        return True
        return False

    def bytes_of(self, t):
        while t.k == "call" and len(t.a[1]) == 1 and last(t.a[0]) in ("as_bytes", "as_ref", "deref", "as_remaining", "as_unsafe_remaining_str", "borrow"):
            t = t.a[1][0]
        return t

    def trimmed(self, w, r):
        """slice(s, ..len - n) where n counts the whitespace s ends with"""
        for x in walk(r.a[1][1], self.E):
            n = result_of(x)
            if n and n[1] == "1" and parse_of(n[0]):
                for a in self.alts(self.body(n[0].a[1][0])) or ():
                    if self.counts_space(a):
                        return True
        return False

    def body(self, p):
        """A parser without the context it is given"""
        while p.k == "clo" and "context::{closure" in p.a[0] and p.a[1]:
            p = p.a[1][0]
        b = self.P.bodies.get(p.a[0]) if p.k == "fn" else None
        if b is not None:
            ws = self.alts(p)
            if ws and len(ws) == 1:
                n = result_of(ws[0].rest)
                if n and n[1] == "0" and n[0].a[1][1] == ws[0].arg and ws[0].value == fld(payload(n[0]), "1"):
                    return self.body(n[0].a[1][0])
        return p

    def counts_space(self, w):
        """A count that grows only where a byte is whitespace"""
        fr = w.frame
        b = fr.body
        for bi in sorted(b.live_blocks()):
            for si, s in enumerate(b.blocks[bi]["s"]):
                if s[0] == "=" and s[2][0] == "bin" and s[2][1].startswith("Add"):
                    if not any(v and d.k == "call" and last(d.a[0]) in ("is_space", "is_whitespace", "is_ascii_whitespace")
                               for d, v in self.true(self.facts(fr, bi))):
                        return False
                    return w.rest == w.arg
        return False

    # ---------------------------------------------------------------- uses
    def uses(self, t, w):
        """What t is made of: node -> {"0": True, "1": None or a set of fields}, and whether the input itself is part of it"""
        out, bare, seen, todo = {}, False, set(), [t]

        def use(node, i, mask=None):
            d = out.setdefault(node, {})
            if i == "0":
                d["0"] = True
            elif mask is None or d.get("1", ()) is None:
                d["1"] = None
            else:
                d["1"] = set(d.get("1") or ()) | {mask}
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x == w.arg:
                bare = True
                continue
            names, y = [], x
            while True:
                n = result_of(y)
                if n is not None:
                    break
                if y.k == "fld":
                    names.append(y.a[1])
                elif y.k not in ("var", "payload", "elem", "sub"):
                    break
                y = y.a[0]
            if n is not None:
                node, i = n
                if i == "0" or not (set(names) & POSITION):
                    use(node, i, names[-1] if names and names[-1].isdigit() else None)
                todo += self.inputs(node)
                continue
            if names and set(names) & POSITION:
                continue
            if spanop(x):
                if last(x.a[0]) in NARROW:
                    todo += self.narrowed(x, use)
                continue
            todo += children(x, self.E)
        # a run whose input is the whole of a span does not make that span part of the value
        return out, bare

    def inputs(self, node):
        if not parse_of(node):
            return [node.a[1][0]]
        out = [node.a[1][1]]

        def captured(p):
            c, a = self.combinator(p)
            if c == "verify":
                captured(a[0])
            elif c in ("peek", "not"):
                pass
            elif c is not None:
                for y in self.parts(a):
                    captured(y)
            elif p.k == "clo":
                for y in p.a[1]:
                    captured(y)
            elif p.k not in ("fn", "const"):
                out.append(p)
        captured(node.a[1][0])
        return out

    def narrowed(self, x, use):
        a = x.a[1]
        to = self.advanced(x)
        if to is not None:
            return [to, a[0]]
        return [a[0]]

    def advanced(self, x):
        """advance_start_by(s, start_offset(t) - start_offset(s)) is at the start of t"""
        a = x.a[1]
        if last(x.a[0]) == "advance_start_by" and len(a) == 2 and a[1].k == "bin" and a[1].a[0].startswith("Sub"):
            l, r = a[1].a[1], a[1].a[2]
            if all(spanop(y) and last(y.a[0]) == "start_offset" for y in (l, r)) and self.root(r.a[1][0]) == self.root(a[0]):
                return l.a[1][0]
        return None

    def skips(self, w, r, seen=()):
        """The first place where r moves past text of the input that no parser took, and the value doesn't have"""
        if r in seen or r == w.arg:
            return None
        seen = seen + (r,)
        if r.k in ("join", "loop"):
            for x in children(r, self.E):
                s = self.skips(w, x, seen)
                if s is not None:
                    return s
            return None
        n = result_of(r)
        if n is not None:
            node, i = n
            return self.skips(w, node.a[1][1] if parse_of(node) else node.a[1][0], seen)
        if spanop(r):
            op, a = last(r.a[0]), r.a[1]
            if op in SAME:
                return self.skips(w, a[0], seen)
            if op == "advance_start_by":
                to = self.advanced(r)
                if to is not None:
                    return self.skips(w, a[0], seen)
                return self.skips(w, a[0], seen) if self.taken(w, a[0], a[1]) else r
            if op == "slice":
                if self.trimmed(w, r):
                    return self.skips(w, a[0], seen)
                n = a[1].a[3][0] if a[1].k == "agg" and a[1].a[3] else None
                if n is not None and last(a[1].a[0]) == "RangeFrom" and self.taken(w, a[0], n):
                    return self.skips(w, a[0], seen)
                return r
            if op in ("with_length", "take", "backtrack_start_by"):
                return r
        return None

    def taken(self, w, s, n):
        """Whether the value has the first n bytes of s"""
        for x in walk(w.value, self.E):
            if spanop(x) and len(x.a[1]) == 2 and self.root(x.a[1][0]) == self.root(s):
                m = x.a[1][1]
                if last(x.a[0]) in ("with_length", "take") and m == n:
                    return True
                if last(x.a[0]) == "slice" and m.k == "agg" and last(m.a[0]) == "RangeTo" and m.a[3][0] == n:
                    return True
        return False

    # --------------------------------------------------------------- total
    def total(self, p):
        """Whether a parser succeeds only where it takes all of its input (but for what follows a line ending, see inline)"""
        return all(self.once("total", x, True) for x in alts(p))

    def _total(self, p):
        n = self.leaf(p)
        if n is not None:
            return n in ("rest", "eof")
        c, a = self.combinator(p)
        if c is not None:
            if c in ("all_consuming", "rest"):
                return True
            if c in ("map", "map_res", "map_opt", "verify", "recognize", "map_parser", "consumed", "into", "cut", "complete", "context"):
                return self.total(a[0])
            if c == "value":
                return self.total(a[1])
            if c == "alt":
                return all(self.total(x) for x in self.parts(a))
            if c in ("pair", "tuple", "preceded", "terminated", "delimited", "separated_pair", "many_till"):
                return self.total(self.parts(a)[-1])
            if c in ("many0", "many1", "fold_many0", "fold_many1"):
                return self.total(a[0]) or self.anything(a[0])
            return False
        ws = self.alts(p)
        if not ws:
            return False
        return all(self.totalway(w) for w in ws)

    def totalway(self, w):
        if self.totalrest(w, w.rest):
            return True
        us, bare = self.uses(w.value, w)
        return w.rest == w.arg and bare and not us

    def totalrest(self, w, r, seen=()):
        if r in seen:
            return True
        seen = seen + (r,)
        if r.k == "join":
            return all(self.totalrest(w, x, seen) for x in alts(r))
        if self.emptied(w, r):
            return True
        n = result_of(r)
        if n is not None and parse_of(n[0]) and n[1] == "0":
            return self.total(n[0].a[1][0]) or self.totalrest(w, n[0].a[1][1], seen)
        if spanop(r) and last(r.a[0]) in SAME:
            return self.totalrest(w, r.a[1][0], seen)
        return False

    def emptied(self, w, r):
        """Whether r is known to be empty where a parser succeeds"""
        for d, v in self.true(self.facts(w.frame, w.bi)):
            if v and d.k == "call" and last(d.a[0]) == "is_empty" and self.root(d.a[1][0]) == self.root(r):
                return True
            if v and d.k == "bin" and d.a[0] == "Eq" and any(x.k == "const" and x.a[0] in (0, False) for x in d.a[1:]):
                for x in d.a[1:]:
                    if spanop(x) and last(x.a[0]) in ("remaining_len", "input_len") and self.root(x.a[1][0]) == self.root(r):
                        return True
                    if self.lenof(x, r):
                        return True
        for d, v, no in self.facts(w.frame, w.bi):
            if v == 0 and (self.lenof(d, r) or (spanop(d) and last(d.a[0]) in ("remaining_len", "input_len") and self.root(d.a[1][0]) == self.root(r))):
                return True
            if v == 0 and d.k == "bin" and d.a[0] in ("Gt", "Ne") and d.a[2].k == "const" and d.a[2].a[0] in (0, False) and \
                    (self.lenof(d.a[1], r) or (spanop(d.a[1]) and last(d.a[1].a[0]) in ("remaining_len", "input_len") and self.root(d.a[1].a[1][0]) == self.root(r))):
                return True
        return False

    def lenof(self, x, r):
        """x is the number of bytes left, found by a parser that left r"""
        n, m = result_of(x), result_of(r)
        return n is not None and m is not None and n[0] == m[0] and n[1] == "1" and m[1] == "0" and parse_of(n[0]) and \
            (self.leaf(n[0].a[1][0]) == "rest_len" or "count_remaining_bytes" in str(n[0].a[1][0].a[0]))

    # ------------------------------------------------- any text is an element
    def plain(self, p):
        """A parser without what only names, locates or maps what it finds"""
        while True:
            c, a = self.combinator(p)
            if c in ("map", "cut", "complete", "into"):
                p = a[0]
                continue
            if c == "preceded" and self.combinator(a[0])[0] == "peek":
                p = a[1]
                continue
            q = self.wrapped(p)
            if q is None:
                return p
            p = q

    def wrapped(self, p):
        """The parser that p is, except for depth and position"""
        ws = self.alts(p)
        if not ws or len(ws) != 1:
            return None
        w = ws[0]
        r = w.rest
        while spanop(r) and last(r.a[0]) in SAME:
            r = r.a[1][0]
        n = result_of(r)
        if n is None or n[1] != "0" or not parse_of(n[0]) or self.root(n[0].a[1][1]) != w.arg:
            return None
        us, bare = self.uses(w.value, w)
        if set(us) != {n[0]} or "1" not in us[n[0]]:
            return None
        return n[0].a[1][0]

    def anything(self, p):
        """Whether one of the alternatives of p is text that ends only where the line does or where another alternative begins"""
        p = self.plain(p)
        while self.combinator(p)[0] not in ("alt",):
            return False
        xs = [self.plain(x) for x in self.parts(self.combinator(p)[1])]
        for i, x in enumerate(xs):
            why = self.textual(x, set(xs[:i]))
            if why is True:
                return True
            if why:
                self.why[p] = why
        return False

    def textual(self, p, others):
        """True if p is such text, why not if it has that form, None if it hasn't"""
        ws = self.alts(p)
        if not ws or len(ws) != 1 or not spanop(ws[0].rest) or last(ws[0].rest.a[0]) != "advance_start_by":
            return None
        w = ws[0]
        fr, b = w.frame, w.frame.body
        dom = b.dominators()
        heads = {}
        for x in b.live_blocks():
            for s in b.succ(x):
                if s in dom[x]:
                    heads.setdefault(s, set()).add(x)
        if len(heads) != 1:
            return None
        h, backs = next(iter(heads.items()))
        loop, todo = {h}, list(backs)
        while todo:
            x = todo.pop()
            if x not in loop:
                loop.add(x)
                todo += b.preds()[x]
        for x in sorted(loop):
            for s in b.succ(x):
                if s in loop or b.blocks[s].get("cleanup"):
                    continue
                fs = self.facts(fr, x, (x, s))
                asked = self.asked(fr, x, (x, s))
                if not self.ends(fr, fs, others, asked) and not self.helped(fr, x, (x, s), others, asked):
                    return "text may end where no other element begins (%s)" % b.path
        return True

    def helped(self, fr, bi, edge, others, asked):
        """Whether a function has found that text ends here"""
        b = fr.body
        dom = b.dominators()
        pairs = [(s, t) for t in dom.get(bi, ()) for s in b.preds()[t] if len(b.preds()[t]) == 1] + [edge]
        for s, t in pairs:
            term = b.blocks[s]["t"]
            if term[0] != "switch" or term[1][0] not in ("cp", "mv") or term[1][1][1]:
                continue
            no = [x for v, x in term[2] if int(v) == 0]
            if not no or no[0] == t:
                continue
            for ev in b.defs().get(term[1][1][0], ()):
                if ev[2] != "call":
                    continue
                c = self.P.callee(ev[3][1])
                if c is None or c["def"] in CALL_ONCE:
                    continue
                n = self.P.cname(c)
                args = tuple(fr.operand(o, (ev[0], len(b.blocks[ev[0]]["s"]))) for o in ev[3][2])
                ways = self.truths(mk("fn", n, n), args)
                if ways and all(self.ends(fr, fs, others, asked) for fs in ways):
                    return True
        return False

    def length(self, x):
        return (x.k == "un" and x.a[0] == "PtrMetadata") or (x.k == "call" and last(x.a[0]) == "len")

    def endline(self, x):
        """A constant that begins with a line ending"""
        if x.k != "const":
            return False
        v = x.a[0]
        while isinstance(v, tuple) and v:
            v = v[-1]
        if isinstance(v, (bytes, bytearray)):
            v = v.decode("latin1")
        return v in (10, 13) if isinstance(v, int) else isinstance(v, str) and v.startswith(("\n", "\r\n"))

    def ends(self, fr, fs, others, asked):
        bytes_ = {}
        for d, v in self.true(fs):
            if v and d.k == "call" and last(d.a[0]) == "starts_with" and self.endline(d.a[1][1]):
                return True
            if d.k == "bin" and d.a[0] == "Eq" and v:
                for x in d.a[1:]:
                    if x.k == "const" and isinstance(x.a[0], int):
                        bytes_[x.a[0]] = d
            if v and d.k == "call" and last(d.a[0]) == "is_empty":
                return True
            if not v and d.k == "bin" and d.a[0] == "Gt" and d.a[2].k == "const" and not d.a[2].a[0]:
                return True
            if v and d.k == "bin" and d.a[0] == "Eq" and any(x.k == "const" and x.a[0] in (0, False) for x in d.a[1:]) and \
                    any(spanop(x) or self.length(x) for x in d.a[1:]):
                return True
        for d, v, no in fs:
            if v == 0 and spanop(d) and last(d.a[0]) in ("remaining_len", "input_len"):
                return True
            if v == 10:
                bytes_[10] = d
            if v == 13:
                bytes_[13] = d
        if 10 in bytes_:
            return True
        for x in self.succeeded(fs):
            q = self.plain(x.a[1][0])
            kinds = self.parts(self.combinator(q)[1]) if self.combinator(q)[0] == "alt" else [q]
            if all(self.known(k, others, asked) for k in kinds):
                return True
        return False

    def asked(self, fr, bi, edge):
        """The predicates known to hold of the element that has been found: the kinds they hold for"""
        b = fr.body
        dom = b.dominators()
        out = []
        pairs = [(s, t) for t in dom.get(bi, ()) for s in b.preds()[t] if len(b.preds()[t]) == 1] + [edge]
        for s, t in pairs:
            term = b.blocks[s]["t"]
            if term[0] != "switch" or term[1][0] not in ("cp", "mv") or term[1][1][1]:
                continue
            yes = [x for v, x in term[2] if int(v) == 0]
            if not yes or yes[0] == t:
                continue
            for ev in b.defs().get(term[1][1][0], ()):
                if ev[2] != "call":
                    continue
                c, a = self.P.callee(ev[3][1]), ev[3][2]
                if c is not None and c["def"] not in CALL_ONCE:
                    continue
                f = fr.operand(a[0] if c is not None else ev[3][1], (ev[0], len(b.blocks[ev[0]]["s"])))
                for g in alts(f):
                    k = self.kinds(g)
                    if k is not None:
                        out.append(k)
        return out

    def kinds(self, f):
        """The variants of its argument for which a predicate may be true (None: any)"""
        b = self.P.bodies.get(f.a[0]) if f.k in ("clo", "fn") else None
        if b is None:
            return None
        n = b.args
        arg = mk("arg", b.path, n)
        fr = self.E.frame(b, (f, arg) if f.k == "clo" else (arg,), (), frozenset())
        ev = self.E.events(b, 0)
        out = set()
        adt = self.P.t(self.P.peel(b.locals[n][0]))
        names = [v["name"] for v in self.P.adts.get(adt.get("def"), {}).get("variants", ())]
        for e in ev.all:
            kind, bi, si, x = ev.events[e]
            if kind != "assign":
                return None
            t = fr.rvalue(x, (bi, si))
            if t.k != "const":
                return None
            if t.a[0] in (False, 0):
                continue
            # which variants lead here
            reach = self.leading(b, fr, bi, arg)
            if reach is None:
                return None
            out |= {names[i] for i in reach if i < len(names)}
        return out

    def leading(self, b, fr, bi, arg):
        out = set()
        for s in b.live_blocks():
            t = b.blocks[s]["t"]
            if t[0] != "switch":
                continue
            d = fr.operand(t[1], (s, len(b.blocks[s]["s"])))
            if d.k == "discr" and d.a[0] == arg:
                for v, x in t[2]:
                    if self.goes(b, x, bi):
                        out.add(int(v))
                if self.goes(b, t[3], bi):
                    return None
                return out
        return None

    def goes(self, b, x, y):
        seen, todo = set(), [x]
        while todo:
            z = todo.pop()
            if z == y:
                return True
            if z in seen:
                continue
            seen.add(z)
            todo += b.succ(z)
        return False

    def variant(self, k):
        """The kind of element a parser makes, if it is one"""
        c, a = self.combinator(k)
        if c != "map":
            return None
        x = mk("opaque", "val")
        t = self.E.apply(a[1], (x,), frozenset(), None)
        for y in walk(t, self.E):
            if y.k == "agg" and y.a[1] and last(y.a[0]) != y.a[1]:
                return y.a[1]
        return None

    def known(self, k, others, asked):
        """Whether an element is also one of the others, or isn't one the text ends at"""
        v = self.variant(k)
        if v is not None and any(v not in ks for ks in asked):
            return True
        q = self.plain(k)
        if q in others or any(self.among(q, o) for o in others):
            return True
        ws = self.alts(q)
        if ws and len(ws) == 1:
            n = result_of(ws[0].rest)
            if n and n[1] == "0" and parse_of(n[0]):
                s = self.root(n[0].a[1][1])
                if spanop(s) and last(s.a[0]) == "backtrack_start_by" and any(self.among(self.plain(n[0].a[1][0]), o) for o in others):
                    return True
        return False

    def among(self, q, o):
        if q == o:
            return True
        c, a = self.combinator(o)
        return c == "alt" and any(self.among(q, self.plain(x)) for x in self.parts(a))

    # ------------------------------------------------------- no line endings
    def noline(self, p):
        """Whether what a parser returns never holds a line feed"""
        return all(self.once("noline", x, True) for x in alts(p))

    def _noline(self, p):
        n = self.leaf(p)
        if n is not None:
            return n in ("not_line_ending", "space0", "space1", "digit0", "digit1", "alpha0", "alpha1", "alphanumeric0", "alphanumeric1")
        c, a = self.combinator(p)
        if c is not None:
            if c in ("verify", "map", "cut", "complete", "recognize", "context", "all_consuming"):
                return self.noline(a[0])
            if c in ("map_parser", "preceded"):
                return self.noline(a[1]) or (c == "map_parser" and self.noline(a[0]))
            if c == "delimited":
                return self.noline(a[1])
            if c == "terminated":
                return self.noline(a[0])
            if c == "alt":
                return all(self.noline(x) for x in self.parts(a))
            if c in ("take_while", "take_while1"):
                x = mk("opaque", "text")
                return any(y.k == "call" and "whitespace" in last(y.a[0]) for y in walk(self.E.apply(a[0], (x,), frozenset(), None), self.E))
            return False
        ws = self.alts(p)
        return bool(ws) and all(self.noline_value(w) for w in ws)

    def noline_value(self, w):
        """The value is the result of a run that has none, or a part split off in a function that looks for them"""
        v = w.value
        for x in alts(v):
            n = result_of(self.root(x))
            if n is None:
                return False
            if parse_of(n[0]):
                if self.noline(n[0].a[1][0]):
                    continue
                if self.combinator(n[0].a[1][0])[0] == "not" or n[1] == "0":
                    # what another run left or was given
                    return False
            if not self.feeds(w.frame.body):
                return False
        return True

    def feeds(self, b):
        """Whether a function (or a closure of it) has the line feed as a constant"""
        for k in self.P.bodies:
            if k == b.path or k.startswith(b.path + "::"):
                for blk in self.P.bodies[k].blocks:
                    if '"v": 10,' in json.dumps(blk) or '"v": 10}' in json.dumps(blk):
                        return True
        return False

    # ---------------------------------------------------------------- keep
    def keep(self, p, mask=None):
        for x in alts(p):
            key = (x, None if mask is None else frozenset(mask))
            if key not in self.kept:
                self.kept.add(key)
                self.todo.append((x, mask))

    def run(self, p):
        self.keep(p)
        while self.todo:
            self.kept_one(*self.todo.pop())

    def drop(self, where, p, how):
        """The value of p isn't used: what it takes has to be worth nothing"""
        l = self.level(p)
        ok = l <= DELIMITER
        self.R.check("dropped", ok, "%s|%s" % (where, self.name(p)),
                     "%s drops what %s takes (%s), which may be %s" % (where, self.name(p), how, "any text" if l == ANY else "one of several texts"))

    def whole(self, where, p, q, how):
        """p is run on a part of the input (that q takes) and what it leaves of it is dropped"""
        ok = self.total(p)
        why = "; ".join(sorted(set(self.why.values())))
        self.R.check("left", ok, "%s|%s" % (where, self.name(p)),
                     "%s drops what %s leaves of the text set aside for it (%s)%s" % (where, self.name(p), how, ": " + why if why else ""))
        if ok and q is not None and self.lines(p):
            self.R.check("line", self.noline(q), "%s|%s" % (where, self.name(q)),
                         "%s sets aside text that may hold a line ending (%s), where %s stops" % (where, self.name(q), self.name(p)))

    def lines(self, p):
        """Whether p takes everything only of a line"""
        c, a = self.combinator(self.plain(p))
        if c in ("many0", "many1"):
            return not self.total(a[0])
        if c in ("map", "map_res", "map_opt", "verify"):
            return self.lines(a[0])
        ws = self.alts(p)
        if not ws:
            return False
        for w in ws:
            n = result_of(w.rest)
            if n and parse_of(n[0]) and n[1] == "0" and not self.emptied(w, w.rest) and self.lines(n[0].a[1][0]):
                return True
        q = self.wrapped(p)
        return q is not None and self.lines(q)

    def usage(self, f, mask, at=0, n=1):
        """Which fields of its argument what f makes has: None for all of it, an empty set for none"""
        x = mk("opaque", "val")
        if f.k in ("fn", "clo"):
            b = self.P.bodies.get(f.a[0])
            if b is None:
                return None
            if f.k == "fn" and b.args != n:
                return None
        elif f.k != "join":
            return None
        out = set()
        for g in alts(f):
            args = tuple(x if i == at else mk("opaque", "other%d" % i) for i in range(n))
            t = self.E.apply(g, args, frozenset(), None)
            if t.k == "call" and t.a[0] == "parse":
                return None
            for y in alts(t):
                ys = [y]
                if mask is not None and y.k == "agg" and y.a[0] == "tuple":
                    ys = [v for i, v in zip(y.a[2], y.a[3]) if i in mask]
                for z in ys:
                    o = self.occurs(z, x)
                    if o is None:
                        return None
                    out |= o
        return out

    def occurs(self, t, x):
        out, seen, todo = set(), set(), [t]
        while todo:
            y = todo.pop()
            if y in seen:
                continue
            seen.add(y)
            names, z = [], y
            while z.k in ("fld", "var", "payload", "elem", "sub") and z != x:
                if z.k == "fld":
                    names.append(z.a[1])
                z = z.a[0]
            if z == x:
                if set(names) & POSITION:
                    continue
                if names and names[-1].isdigit():
                    out.add(names[-1])
                    continue
                return None
            if spanop(y) and last(y.a[0]) not in NARROW and last(y.a[0]) not in ("remaining_len", "input_len", "is_empty"):
                continue
            todo += children(y, self.E)
        return out

    def kept_one(self, p, mask):
        if self.leaf(p) is not None:
            return
        c, a = self.combinator(p)
        where = None
        if c is not None:
            n = self.name(p)
            xs = self.parts(a)
            if c in ("map", "map_res", "map_opt"):
                m = self.usage(a[1], mask)
                l = self.loses(a[1])
                self.R.check("lossy", l is None, self.name(a[1]), "%s leaves out some of what %s has parsed (%s)" % (self.name(a[1]), self.name(a[0]), l))
                if m == set():
                    self.drop("map", a[0], "the function it is given to ignores it")
                else:
                    self.keep(a[0], m)
            elif c == "value":
                self.marker(a[0], a[1])
            elif c == "map_parser":
                if self.level(a[0]) > NOTHING:
                    self.whole("map_parser", a[1], a[0], "after " + self.name(a[0]))
                self.keep(a[0])
                self.keep(a[1], mask)
            elif c in ("peek", "not"):
                pass
            elif c == "recognize":
                pass
            elif c in ("pair", "tuple", "separated_pair"):
                if c == "separated_pair":
                    self.drop(c, a[1], "it separates two others")
                    xs = [a[0], a[2]]
                for i, x in enumerate(xs):
                    if mask is None or str(i) in mask:
                        self.keep(x)
                    else:
                        self.drop(c, x, "this part of the result is not used")
            elif c in ("separated_list0", "separated_list1"):
                self.drop(c, a[0], "it separates the items")
                self.keep(a[1])
            elif c == "preceded":
                self.drop(c, a[0], "it precedes what is kept")
                self.keep(a[1], mask)
            elif c == "terminated":
                self.drop(c, a[1], "it follows what is kept")
                self.keep(a[0], mask)
            elif c == "delimited":
                self.drop(c, a[0], "it precedes what is kept")
                self.drop(c, a[2], "it follows what is kept")
                self.keep(a[1], mask)
            elif c in ("fold_many0", "fold_many1"):
                m = self.usage(a[2], None, 1, 2)
                l = self.loses(a[2])
                self.R.check("lossy", l is None, self.name(a[2]), "%s leaves out some of what %s has parsed (%s)" % (self.name(a[2]), self.name(a[0]), l))
                if m == set():
                    self.drop(c, a[0], "the function that collects the items ignores them")
                else:
                    self.keep(a[0], m)
            elif c in ("many0_count", "many1_count"):
                self.drop(c, a[0], "it is only counted")
            elif c == "verify":
                self.keep(a[0], mask)
            elif c == "alt":
                for x in xs:
                    self.keep(x, mask)
            else:
                for x in xs:
                    self.keep(x)
            return
        ws = self.alts(p)
        if ws is None:
            return
        where = self.name(p)
        for w in ws:
            self.kept_way(where, w, mask)

    def marker(self, v, p):
        """value(v, p): v stands for what p takes"""
        if v.k == "agg" and last(v.a[0]) == "OrderedListItemType":
            self.R.check("dropped", self.enumerator(p), "value|%s" % self.name(p), "%s stands for any text that %s takes" % (show(v), self.name(p)))
            return
        self.drop("value", p, "a constant takes its place")

    def enumerator(self, p):
        """Letters or digits that number the items of a list"""
        if self.level(p) <= CHOICE or self.leaf(p) in ("digit0", "digit1", "alpha0", "alpha1"):
            return True
        c, a = self.combinator(p)
        if c in ("many1", "verify", "recognize"):
            return self.enumerator(a[0])
        if c == "take_while1":
            x = mk("opaque", "text")
            for t in alts(self.E.apply(a[0], (x,), frozenset(), None)):
                if not ((t.k == "const" and t.a[0] in (False, 0)) or (t.k == "call" and last(t.a[0]).startswith("is_ascii_"))):
                    return False
            return True
        return False

    def kept_way(self, where, w, mask):
        vs = [w.value]
        if mask is not None:
            vs = []
            for y in alts(w.value):
                if y.k == "agg" and y.a[0] == "tuple":
                    vs += [v for i, v in zip(y.a[2], y.a[3]) if i in mask]
                else:
                    n = result_of(y)
                    vs.append(mk("agg", "some", "", tuple(sorted(mask)), tuple(fld(y, i) for i in sorted(mask))) if n else y)
        val = mk("agg", "value", "", tuple(str(i) for i in range(len(vs))), tuple(vs))
        inv, bare = self.uses(val, w)
        inr, _ = self.uses(w.rest, w)
        nodes = {}
        for us in (inv, inr):
            for n, d in us.items():
                e = nodes.setdefault(n, {})
                for i, m in d.items():
                    if i == "0":
                        e["0"] = True
                    elif m is None or e.get("1", ()) is None:
                        e["1"] = None
                    else:
                        e["1"] = set(e.get("1") or ()) | m
        # runs of other functions, whose results this one was given
        nodes = {n: d for n, d in nodes.items() if any(x == w.arg for x in walk(mk("agg", "s", "", ("0",), (n.a[1][1] if parse_of(n) else n.a[1][0],)), self.E))}
        s = self.skips(w, w.rest)
        self.R.check("skipped", s is None, where, "%s moves past part of the input that no parser takes" % where)
        l = self.loses(val)
        self.R.check("lossy", l is None, where, "%s leaves out some of what it has parsed (%s)" % (where, l))
        marks = {x for x in walk(w.rest, self.E) if spanop(x) and self.advanced(x) is not None}
        ahead = set()
        for x in marks:
            for y in walk(self.advanced(x), self.E):
                n = result_of(y)
                if n is not None and n[1] == "1":
                    ahead.add(n[0])
        asked = None
        for n, d in nodes.items():
            if not parse_of(n):
                for i in "01":
                    if i not in d:
                        self.R.check("dropped", self.compared(w, fld(n, i)), where + "|split",
                                     "%s drops a part of the input it has split" % where)
                continue
            q = n.a[1][0]
            if "0" in d and "1" not in d:
                if self.levelrun(w, n) > DELIMITER:
                    if asked is None:
                        asked = self.conditions(w)
                    if self.level(q) == CHOICE and n in asked:
                        self.R.ok("dropped", "%s|%s" % (where, self.name(q)))
                        continue
                    if self.beyond(q):
                        self.R.ok("dropped", "%s|%s" % (where, self.name(q)))
                        continue
                self.R.check("dropped", self.levelrun(w, n) <= DELIMITER, "%s|%s" % (where, self.name(q)),
                             "%s drops what %s takes, which may be %s" % (where, self.name(q), "any text" if self.level(q) == ANY else "one of several texts"))
            elif "1" in d:
                if "0" not in d and n not in ahead:
                    s = self.root(n.a[1][1])
                    m = result_of(s)
                    self.whole(where, q, m[0].a[1][0] if m and m[1] == "1" and parse_of(m[0]) else None, "run on its own")
                elif "0" in d and self.level(q) > DELIMITER and self.avoided(w, n):
                    if asked is None:
                        asked = self.conditions(w)
                    if not (self.level(q) == CHOICE and n in asked):
                        self.R.fail("dropped", "%s|%s|some" % (where, self.name(q)),
                                    "%s drops what %s takes on some of its paths" % (where, self.name(q)))
                self.keep(q, d["1"])

    # ------------------------------------------------- results on all paths
    def runs(self, fr):
        """Blocks of a body where parsers are run: node -> blocks"""
        m = self.memo.get(("runs", fr.n))
        if m is None:
            m = {}
            for bi, t in fr.body.calls():
                if bi in fr.body.live_blocks():
                    for x in alts(fr.call(bi, t)):
                        if parse_of(x):
                            m.setdefault(x, set()).add(bi)
            self.memo["runs", fr.n] = m
        return m

    def carried(self, t, n, depth=0):
        """t is the result of the run n, or a part of it"""
        while True:
            r = result_of(t)
            if r is not None and r[0] == n:
                return r[1] == "1"
            if t.k in ("fld", "var", "payload", "elem", "sub", "mutd", "upd"):
                if t.k == "fld" and t.a[1] in POSITION:
                    return False
                t = t.a[0]
                continue
            if t.k in ("join", "loop") and depth < 4:
                return any(self.carried(x, n, depth + 1) for x in children(t, self.E))
            return False

    def avoided(self, w, n):
        """Whether control can get from a run to the end of the parser without making use of its result"""
        fr, b = w.frame, w.frame.body
        at = self.runs(fr).get(n)
        if not at:
            return False
        uses = set()
        for bi in b.live_blocks():
            blk = b.blocks[bi]
            for si, s in enumerate(blk["s"]):
                if s[0] == "=" and s[2][0] == "agg" and any(self.carried(fr.operand(o, (bi, si)), n) for o in s[2][2]):
                    uses.add(bi)
                elif s[0] == "=" and s[1][1] and s[2][0] == "use" and self.carried(fr.operand(s[2][1], (bi, si)), n):
                    uses.add(bi)
                elif s[0] == "=" and s[1][0] == 0 and s[2][0] == "use" and self.carried(fr.operand(s[2][1], (bi, si)), n):
                    uses.add(bi)
            t = blk["t"]
            if t[0] == "call":
                c = self.P.callee(t[1])
                m = last(self.P.cname(c)) if c is not None else ""
                if m in ("is_empty", "len", "is_some", "is_none", "is_only_whitespace", "remaining_len", "region", "branch", "from_residual"):
                    continue
                if any(self.carried(fr.operand(o, (bi, len(blk["s"]))), n) for o in t[2]):
                    uses.add(bi)
        if not uses:
            return False
        seen, todo = set(), [x for y in at for x in b.succ(y)]
        while todo:
            x = todo.pop()
            if x in seen or x in uses:
                continue
            seen.add(x)
            if x == w.bi:
                return True
            t = b.blocks[x]["t"]
            for s in b.succ(x):
                if t[0] == "switch" and self.nothing(fr, x, s, n):
                    continue
                todo.append(s)
        return False

    def nothing(self, fr, x, s, n):
        """The edge from x to s is taken only if the result of n is empty or None"""
        t = fr.body.blocks[x]["t"]
        d = fr.operand(t[1], (x, len(fr.body.blocks[x]["s"])))
        hit = [int(v) for v, y in t[2] if y == s]
        neg = False
        while d.k == "un" and d.a[0] == "Not":
            d, neg = d.a[1], not neg
        if d.k == "discr":
            x = d.a[0]
            if x.k == "call" and x.a[0] == "Try>::branch":
                x = x.a[1][0]
            if x == n:
                # the run failed
                return hit != [0] if t[3] != s else bool(t[2]) and any(int(v) == 0 for v, _ in t[2]) and not hit
        if d.k == "discr" and self.carried(d.a[0], n):
            return bool(hit) and t[3] != s and hit == [0]
        if d.k == "call" and d.a[1] and self.carried(d.a[1][0], n):
            m = last(d.a[0])
            true = (bool(hit) and hit == [1]) or (t[3] == s and not hit)
            if neg:
                true = not true
            if m in ("is_empty", "is_none"):
                return true
            if m == "is_some":
                return not true
        return False

    def conditions(self, w):
        """Runs whose results decide how a parser goes on"""
        out = set()
        b = w.frame.body
        for s in b.live_blocks():
            t = b.blocks[s]["t"]
            if t[0] == "switch":
                us, _ = self.uses(w.frame.operand(t[1], (s, len(b.blocks[s]["s"]))), w)
                out |= {n for n, d in us.items() if "1" in d}
        return out

    def beyond(self, p):
        """The segments of a link beyond those that mean something: nothing, or a separator and all that follows it"""
        q = self.body(p)
        c, a = self.combinator(q)
        if c != "alt":
            return False
        for x in self.parts(a):
            if self.leaf(x) == "eof":
                continue
            d, b = self.combinator(x)
            if d == "preceded" and self.level(b[0]) == DELIMITER and self.combinator(b[0])[0] in ("tag", "char") and self.leaf(b[1]) == "rest":
                continue
            return False
        return True

    # --------------------------------------------------------------- lossy
    LOSSY = {"filter", "filter_map", "skip", "step_by", "skip_while", "take_while", "map_while", "truncate", "pop", "clear", "retain", "retain_mut",
             "dedup", "dedup_by", "dedup_by_key", "remove", "swap_remove", "split_off", "nth", "last", "first", "strip_prefix", "strip_suffix",
             "rsplit", "split", "splitn", "rsplitn", "split_once", "rsplit_once", "lines", "split_whitespace", "resize", "find", "find_map", "get", "min_by_key",
             "max_by_key", "peekable", "scan", "is_some", "is_none", "is_ok", "chunks_exact", "zip", "drain", "take", "index", "replace", "replacen",
             "trim_matches", "trim_start_matches", "trim_end_matches", "trim_left_matches", "trim_right_matches", "reduce", "ok"}

    def loses(self, t, seen=None, depth=0):
        """The first thing done to a value that may leave out some of it"""
        seen = set() if seen is None else seen
        todo = [t]
        while todo:
            y = todo.pop()
            if y in seen or parse_of(y):
                continue
            seen.add(y)
            if spanop(y):
                if last(y.a[0]) in NARROW:
                    todo.append(y.a[1][0])
                continue
            if y.k in ("bin", "un", "discr", "const", "opaque", "arg"):
                continue
            if y.k in ("call", "eff"):
                n = last(y.a[0])
                if n in self.LOSSY and not self.harmless(n, y):
                    return n
                a = y.a[1]
                if n in ("index", "replacen", "replace", "drain", "insert"):
                    a = a[:1] if n != "insert" else a
                todo += a
                continue
            if y.k == "clo" and depth < 4:
                b = self.P.bodies.get(y.a[0])
                if b is not None and b.kind == "closure" and not parses(self.P, b.locals[0][0]):
                    x = tuple(mk("opaque", "val%d" % i) for i in range(b.args - 1))
                    r = self.loses(self.E.apply(y, x, frozenset(), None), seen, depth + 1)
                    if r is not None:
                        return r
                todo += y.a[1]
                continue
            todo += children(y, self.E)
        return None

    def harmless(self, n, y):
        a = y.a[1]
        if n == "filter_map" and len(a) == 2:
            x = mk("opaque", "item")
            return all(z == x for z in alts(self.E.apply(a[1], (x,), frozenset(), None)))
        if n == "take_while" and len(a) == 2:
            return self.fixed(a[1]) == NOTHING
        if n == "drain":
            return len(a) == 2 and a[1].k in ("agg", "const") and "RangeFull" in str(a[1].a)
        if n in ("is_some", "is_none", "is_ok"):
            return True
        if n in ("replace", "replacen"):
            # another form of the same character
            return all(x.k == "const" for x in a[1:3])
        if n in ("index", "get"):
            if len(a) != 2 or a[1].k != "agg" or not last(a[1].a[0]).startswith("Range"):
                return True
            if last(a[1].a[0]) == "RangeFull":
                return True
            if last(a[1].a[0]) != "RangeFrom":
                return False
            return self.margin(a[1].a[3][0])
        if n.startswith("trim_") and len(a) == 2:
            cs = [x.a[0] for x in walk(a[1], self.E) if x.k == "const"]
            return bool(cs) and all(self.chars(x).strip() == "" for x in walk(a[1], self.E) if x.k == "const" and x.a[0] != "()" and "RangeFull" not in str(x.a[0]))
        return False

    def margin(self, t):
        """At most as many bytes as a string has whitespace at its start"""
        if t.k == "call" and last(t.a[0]) == "min":
            return any(self.margin(x) for x in t.a[1])
        if t.k == "call" and last(t.a[0]) == "count" and t.a[1][0].k == "call" and last(t.a[1][0].a[0]) == "take_while":
            return self.fixed(t.a[1][0].a[1][1]) == NOTHING
        if t.k == "bin" and t.a[0].startswith("Sub"):
            return any(x.k == "call" and last(x.a[0]).startswith(("trim_start", "trim_left")) for x in walk(t.a[2], self.E)) and \
                t.a[1].k == "call" and last(t.a[1].a[0]) == "len"
        return False
