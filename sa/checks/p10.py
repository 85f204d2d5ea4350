"""The code a macro expands to builds what the macro parsed."""
from ident import *
from esp import short

EXPLANATION = (
    "For every implementation of Tokenize, each path of its MIR is evaluated to the stream of tokens it appends (idents, "
    "punctuation, groups, repetitions, interpolated values). The stream is read as the Rust expression it is: constructor "
    "calls are evaluated through the constructor's own body in the library, struct and variant literals by name, vec! and "
    "collected maps as collections. The obligation: the value of that expression is the tokenized value, variant by variant "
    "and field by field, each field tokenized from the same field, each collection from all of its elements in order, each "
    "literal from the accessor that the constructor inverts. Tokenizing a part is an obligation of the part's own "
    "implementation. Further, every element type that Tokenize is asked for has exactly one implementation, and each macro "
    "parses its input with the parser of its name, tokenizes the whole result and returns the stream.")
ASSUMPTIONS = ["quote, proc_macro2 and syn append what their names say (push_ident, push_group, to_tokens of literals)",
               "the placeholders {} of the format variants are substituted by design; strings that are tokenized verbatim stay as they are"]

PUNCT = {"push_colon2": "::", "push_comma": ",", "push_bang": "!", "push_colon": ":", "push_dot": ".", "push_lt": "<", "push_gt": ">",
         "push_semi": ";", "push_underscore": "_", "push_and": "&", "push_eq": "=", "push_question": "?", "push_star": "*", "push_sub": "-"}
# literal constructors of foreign types and the accessors they invert
INVERSE = {("NaiveDate", "from_ymd"): ("year", "month", "day"), ("NaiveDate", "from_ymd_opt"): ("year", "month", "day"),
           ("URIReference", "try_from"): ("to_string",), ("Path", "new"): ("to_str",)}
TRANSPARENT = {"Box::new", "PathBuf::from", "String::from", "From::from", "Cow::Borrowed", "Cow::Owned", "Into::into", "Rc::new",
               "ToString::to_string", "Cow::from", "to_string", "into_owned", "into_boxed_str", "expect", "unwrap", "to_owned", "into", "drain",
               "into_iter", "collect", "clone"}


STAY = {"quote_str", "quote_format_str", "root_crate", "vendor_path", "tokenize_cow_str_type", "tokenize", "clone"}


class Infeasible(Exception):
    """a combination of loop rounds that cannot be"""


class Bad(Exception):
    pass


def tokens(P, t):
    """appended tokens of a stream term, as a flat list"""
    if t.k == "mutd":
        out = tokens(P, t.a[0])
        for e in t.a[1]:
            out += effect(P, e)
        return out
    if t.k == "call" and last(t.a[0]) in ("new", "default", "with_capacity") and "TokenStream" in t.a[0]:
        return []
    if t.k == "arg":
        return []
    return [("hole", t)]


def effect(P, e):
    n, args = e.a
    m = last(n)
    if m == "=":
        raise Bad("stream replaced")
    if m in PUNCT:
        return [("p", PUNCT[m])]
    xs = [a for a in args if a.k != "self"]
    if m == "push_shr":
        return [("p", ">"), ("p", ">")]
    if m == "push_shl":
        return [("p", "<"), ("p", "<")]
    if m == "push_ident":
        return [("i", text(xs[0]))]
    if m == "push_lifetime":
        return [("p", text(xs[0]))]
    if m == "push_group":
        d = xs[0]
        if d.k != "agg":
            raise Bad("unknown delimiter")
        return [("g", d.a[1], tokens(P, xs[1]))]
    if m == "parse":
        return [("lit", text(xs[0]))]
    if m in ("to_tokens", "append", "tokenize", "append_all", "extend"):
        x = [a for a in xs if not (a.k == "arg" and "ctx" in str(a.a))]
        v = args[0] if args[0].k != "self" else xs[0]
        if m == "tokenize":
            return [("part", v)]
        if v.k == "agg" and v.a[1] == "RepInterp" or v.k == "agg" and v.a[0].endswith("RepInterp"):
            v = v.a[3][0]
        if m == "extend":
            v = once(v)
        if v.k == "mutd" or (v.k == "call" and "TokenStream" in v.a[0] and last(v.a[0]) == "new"):
            return tokens(P, v)
        return [("hole", v)]
    raise Bad("tokens appended by %s" % m)


def once(v):
    if v.k == "call" and last(v.a[0]) in ("once", "from", "into", "into_iter") and v.a[1]:
        return once(v.a[1][0])
    if v.k == "agg" and v.a[0] == "array" and len(v.a[3]) == 1:
        return v.a[3][0]
    if v.k == "agg" and v.a[1] == "Some":
        return v.a[3][0]
    return v


def text(t):
    if t.k == "const":
        v = t.a[0]
        return v.strip('"') if isinstance(v, str) else str(v)
    raise Bad("unknown token text")


def value_param(P, b):
    """index of the value that a function of the macros tokenizes, if it is one that does"""
    if b.crate != "vimwiki_macros" or b.kind not in ("fn", "method") or b.trait or last(b.path) in STAY:
        return None
    if "TokenStream" not in (P.adt_of(b.locals[0][0]) or ""):
        return None
    vs = []
    ctx = False
    for i in range(1, b.args + 1):
        ty = P.peel(b.locals[i][0])
        a = P.t(ty)
        if a["k"] == "adt" and a["def"].endswith("TokenizeContext"):
            ctx = True
        elif a["k"] in ("adt", "str", "prim") or a["s"] == "str":
            vs.append(i)
        else:
            return None
    return vs[0] if ctx and len(vs) == 1 else None


class Expr:
    """recursive descent over the produced tokens"""

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, *x):
        return self.i < len(self.t) and self.t[self.i] == x

    def kind(self):
        return self.t[self.i][0] if self.i < len(self.t) else None

    def take(self):
        if self.i >= len(self.t):
            raise Bad("expression ends early")
        self.i += 1
        return self.t[self.i - 1]

    def done(self):
        return self.i >= len(self.t)

    def expr(self):
        e = self.atom()
        while self.peek("p", ".") or self.peek("p", "?"):
            if self.take()[1] == "?":
                continue
            nm = self.take()
            if self.peek("p", "::"):
                self.take()
                self.generics()
            if self.kind() == "g":
                g = self.take()
                args = [x for x in separgs(g[2]) if x != ("range",)]
                e = ("call", nm[1], [e] + args)
            else:
                e = ("field", nm[1], e)
        return e

    def generics(self):
        d = 0
        while True:
            t = self.take()
            if t == ("p", "<"):
                d += 1
            elif t == ("p", ">"):
                d -= 1
                if d == 0:
                    return

    def atom(self):
        k = self.kind()
        if k == "p" and self.t[self.i][1] in ("&", "*"):
            self.take()
            return self.atom()
        if k == "part":
            return self.take()
        if k == "lit":
            return self.take()
        if k == "g":
            g = self.take()
            if g[1] == "Parenthesis":
                xs = separgs(g[2])
                return xs[0] if len(xs) == 1 and not ends_comma(g[2]) else ("tuple", xs)
            if g[1] == "Bracket":
                return ("vec", separgs(g[2]))
            if g[1] in ("Brace", "None"):
                return block(g[2])
            raise Bad("group")
        names = []
        if k == "hole":
            h = self.take()
            if not self.peek("p", "::"):
                return h
            names.append(None)
        while True:
            if self.peek("p", "::"):
                self.take()
                continue
            if self.peek("p", "<"):
                j = self.i
                self.generics()
                if not names or names == [None]:
                    qt = [x[1] for x in self.t[j:self.i] if x[0] == "i"]
                    if "as" in qt:
                        qt = qt[:qt.index("as")]
                    names += [x for x in qt[-1:]]
                continue
            if self.kind() == "i":
                names.append(self.take()[1])
                if not self.peek("p", "::") and not self.peek("p", "<"):
                    break
                continue
            break
        if not names or names == [None]:
            raise Bad("not an expression")
        if self.peek("p", "!"):
            self.take()
            g = self.take()
            if names[-1] != "vec":
                raise Bad("macro %s!" % names[-1])
            return ("vec", separgs(g[2]))
        if self.kind() == "g" and self.t[self.i][1] == "Parenthesis":
            g = self.take()
            return ("new", names, separgs(g[2]))
        if self.kind() == "g" and self.t[self.i][1] == "Brace":
            g = self.take()
            return ("lit-struct", names, fields(g[2]))
        return ("new", names, None)


def ends_comma(ts):
    return bool(ts) and ts[-1] == ("p", ",")


def split(ts):
    out, cur, d = [], [], 0
    for t in ts:
        if t == ("p", "<"):
            d += 1
        elif t == ("p", ">"):
            d -= 1
        if t == ("p", ",") and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return out


def parse(ts):
    if ts == [("p", ".."), ] or (ts and all(t[0] == "p" and t[1] in ("..", ".", "..=") for t in ts)):
        return ("range",)
    e = Expr(ts)
    r = e.expr()
    if not e.done():
        raise Bad("tokens left over after the expression")
    return r


def separgs(ts):
    return [parse(x) for x in split(ts)]


def fields(ts):
    out = {}
    for x in split(ts):
        if len(x) > 1 and x[0][0] == "i" and x[1] == ("p", ":"):
            out[x[0][1]] = parse(x[2:])
        elif len(x) == 1 and x[0][0] == "i":
            raise Bad("field %s from a variable of the expansion" % x[0][1])
        else:
            raise Bad("struct literal with a rest")
    return out


def block(ts):
    """{ use ..; expr }"""
    i = 0
    for j, t in enumerate(ts):
        if t == ("p", ";"):
            if ts[i] != ("i", "use"):
                raise Bad("statement in the expansion")
            i = j + 1
    return parse(ts[i:])


PUNCT["push_dot2"] = ".."


class Check:
    def __init__(self, P):
        self.P = P
        self.ctx = {b.path for b in P.bodies.values() if b.crate == "vimwiki_macros"}
        self.parts = {b.path: value_param(P, b) for b in P.bodies.values() if value_param(P, b)}
        self.pv = Paths(P, enter=lambda c, b: last(b.path) not in STAY and b.path not in self.parts, maxdepth=8)
        self.id = Ident(P, self.pv, set())
        self.ctor = {}

    # the value of an expression must be the image of source s
    def same(self, e, s, facts, d=0):
        if d > 40:
            raise Bad("too deep")
        d += 1
        k = e[0]
        if k in ("hole", "part"):
            return self.hole(e[1], s, facts, d)
        if k == "tuple":
            for i, x in enumerate(e[1]):
                self.same(x, fld(s, str(i)), facts, d)
            return
        if k == "vec":
            return self.coll(e[1], s, facts, d)
        if k == "call":
            if e[1] in TRANSPARENT:
                return self.same(e[2][0], s, facts, d)
            raise Bad("method %s in the expansion" % e[1])
        if k == "new":
            return self.construct(e[1], e[2], s, facts, d)
        if k == "lit-struct":
            return self.literal(e[1], e[2], s, facts, d)
        if k == "lit":
            raise Bad("the literal %s whatever the value holds" % e[1])
        raise Bad("expression of kind " + k)

    def canon(self, t):
        """without what only borrows"""
        if t.k == "call" and last(t.a[0]) in ("as_ref", "as_deref", "iter", "deref", "as_mut", "into_iter", "borrow", "clone", "to_owned", "copied", "cloned") and (t.a[0] not in self.P.bodies or
                                                                                          self.P.bodies[t.a[0]].derived):
            return self.canon(t.a[1][0])
        if t.k == "item":
            return mk("item", self.canon(t.a[0]))
        if t.k == "fld":
            return fld(self.canon(t.a[0]), t.a[1])
        if t.k == "var":
            return var(self.canon(t.a[0]), t.a[1])
        return t

    def need(self, s, variant, facts):
        f = facts.get(s)
        if f is None:
            s2 = self.canon(s)
            for k, v in facts.d.items():
                if isinstance(v, frozenset) and self.canon(k) is s2:
                    f = v
        if f != frozenset([variant]):
            raise Bad("makes %s where the value is %s" % (variant, "/".join(sorted(f)) if isinstance(f, frozenset) else "not known to be that"))

    def construct(self, names, args, s, facts, d):
        P = self.P
        nm = [n for n in names if n]
        two = "::".join(nm[-2:])
        if two in ("Option::None", "None") or nm == ["None"]:
            return self.need(s, "None", facts)
        if two == "Option::Some" or nm == ["Some"]:
            self.need(s, "Some", facts)
            return self.same(args[0], item(s), facts, d)
        if two == "Iterator::collect" or nm[-1] in TRANSPARENT or two in TRANSPARENT:
            return self.same(args[0], s, facts, d)
        for (ty, f), inv in INVERSE.items():
            if len(nm) > 1 and nm[-2] == ty and nm[-1] == f:
                if len(args) != len(inv):
                    raise Bad("arguments of %s" % two)
                for a, i in zip(args, inv):
                    self.inverse(a, i, s)
                return
        # a variant or a constructor of the library
        if len(nm) >= 2:
            adts = [a for a in P.adts if a.rsplit("::", 1)[-1] == nm[-2] and a.startswith("vimwiki_core")]
            for a in adts:
                vs = [v for v in P.adts[a]["variants"] if v["name"] == nm[-1]] if P.adts[a]["kind"] == "enum" else []
                if vs:
                    self.typed(a, s)
                    self.need(s, nm[-1], facts)
                    fs = vs[0]["fields"]
                    if len(fs) != len(args or []):
                        raise Bad("fields of " + two)
                    for f, x in zip(fs, args or []):
                        self.same(x, fld(var(s, nm[-1]), f["name"]), facts, d)
                    return
                cs = [b for b in P.bodies.values() if b.crate == "vimwiki_core" and b.kind in ("fn", "method") and last(b.path) == nm[-1] and b.trait is None
                      and P.adt_of(b.locals[0][0]) == a]
                if cs:
                    self.typed(a, s)
                    return self.through(cs[0], a, args or [], s, facts, d)
        if args is None:
            return self.literal(names, {}, s, facts, d)
        raise Bad("calls %s, which is not known" % two)

    def literal(self, names, fs, s, facts, d):
        P = self.P
        nm = [n for n in names if n]
        for a, x in P.adts.items():
            if not a.startswith("vimwiki_core"):
                continue
            l = a.rsplit("::", 1)[-1]
            if x["kind"] == "struct" and l == nm[-1]:
                self.typed(a, s)
                want = [f["name"] for f in x["variants"][0]["fields"]]
                self.all(want, fs, l)
                for f in want:
                    self.same(fs[f], fld(s, f), facts, d)
                return
            if x["kind"] == "enum" and len(nm) > 1 and l == nm[-2]:
                for v in x["variants"]:
                    if v["name"] == nm[-1]:
                        self.typed(a, s)
                        self.need(s, v["name"], facts)
                        want = [f["name"] for f in v["fields"]]
                        self.all(want, fs, v["name"])
                        for f in want:
                            self.same(fs[f], fld(var(s, v["name"]), f), facts, d)
                        return
        raise Bad("makes %s, which is not known" % "::".join(nm))

    def all(self, want, fs, nm):
        if set(want) != set(fs):
            raise Bad("fields of %s: %s" % (nm, ", ".join(sorted(set(want) ^ set(fs)))))

    def typed(self, a, s):
        ty = self.id.typ(s)
        have = self.P.adt_of(ty) if ty is not None else None
        if have is not None and have in self.P.adts and have != a:
            raise Bad("makes a %s of a %s" % (last(a), last(have)))

    def mapping(self, b, a):
        """constructor parameter -> field of the result, from the constructor's body"""
        if b.path in self.ctor:
            return self.ctor[b.path]
        P = self.P
        args = tuple(mk("arg", b.path, i + 1) for i in range(b.args))
        rs = self.pv.run(b, args)
        out = None
        for facts, r, _ in rs:
            if r.k != "agg" or r.a[0] != a:
                raise Bad("constructor %s is not a plain constructor" % short(b.path))
            m = {}
            for i, x in enumerate(args):
                fs = [f for f, v in zip(r.a[2], r.a[3]) if self.id.quiet(v, x, facts, 0)]
                if not fs:
                    raise Bad("constructor %s drops its argument %d" % (short(b.path), i))
                m[i] = fs[0]
            if out is not None and out != m:
                raise Bad("constructor %s varies" % short(b.path))
            out = m
        # fields that are not taken from an argument are computed from them
        self.ctor[b.path] = out
        return out

    def through(self, b, a, args, s, facts, d):
        m = self.mapping(b, a)
        if m is None or len(m) != len(args):
            raise Bad("arguments of %s" % short(b.path))
        for i, x in enumerate(args):
            self.same(x, fld(s, m[i]), facts, d)

    def coll(self, xs, s, facts, d):
        if not xs:
            if self.nothing(s, facts):
                return
            raise Bad("an empty collection whatever the value holds")
        if len(xs) != 1:
            raise Bad("a fixed number of items")
        self.same(xs[0], item(s), facts, d)

    def nothing(self, s, facts):
        for k, v in facts.d.items():
            if v == frozenset(["None"]) and k.k == "call" and last(k.a[0]) == "next" and k.a[1][1].a[0] == "visit1":
                base = self.strip(k.a[1][0])
                if base.k == "mutd" and base.a[0].k == "call" and last(base.a[0].a[0]) in EMPTY and any(last(e.a[0]) == "push" for e in base.a[1]):
                    raise Infeasible()
                if self.iter_of(self.strip(k.a[1][0]), s, facts):
                    return True
        return False

    def strip(self, t):
        while True:
            if t.k == "fld" and t.a[1] == "0" and t.a[0].k == "call" and last(t.a[0].a[0]) in ("quote_into_iter",):
                t = t.a[0].a[1][0]
            elif t.k == "mutd" and all(last(e.a[0]) == "next" for e in t.a[1]):
                t = t.a[0]
            elif t.k == "call" and last(t.a[0]) in ("collect", "into_iter", "iter", "by_ref", "cloned", "copied") and t.a[1] and \
                    t.a[1][0].k in ("call", "fld", "mutd") and not (t.a[0] in self.P.bodies) and self.lazy(t.a[1][0]):
                t = t.a[1][0]
            else:
                return t

    def lazy(self, t):
        t0 = t
        if t0.k == "call" and last(t0.a[0]) in ("map", "collect", "into_iter", "iter", "quote_into_iter"):
            return True
        return t0.k == "fld" and t0.a[0].k == "call" and last(t0.a[0].a[0]) == "quote_into_iter"

    def iter_of(self, t, s, facts):
        t = self.strip(t)
        if t.k == "call" and last(t.a[0]) == "map":
            return self.iter_of(t.a[1][0], s, facts)
        return self.id.quiet(t, s, facts, 0)

    def inverse(self, e, acc, s):
        """the argument is the accessor's answer for s"""
        if e[0] == "call" and e[1] in TRANSPARENT:
            return self.inverse(e[2][0], acc, s)
        if e[0] == "new" and "::".join(x for x in e[1][-2:] if x) in TRANSPARENT:
            return self.inverse(e[2][0], acc, s)
        if e[0] != "hole":
            raise Bad("not the value's own %s" % acc)
        t = e[1]
        for _ in range(8):
            if t.k == "call" and last(t.a[0]) == acc:
                if self.id.quiet(t.a[1][0], s, Facts(), 0):
                    return
                raise Bad("%s of another value" % acc)
            if t.k == "call" and last(t.a[0]) in ("expect", "unwrap", "as_str", "into_owned", "quote_str", "to_string", "deref", "as_ref", "unwrap_or_default") and t.a[1]:
                t = t.a[1][1] if last(t.a[0]) == "quote_str" else t.a[1][0]
                continue
            if t.k == "cast":
                t = t.a[0]
                continue
            if t.k == "item":
                t = t.a[0]
                continue
            break
        raise Bad("not the value's own %s but %s" % (acc, show(t)[:80]))

    def hole(self, t, s, facts, d):
        """an interpolated value, or what another implementation appends for a value"""
        t = self.unwrap_rep(t)
        if t.k == "item":
            base = self.strip(t.a[0])
            if base.k == "call" and last(base.a[0]) in EMPTY and "Vec" in base.a[0]:
                raise Infeasible()
            if base.k == "mutd" and base.a[0].k == "call" and last(base.a[0].a[0]) in EMPTY and "Vec" in base.a[0].a[0]:
                xs = [e for e in base.a[1] if last(e.a[0]) != "reserve"]
                if len(xs) == 1 and last(xs[0].a[0]) == "push":
                    return self.hole([a for a in xs[0].a[1] if a.k != "self"][0], s, facts, d)
            if base.k == "call" and last(base.a[0]) == "map" and len(base.a[1]) == 2:
                if s.k != "item" or not self.iter_of(base.a[1][0], s.a[0], facts):
                    raise Bad("items of %s, not of %s" % (show(base.a[1][0])[:80], show(s)[:80]))
                rs = self.pv.apply(base.a[1][1], [s], facts, ())
                if not rs:
                    raise Bad("nothing comes of an item")
                for f2, r in rs:
                    self.stream(r, s, f2, d)
                return
            if base is not t.a[0]:
                t = mk("item", base)
        if t.k == "call":
            n, a = t.a[0], t.a[1]
            m = last(n)
            if m == "quote_str" and len(a) == 2:
                return self.hole(a[1], s, facts, d)
            if m in ("to_str", "expect", "unwrap", "as_str", "as_ref", "deref", "to_string", "to_owned", "clone", "as_deref", "to_string_lossy") and a \
                    and n not in self.P.bodies:
                return self.hole(a[0], s, facts, d)
            if m == "tokenize" and a:
                return self.hole(a[0], s, facts, d)
            if n in self.parts:
                return self.hole(a[self.parts[n] - 1], s, facts, d)
        if t.k == "mutd" and self.is_stream(t):
            return self.stream(t, s, facts, d)
        if not self.id.quiet(t, s, facts, 0) and not self.id.quiet(self.canon(t), s, facts, 0):
            raise Bad("%s is interpolated where %s belongs" % (show(t)[:90], show(s)[:90]))

    def unwrap_rep(self, t):
        while True:
            if t.k == "agg" and t.a[0].endswith("RepInterp"):
                t = t.a[3][0]
            elif t.k == "fld" and t.a[1] == "0" and t.a[0].k == "agg" and t.a[0].a[0].endswith("RepInterp"):
                t = t.a[0].a[3][0]
            else:
                return t

    def is_stream(self, t):
        while t.k == "mutd":
            t = t.a[0]
        return t.k == "arg" or t.k == "call" and "TokenStream" in t.a[0]

    def stream(self, t, s, facts, d=0):
        ts = tokens(self.P, t)
        if not ts:
            raise Bad("nothing is appended")
        self.same(parse(ts), s, facts, d)


def sub(t, seen=None):
    """all terms inside"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        yield x
        for a in x.a:
            st = [a]
            while st:
                y = st.pop()
                if isinstance(y, tuple):
                    st += list(y)
                elif hasattr(y, "k") and hasattr(y, "a"):
                    todo.append(y)


def source_of(t, want):
    """the call of `want` that t is the (successful) result of"""
    for _ in range(20):
        if t.k == "call" and last(t.a[0]) == want:
            return t
        if t.k in ("item", "cast", "sub", "payload"):
            t = t.a[0]
        elif t.k == "mutd":
            return None
        elif t.k == "fld" and t.a[0].k == "var":
            t = t.a[0].a[0]
        elif t.k == "call" and last(t.a[0]) in ("map_err", "unwrap", "expect", "branch", "deref", "as_str", "into", "from", "to_owned", "as_ref", "clone",
                                                "borrow", "into_owned", "to_borrowed", "ok_or_else", "or_else", "to_string", "as_deref", "into_iter") and t.a[1]:
            t = t.a[1][0]
        else:
            return None


def snake(s):
    out = ""
    for i, c in enumerate(s):
        out += ("_" if c.isupper() and i else "") + c.lower()
    return out


def macros(P, R):
    ms = [b for b in P.bodies.values() if b.crate == "vimwiki_macros" and b.kind == "fn" and b.args == 1 and b.path.count("::") == 1
          and P.ts(b.locals[0][0]) == "proc_macro::TokenStream" == P.ts(b.locals[1][0])]
    types = {}
    for b in P.bodies.values():
        if b.crate != "vimwiki_macros":
            continue
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c and last(P.cname(c)) == "parse" and "Language" in P.cname(c):
                for x in c["args"]:
                    n = P.ts(x)
                    types.setdefault(b.path, []).append(n)
    stay = {"input_to_string", "tokenize"}
    for b in sorted(ms, key=lambda b: b.path):
        name = last(b.path)
        pv = Paths(P, enter=lambda c, q: q.crate == "vimwiki_macros" and last(q.path) not in stay and "::tokens::" not in q.path
                   and "::formatter::" not in q.path and "::args::" not in q.path and "::error::" not in q.path)
        try:
            rs = pv.run(b, (mk("arg", b.path, 1),))
            good = 0
            for facts, r, env in rs:
                effs = {e for t in sub(r) for e in ([t] if t.k == "eff" and last(t.a[0]) == "tokenize" else [])}
                if not effs:
                    if not any(t.k == "call" and "compile_error" in t.a[0] for t in sub(r)):
                        raise Bad("a path that is not an error gives no element")
                    continue
                if len(effs) > 1:
                    raise Bad("tokenizes %d values" % len(effs))
                good += 1
                e = next(iter(effs))
                v, ctx = e.a[1][0], e.a[1][1]
                p = source_of(v, "parse")
                if p is None:
                    raise Bad("what is tokenized is not what was parsed but %s" % show(v)[:100])
                lang = source_of(p.a[1][0], "from_vimwiki_str")
                if lang is None:
                    raise Bad("does not parse vimwiki")
                inp = source_of(lang.a[1][0], "input_to_string")
                if inp is None:
                    raise Bad("what is parsed is not the text of the macro")
                raw = inp.a[1][1]
                if raw.k != "const" or bool(raw.a[0]) != ("_raw" in name):
                    raise Bad("raw mode is %s" % (raw.a[0] if raw.k == "const" else "not fixed"))
                if ctx.k != "agg" or "verbatim" not in ctx.a[2]:
                    raise Bad("context is not fixed")
                vb = ctx.a[3][ctx.a[2].index("verbatim")]
                if vb.k != "const" or bool(vb.a[0]) == name.endswith("_format"):
                    raise Bad("verbatim is %s" % (vb.a[0] if vb.k == "const" else "not fixed"))
            if not good:
                raise Bad("never gives an element")
            want = name.replace("vimwiki_", "", 1)
            for suf in ("_format", "_raw"):
                if want.endswith(suf):
                    want = want[:-len(suf)]
            for q, ts in types.items():
                if q.startswith(b.path + "::"):
                    for n in ts:
                        if "::" not in n:
                            continue
                        n = n.split("Located<")[-1].split("<")[0].rstrip(">").rsplit("::", 1)[-1]
                        if snake(n) != want:
                            raise Bad("parses a %s" % n)
            R.ok("macro", name)
        except Bad as e:
            R.fail("macro", name, "%s: %s" % (b.span(None), e))
        except TooMany:
            R.fail("macro", name, "too many paths to follow")


def run(P, R, tier):
    R.rule("tokenize", "each path appends an expression whose value is the tokenized value", 60)
    R.rule("macro", "each macro parses with its parser and tokenizes the whole result", 60)
    impls = sorted((b for b in P.bodies.values() if b.crate == "vimwiki_macros" and b.in_trait is None and b.kind != "closure"
                    and (b.trait or "").endswith("Tokenize") and last(b.path) == "tokenize"), key=lambda b: b.path)
    paths = 0
    for b in impls:
        ck = Check(P)
        name = short(b.path)
        args = tuple(mk("arg", b.path, i + 1) for i in range(b.args))
        try:
            rs = ck.pv.run(b, args)
            if not rs:
                raise Bad("no path returns")
            for facts, r, env in rs:
                paths += 1
                st = env.get(3)
                if st is None or st.k != "mutd":
                    raise Bad("a path appends nothing")
                try:
                    ck.stream(st, args[0], facts)
                except Infeasible:
                    pass
            R.ok("tokenize", "%s: %d paths" % (name, len(rs)))
        except Bad as e:
            R.fail("tokenize", name, "%s: %s" % (b.span(None), e))
        except TooMany:
            R.fail("tokenize", name, "%s: too many paths to follow" % b.span(None))
    for b in sorted(ck.parts, key=str):
        b = P.bodies[b]
        name = short(b.path)
        args = tuple(mk("arg", b.path, i + 1) for i in range(b.args))
        try:
            rs = ck.pv.run(b, args)
            for facts, r, env in rs:
                paths += 1
                try:
                    ck.stream(r, args[ck.parts[b.path] - 1], facts)
                except Infeasible:
                    pass
            R.ok("tokenize", "%s: %d paths" % (name, len(rs)))
        except Bad as e:
            R.fail("tokenize", name, "%s: %s" % (b.span(None), e))
        except TooMany:
            R.fail("tokenize", name, "%s: too many paths to follow" % b.span(None))
    macros(P, R)
    R.stats["paths"] = paths
