"""Forward abstract interpretation of MIR with difference bounds over symbolic values.

A value is
  ("n", atom|None, c)            the number atom + c (atom None: the constant c)
  ("a", atom)                    anything, named by an atom (a tuple that says where it came from)
  ("agg", adt, variant, names, vals)   a struct, tuple or array built here
  ("en", adt, ((variant, names, vals), ...))   an enum that is one of these
  ("clo", def, vals)             a closure and what it captured
  ("ref", frame, local, proj)    a mutable reference to a local
  ("str", text)                  a constant string
  ("cmp", op, a, b) / ("isv", v, variant) / ("not", b)   a truth value
  ("chk", value)                 the pair a checked operation gives
  ("discr", v, where)            the discriminant of v
  ("it", kind, args)             an iterator whose items are known
A state holds the value of each local of each frame, of fields that were stored through a reference,
and a set of facts a - b <= c. What holds of an atom by how it was made (the position found in a text
is less than its length) is derived when it is asked for and never stored.
"""
import re
from prog import *
from again import asked
from flow import last
from pathval import Paths
from terms import mk as mkterm

INT = {"usize": 2 ** 64 - 1, "u64": 2 ** 64 - 1, "u32": 2 ** 32 - 1, "u16": 2 ** 16 - 1, "u8": 255,
       "isize": 2 ** 63 - 1, "i64": 2 ** 63 - 1, "i32": 2 ** 31 - 1, "i16": 2 ** 15 - 1, "i8": 127, "u128": 2 ** 128 - 1,
       "char": 0x10FFFF}
SIGNED = ("isize", "i64", "i32", "i16", "i8", "i128")
DISCR = {"Option": {0: "None", 1: "Some"}, "Result": {0: "Ok", 1: "Err"}, "ControlFlow": {0: "Continue", 1: "Break"},
         "Cow": {0: "Borrowed", 1: "Owned"}}
IDENT = {"deref", "deref_mut", "as_ref", "as_mut", "as_str", "as_bytes", "as_slice", "borrow", "clone", "cloned", "copied",
         "to_string", "to_owned", "into", "from", "into_owned", "to_vec", "into_boxed_slice", "into_boxed_str",
         "into_string", "into_bytes", "as_mut_slice", "as_mut_str", "as_os_str", "as_path", "new_unchecked",
         "from_utf8_unchecked", "must_use", "black_box", "identity", "as_deref", "as_deref_mut", "into_inner",
         "to_usize", "by_ref", "into_iter", "fuse", "peekable"}
NONE = ("en", "Option", (("None", (), ()),))


def plain(s):
    return re.sub(r"'\w+ ?", "", s)


def some(v):
    return ("en", "Option", (("Some", ("0",), (v,)),))


def opt(v):
    return ("en", "Option", (("None", (), ()), ("Some", ("0",), (v,))))


def num(c):
    return ("n", None, c)


def depth(t):
    d = 0
    st = [(t, 1)]
    n = 0
    while st:
        x, k = st.pop()
        n += 1
        if k > d:
            d = k
        if isinstance(x, tuple):
            st.extend((y, k + 1) for y in x)
        if n > 400:
            return 99
    return d


class St:
    __slots__ = ("env", "heap", "facts", "known", "bnd")

    def __init__(self, env=None, heap=None, facts=None, known=None):
        self.env, self.heap, self.facts, self.known = env or {}, heap or {}, facts or {}, known or {}

    def copy(self):
        return St(dict(self.env), dict(self.heap), dict(self.facts), dict(self.known))


class Budget(Exception):
    pass


class Zone:
    def __init__(self, P, consts=None, inline=None, invariants=None, K=8, budget=60000):
        self.P = P
        self.consts = consts or {}      # parameter atoms -> list of implied facts
        self.invs = invariants or {}    # adt -> f(base value) -> [(a, b, c)] all values
        self.obs = {}                   # site -> {context: (ok, why)}
        self.K = K
        self.budget = budget
        self.inlined = {}               # body path -> set of inlined call sites
        self.usize = next((i for i, t in enumerate(P.types) if t["s"] == "usize"), None)
        self.contract = None            # what is known of the result of a call: f(z, st, body, t, vals, rty, uid)
        self.keptinfo = {}
        self.frames = {}
        self.clomut = {}                # closure -> captures it may change what they refer to
        self.ran = set()
        self.loopinfo = {}
        self.minfo = {}
        self.okinline = inline
        self.busy = set()

    # ------------------------------------------------------------ types
    def tname(self, i):
        return self.P.types[i]["s"]

    def isint(self, i):
        return self.tname(i) in INT

    def adt(self, i):
        t = self.P.types[self.P.peel(i)]
        return t.get("def") if t["k"] == "adt" else None

    # ------------------------------------------------------------ bounds
    def uppers(self, st, a):
        """(b, c) with a <= b + c; b None: a constant."""
        out = []
        for (x, y), c in st.facts.items():
            if x == a:
                out.append((y, c))
        if a is None:
            return out
        k = a[0]
        if k == "min":
            for v in a[1:]:
                out.append((v[1], v[2]))
        elif k == "-":      # p - q, where q <= p
            p, q = a[1], a[2]
            lo = self.lower(st, q)
            out.append((p[1], p[2] - (lo if lo is not None else 0)))
        elif k == "pos":    # a position in x
            l = self.length(st, a[1])
            out.append((l[1], l[2] - 1))
        elif k == "end":    # a boundary in x
            l = self.length(st, a[1])
            out.append((l[1], l[2]))
        elif k == "len":
            x = a[1]
            if x[0] == "a" and x[1][0] == "trim":
                l = self.length(st, x[1][1])
                out.append((l[1], l[2]))
            elif x[0] == "a" and x[1][0] == "sub":
                lo, hi = x[1][2], x[1][3]
                out.append((hi[1], hi[2] - (self.lower(st, lo) or 0)))
        elif k == "range":
            out.append((a[2][1], a[2][2] - 1))
        elif k == "satsub":
            lo = self.lower(st, a[2])
            out.append((a[1][1], a[1][2]))
        elif k == "rem":
            if a[2][1] is None:
                out.append((None, a[2][2] - 1))
            out.append((a[1][1], a[1][2]))
        elif k == "div":
            out.append((a[1][1], a[1][2]))
        elif k == "+":
            x, y = a[1], a[2]
            for x, y in ((x, y), (y, x)):
                u = self.upper(st, y)
                if u is not None:
                    out.append((x[1], x[2] + u))
                # y <= p - x + w
                for b, w in self.reach(st, y):
                    if b is not None and b[0] == "-" and b[2] == x:
                        p = b[1]
                        out.append((p[1], p[2] + w))
        elif k == "cast":
            out.append((a[1][1], a[1][2]))
            m = INT.get(a[2])
            if m is not None:
                out.append((None, m))
        elif k == "uint":
            out.append((None, INT.get(a[1], 2 ** 64)))
        for f in self.consts.get(a, ()):
            if f[0] == a:
                out.append((f[1], f[2]))
        for f in self.inv(st, a):
            x, y, c = f
            if x[1] == a and x[1] is not None:
                out.append((y[1], y[2] + c - x[2]))
        return out

    def inv(self, st, a):
        if not (isinstance(a, tuple) and a and a[0] == "f" and a[1] in ("start", "end")):
            return ()
        f = self.invs.get("Span")
        if not f:
            return ()
        # only of an untouched base
        return f(self, a[2])

    def reach(self, st, v, limit=40):
        """Everything v is known to be at most: pairs (atom, c)."""
        best = {v[1]: v[2]}
        todo = [v[1]]
        n = 0
        while todo and n < limit:
            n += 1
            a = todo.pop(0)
            if a in self.busy:
                continue
            self.busy.add(a)
            try:
                us = self.uppers(st, a)
            finally:
                self.busy.discard(a)
            for b, c in us:
                w = best[a] + c
                if b not in best or w < best[b]:
                    best[b] = w
                    if b is not None and b not in todo:
                        todo.append(b)
        return list(best.items())

    def below(self, st, v, limit=40):
        """Everything known to be at most v: pairs (atom, w) with atom + w <= v."""
        best = {v[1]: v[2]}
        todo = [v[1]]
        n = 0
        while todo and n < limit:
            n += 1
            a = todo.pop(0)
            if a is None:
                continue
            ds = [(x, -c) for (x, y), c in st.facts.items() if y == a]
            for f in self.consts.get(a, ()):
                if f[1] == a:
                    ds.append((f[0], -f[2]))
            if a[0] == "max":
                ds += [(w[1], w[2]) for w in a[1:]]
            elif a[0] == "+":
                ds += [(a[1][1], a[1][2]), (a[2][1], a[2][2])]
            elif a[0] == "range":
                ds.append((a[1][1], a[1][2]))
            for f in self.inv(st, a):
                x, y, c = f
                if y[1] == a:
                    ds.append((x[1], x[2] - c - y[2]))
            if a[0] == "len" and a[1][0] == "a" and a[1][1][0] == "f" and a[1][1][1] == "inner":
                for f in self.inv(st, ("f", "end", a[1][1][2])):
                    x, y, c = f
                    if y[1] == a:
                        ds.append((x[1], x[2] - c - y[2]))
            for x, w in ds:
                w += best[a]
                if x not in best or w > best[x]:
                    best[x] = w
                    if x is not None and x not in todo:
                        todo.append(x)
        return list(best.items())

    def upper(self, st, v):
        best = None
        for b, w in self.reach(st, v):
            if b is None and (best is None or w < best):
                best = w
        return best

    def lower(self, st, v):
        """A constant v is at least."""
        if v[1] is None:
            return v[2]
        best = None
        for x, w in self.below(st, v):
            if x is not None and self.signed(x):
                continue
            if x is not None and x[0] == "+" and x not in self.busy:
                self.busy.add(x)
                w += (self.lower(st, x[1]) or 0) + (self.lower(st, x[2]) or 0)
                self.busy.discard(x)
            if best is None or w > best:
                best = w
        return best

    def signed(self, a):
        return a[0] == "signed"

    def le(self, st, a, b, c=0, d=0):
        """a <= b + c for certain?"""
        if a == b and c >= 0:
            return True
        if d > 3:
            return False
        up = self.reach(st, a)
        lo = dict(self.below(st, b))
        for x, w in up:
            if x in lo and w <= lo[x] + c:
                return True
            if x is None:
                l = self.lower(st, b)
                if l is not None and w <= l + c:
                    return True
        if a[1] is not None and a[1][0] == "max":
            return all(self.le(st, (w[0], w[1], w[2] + a[2]), b, c, d + 1) for w in a[1][1:])
        k = b[1]
        if k is None:
            return False
        if k[0] == "+":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                ly = self.lower(st, y) or 0
                if self.le(st, a, (x[0], x[1], x[2] + b[2] + ly), c, d + 1):
                    return True
        if k[0] == "min":
            return all(self.le(st, a, ("n", w[1], w[2] + b[2]), c, d + 1) for w in k[1:])
        if k[0] == "-":     # a <= p - q + c  if  a + q <= p + c
            s = self.add(a, k[2])
            if self.le(st, s, ("n", k[1][1], k[1][2] + b[2]), c, d + 1):
                return True
        if k[0] == "len" and k[1][0] == "a" and k[1][1][0] == "sub":
            lo, hi = k[1][1][2], k[1][1][3]
            if self.le(st, self.add(a, lo), ("n", hi[1], hi[2] + b[2]), c, d + 1):
                return True
        return False

    def fact(self, st, a, b, c):
        """a <= b + c is so from here on."""
        if a[0] != "n" or b[0] != "n":
            return
        x, y, w = a[1], b[1], b[2] + c - a[2]
        if x == y:
            return
        if x is None and y[0] == "-":       # 0 <= p - q + w
            self.fact(st, y[2], y[1], w)
        elif y is None and x[0] == "-":     # p - q <= w
            self.fact(st, x[1], x[2], w)
        elif x is not None and y is not None and x[0] == "-" and y[0] == "-":
            if x[2] == y[2]:                # p - r <= q - r + w
                self.fact(st, x[1], y[1], w)
            elif x[1] == y[1]:              # p - q <= p - r + w
                self.fact(st, y[2], x[2], w)
        k = (x, y)
        if k not in st.facts or st.facts[k] > w:
            st.facts[k] = w

    # ------------------------------------------------------------ values
    def length(self, st, v):
        if v[0] == "str":
            return num(len(v[1].encode()))
        if v[0] == "agg" and v[1] == "array":
            return num(len(v[4]))
        if v[0] == "ref":
            w = self.deref(st, v)
            if w is not None and w[0] != "ref":
                return self.length(st, w)
        if v[0] == "a":
            if v[1][0] == "sub":
                return self.sub(v[1][3], v[1][2])
            if v[1][0] == "arr":
                return num(v[1][1])
            if v[1][0] == "asb":      # the bytes of a span
                pass
        return ("n", ("len", v), 0)

    def add(self, a, b):
        if a[0] != "n" or b[0] != "n":
            return None
        if a[1] is None:
            return ("n", b[1], a[2] + b[2])
        if b[1] is None:
            return ("n", a[1], a[2] + b[2])
        # (p - q) + q
        for x, y in ((a, b), (b, a)):
            if x[1][0] == "-" and x[1][2][1] == y[1] and x[1][2][1] is not None:
                p, q = x[1][1], x[1][2]
                return ("n", p[1], p[2] + x[2] + y[2] - q[2])
        x, y = ("n", a[1], 0), ("n", b[1], 0)
        if repr(x) > repr(y):
            x, y = y, x
        return ("n", ("+", x, y), a[2] + b[2])

    def sub(self, a, b):
        if b[1] is None:
            return ("n", a[1], a[2] - b[2])
        if a[1] == b[1]:
            return num(a[2] - b[2])
        if a[1] is not None and a[1][0] == "+":
            x, y = a[1][1], a[1][2]
            if x[1] == b[1]:
                return ("n", y[1], y[2] + a[2] - b[2])
            if y[1] == b[1]:
                return ("n", x[1], x[2] + a[2] - b[2])
        if b[1][0] == "-" and b[1][1][1] == a[1]:     # p - (p - q)
            p, q = b[1][1], b[1][2]
            return ("n", q[1], q[2] + a[2] - p[2] - b[2])
        return ("n", ("-", ("n", a[1], a[2]), ("n", b[1], b[2])), 0)

    def fresh(self, *key):
        return ("u",) + key

    def frame(self, *key):
        """A short name of a frame (terms get too deep with the whole of it)."""
        return self.frames.setdefault(key, ("fr", len(self.frames)))

    def opaque(self, ty, atom):
        """The value of type ty named by atom."""
        if ty is not None:
            n = self.tname(ty)
            if n in INT and n != "char":
                if n in SIGNED:
                    return ("n", ("signed", atom), 0)
                return ("n", atom if n == "usize" or n == "u64" else ("cast", ("n", atom, 0), n), 0)
        return ("a", atom)

    def field(self, st, v, name, ty=None):
        if v[0] == "agg":
            if name in v[3]:
                return v[4][v[3].index(name)]
            return self.opaque(ty, self.fresh("nofield", name))
        if v[0] == "en":
            if len(v[2]) == 1 and name in v[2][0][1]:
                return v[2][0][2][v[2][0][1].index(name)]
            return self.opaque(ty, self.fresh("nofield", name, v[1]))
        if v[0] == "clo":
            if name.isdigit() and int(name) < len(v[2]):
                return v[2][int(name)]
        if v[0] == "chk":
            return v[1] if name == "0" else ("a", ("ovf",))
        if v[0] == "ref":
            w = self.deref(st, v)
            if w is not None:
                return self.field(st, w, name, ty)
        if v[0] == "a":
            if name == "0" and isinstance(v[1], tuple) and v[1][0] == "d" and v[1][1] in ("Borrowed", "Owned"):
                return ("a", v[1][2])       # the text of a Cow
            h = st.heap.get((v[1], name))
            if h is not None:
                return h
            ver = st.heap.get(("ver", v[1]))
            base = v[1] if ver is None else ("v", ver, v[1])
            at = ("f", name, base)
            if depth(at) > 16:
                at = self.fresh("deep", name, hash(at))
            return self.opaque(ty, at)
        return self.opaque(ty, self.fresh("field", name, v[0]))

    def down(self, st, v, name):
        if v[0] == "ref":
            w = self.deref(st, v)
            if w is not None:
                return self.down(st, w, name)
        if v[0] == "en":
            for alt in v[2]:
                if alt[0] == name:
                    return ("agg", v[1], name, alt[1], alt[2])
            return ("a", self.fresh("novar", name))
        if v[0] == "a":
            return ("a", ("d", name, v[1]))
        return v

    def deref(self, st, v):
        if v[0] == "ref":
            w = st.env.get((v[1], v[2]))
            if w is None:
                return None
            for e in v[3]:
                w = self.step(st, w, e, None)
            return w
        return v

    def step(self, st, v, e, ty):
        k = e[0]
        if k == "*":
            if v[0] == "ref":
                w = self.deref(st, v)
                return w if w is not None else ("a", self.fresh("deref"))
            return v
        if k == "f":
            return self.field(st, v, e[1], ty)
        if k == "d":
            return self.down(st, v, e[1])
        if k in ("i", "c"):
            if v[0] == "agg" and v[1] == "array" and k == "c" and e[1] < len(v[4]):
                return v[4][e[1]]
            return self.opaque(ty, ("item", v[1] if v[0] == "a" else self.fresh("arr")))
        if k == "s":
            return ("a", self.fresh("subslice", e[1], e[2], v))
        return v

    def load(self, st, fid, p):
        v = st.env.get((fid, p[0]))
        if v is None:
            v = self.opaque(p[2] if not p[1] else None, ("l", fid, p[0]))
        n = len(p[1])
        for i, e in enumerate(p[1]):
            v = self.step(st, v, e, p[2] if i == n - 1 else None)
        if v[0] == "a" and self.isint(p[2]):
            v = self.opaque(p[2], v[1])
        if v[0] == "a" and n and p[1][-1][0] == "*":
            pass
        return v

    def operand(self, st, fid, body, o):
        if o[0] in ("cp", "mv"):
            return self.load(st, fid, o[1])
        if o[0] == "k":
            return self.konst(body, o[1])
        return ("a", self.fresh("rc"))

    def konst(self, body, k):
        P = self.P
        if "fn" in k:
            return ("a", ("fn", P.cname(k["fn"])))
        t = P.types[k["t"]]
        if "promoted" in k and "v" not in k:
            owner = P.bodies.get(k["of"]) or body
            ps = body.promoted or owner.promoted
            if k["promoted"] < len(ps):
                b = ps[k["promoted"]]
                if len(b.blocks) <= 3:
                    st = St()
                    fid = ("prom", k["of"], k["promoted"])
                    for bl in b.blocks:
                        for s in bl["s"]:
                            if s[0] == "=":
                                self.assign(st, fid, b, s, None)
                    v = st.env.get((fid, 0))
                    if v is not None:
                        return self.deref(st, v) or v
            return ("a", ("promoted", k["of"], k["promoted"]))
        if "v" in k:
            v = k["v"]
            if isinstance(v, bool):
                return ("b", v)
            if isinstance(v, int):
                return num(v)
            if isinstance(v, str):
                if t["s"] == "char":
                    return ("a", ("char", v))
                return ("str", v)
            if isinstance(v, dict) and isinstance(v.get("c"), str):
                return ("a", ("char", v["c"]))
            if isinstance(v, dict) and v.get("zst"):
                if t["k"] == "closure":
                    return ("clo", t["def"], ())
                if t["k"] == "tuple":
                    return ("agg", "tuple", "", (), ())
            return ("a", ("const", repr(v)[:80]))
        return ("a", ("const", k.get("const") or k.get("static") or t["s"]))

    # ------------------------------------------------------------ stores
    def upd(self, st, v, proj, new):
        if not proj:
            return new
        e = proj[0]
        if e[0] == "f" and v[0] == "agg" and e[1] in v[3]:
            i = v[3].index(e[1])
            return v[:4] + (v[4][:i] + (self.upd(st, v[4][i], proj[1:], new),) + v[4][i + 1:],)
        if e[0] == "f" and v[0] == "en" and len(v[2]) == 1 and e[1] in v[2][0][1]:
            a = v[2][0]
            i = a[1].index(e[1])
            return ("en", v[1], ((a[0], a[1], a[2][:i] + (self.upd(st, a[2][i], proj[1:], new),) + a[2][i + 1:]),))
        if e[0] == "d":
            if v[0] == "en":
                alts = [a for a in v[2] if a[0] == e[1]]
                if alts:
                    return self.upd(st, ("en", v[1], (alts[0],)), proj[1:], new)
            return self.upd(st, v, proj[1:], new)
        if e[0] == "f" and v[0] == "clo" and e[1].isdigit() and int(e[1]) < len(v[2]):
            i = int(e[1])
            return ("clo", v[1], v[2][:i] + (self.upd(st, v[2][i], proj[1:], new),) + v[2][i + 1:])
        if e[0] == "*":
            self.store_through(st, v, proj[1:], new)
            return v
        if e[0] == "f" and v[0] == "a":
            a = e[3] if len(e) > 3 else None
            if a in self.P.adts and self.P.adts[a]["kind"] == "struct":
                fs = self.P.adts[a]["variants"][0]["fields"]
                names = tuple(f["name"] for f in fs)
                vals = []
                for f in names:
                    x = self.field(st, v, f, None)
                    vals.append(self.upd(st, x, proj[1:], new) if f == e[1] else x)
                return ("agg", a, "", names, tuple(vals))
        return ("a", self.fresh("updated", hash((v, proj[0][0]))))

    def store_through(self, st, v, proj, new):
        if v[0] == "ref":
            key = (v[1], v[2])
            old = st.env.get(key)
            if old is None:
                old = ("a", ("l",) + key)
            st.env[key] = self.upd(st, old, tuple(v[3]) + tuple(tuple(e) for e in proj), new)
            return
        if v[0] == "a":
            base = v
            proj = [tuple(e) for e in proj]
            while len(proj) > 1:
                e = proj.pop(0)
                if e[0] in ("i", "c", "s"):
                    self.havoc(st, base, ("idx",))
                    return
                base = self.step(st, base, e, None)
                if base[0] != "a":
                    if base[0] == "ref":
                        self.store_through(st, base, proj, new)
                    return
            if proj and proj[0][0] == "f":
                st.heap[(base[1], proj[0][1])] = new
            elif not proj or proj[0][0] == "*":
                self.havoc(st, base, ("whole",))

    def store(self, st, fid, p, new):
        key = (fid, p[0])
        if not p[1]:
            st.env[key] = new
            return
        old = st.env.get(key)
        if old is None:
            old = ("a", ("l",) + key)
        st.env[key] = self.upd(st, old, tuple(tuple(e) for e in p[1]), new)

    def havoc(self, st, v, uid):
        """v (what it refers to) may have changed."""
        if v[0] == "ref":
            key = (v[1], v[2])
            cur = self.deref(st, v)
            if cur is not None and cur[0] == "it":
                return
            ty = None
            n = ("a", self.fresh("hv", uid, v[3]))
            if not v[3]:
                st.env[key] = n if cur is None or cur[0] != "n" else ("n", self.fresh("hv", uid), 0)
            else:
                old = st.env.get(key, ("a", ("l",) + key))
                st.env[key] = self.upd(st, old, v[3], n if cur is None or cur[0] != "n" else ("n", n[1], 0))
        elif v[0] == "a":
            for k in [k for k in st.heap if isinstance(k[0], tuple) and self.has(k[0], v[1])]:
                del st.heap[k]
            st.heap[("ver", v[1])] = uid
            # what is derived from it
            for k in [k for k in st.facts if self.has(k, ("len", v))]:
                del st.facts[k]
        elif v[0] == "agg":
            for x in v[-1]:
                self.havoc(st, x, uid)
        elif v[0] == "en":
            for alt in v[2]:
                for x in alt[2]:
                    self.havoc(st, x, uid)
        elif v[0] == "clo":
            muts = self.clomut.get(v[1])
            for i, x in enumerate(v[-1]):
                if x[0] == "clo" or muts is None or i in muts:
                    self.havoc(st, x, uid)

    def has(self, t, x):
        if t == x:
            return True
        return isinstance(t, tuple) and any(self.has(y, x) for y in t)

    # ------------------------------------------------------------ rvalues
    def assign(self, st, fid, body, s, ctx):
        r = s[2]
        k = r[0]
        P = self.P
        v = None
        ty = s[1][2]
        if k == "use":
            v = self.operand(st, fid, body, r[1])
        elif k == "ref":
            v = self.refto(st, fid, r[1], r[2])
        elif k == "rawptr" or k == "addr":
            v = ("a", self.fresh("raw"))
        elif k == "cast":
            x = self.operand(st, fid, body, r[1])
            if r[3] == "IntToInt" and x[0] == "n":
                src = None
                to = self.tname(r[2])
                if x[1] is None:
                    v = x if 0 <= x[2] <= INT.get(to, 0) else ("n", self.fresh("trunc"), 0)
                else:
                    fr = self.tname(r[1][1][2]) if r[1][0] in ("cp", "mv") else "usize"
                    if fr in SIGNED or to in SIGNED:
                        v = self.opaque(r[2], ("castof", x))
                    elif INT.get(to, 0) >= INT.get(fr, 0):
                        v = x
                    else:
                        u = self.upper(st, x)
                        v = x if u is not None and u <= INT[to] else ("n", ("cast", x, to), 0)
            elif r[3] == "IntToInt":
                v = self.opaque(r[2], ("castof", x))
            elif "Transmute" in r[3] or "Float" in r[3]:
                v = self.opaque(r[2], ("castof", x))
            else:
                v = x
                if v[0] == "a" and P.types[P.peel(r[1][1][2] if r[1][0] in ("cp", "mv") else r[1][1]["t"])]["k"] == "array":
                    t = P.types[P.peel(r[1][1][2] if r[1][0] in ("cp", "mv") else r[1][1]["t"])]
                    m = re.match(r"\[.*; (\d+)\]$", t["s"])
                    if m:
                        v = ("a", ("arr", int(m.group(1)), v[1]))
        elif k == "bin":
            a, b = self.operand(st, fid, body, r[2]), self.operand(st, fid, body, r[3])
            v = self.binop(st, r[1], a, b, r, ty)
        elif k == "un":
            a = self.operand(st, fid, body, r[2])
            if r[1] == "PtrMetadata":
                v = self.length(st, a)
            elif r[1] == "Not":
                v = ("not", a) if a[0] != "b" else ("b", not a[1])
            else:
                v = self.opaque(ty, self.fresh("un", fid, s[1][0]))
        elif k == "len":
            v = self.length(st, self.load(st, fid, r[1]))
        elif k == "discr":
            w = self.load(st, fid, r[1])
            v = ("discr", w, self.target(st, fid, r[1]), r[1][2])
        elif k == "repeat":
            m = re.match(r"\[.*; (\d+)\]$", self.tname(ty))
            v = ("a", ("arr", int(m.group(1)) if m else 0, self.fresh("rep")))
        elif k == "agg":
            kind = r[1]
            vals = tuple(self.operand(st, fid, body, o) for o in r[2])
            if kind[0] == "adt":
                if kind[1] in P.adts and P.adts[kind[1]]["kind"] == "enum" or last(kind[1]) in DISCR:
                    v = ("en", kind[1] if last(kind[1]) not in DISCR else last(kind[1]), ((kind[2], tuple(kind[3]), vals),))
                else:
                    v = ("agg", kind[1], kind[2], tuple(kind[3]), vals)
                    if ctx is not None:
                        self.built(st, v, ctx, body, s)
            elif kind[0] == "closure":
                v = ("clo", kind[1], vals)
                if kind[1] not in self.clomut:
                    self.clomut[kind[1]] = {i for i, o in enumerate(r[2]) if o[0] in ("cp", "mv") and "mut " in self.tname(o[1][2])}
            else:
                v = ("agg", kind[0], "", tuple(str(i) for i in range(len(vals))), vals)
        if v is None:
            v = self.opaque(ty, self.fresh("rv", k, fid, s[1][0]))
        if depth(v) > 40:
            v = self.opaque(ty, self.fresh("big", fid, s[1][0]))
        self.store(st, fid, s[1], v)
        if ctx is not None and s[1][1]:
            self.stored(st, fid, body, s, ctx)

    def stored(self, st, fid, body, s, ctx):
        pass

    def built(self, st, v, ctx, body, s):
        f = self.invs.get(last(v[1]) + "!")
        if f:
            for why, ok in f(self, st, v):
                self.ob(body, s[3], "invariant", why, ok, ctx)

    def target(self, st, fid, p):
        return (fid, p[0], tuple(tuple(e) for e in p[1]))

    def refto(self, st, fid, p, mut):
        # a reference to a place behind a reference that is not ours is that place itself
        v = st.env.get((fid, p[0]))
        proj = [tuple(e) for e in p[1]]
        if not mut:
            return self.load(st, fid, p)
        base = (fid, p[0])
        path = []
        cur = v if v is not None else ("a", ("l",) + base)
        owned = True
        for i, e in enumerate(proj):
            if e[0] == "*":
                if cur[0] == "ref":
                    base, path = (cur[1], cur[2]), list(cur[3])
                    cur = self.deref(st, cur) or ("a", self.fresh("deref"))
                    owned = True
                elif cur[0] == "a":
                    owned = False
                else:       # a snapshot
                    pass
                continue
            nxt = self.step(st, cur, e, None)
            if owned:
                path.append(e)
            cur = nxt
            if cur[0] == "a" and not owned:
                continue
        if owned:
            return ("ref", base[0], base[1], tuple(path))
        if cur[0] == "a":
            return cur
        # a known value stored behind a foreign reference: name its place
        return ("a", self.fresh("place", fid, p[0], len(proj)))

    def binop(self, st, op, a, b, r, ty):
        chk = op.endswith("WithOverflow")
        o = op.replace("WithOverflow", "").replace("Unchecked", "")
        if o in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ("cmp", o, a, b)
        v = None
        t = r[2][1][2] if r[2][0] in ("cp", "mv") else r[2][1]["t"]
        n = self.tname(t)
        if a[0] == "n" and b[0] == "n" and n in INT and n not in SIGNED:
            if o == "Add":
                v = self.add(a, b)
            elif o == "Sub":
                v = self.sub(a, b)
            elif o == "Mul" and a[1] is None and b[1] is None:
                v = num(a[2] * b[2])
            elif o == "Rem":
                v = ("n", ("rem", a, b), 0)
            elif o == "Div":
                v = ("n", ("div", a, b), 0)
        if v is None:
            v = self.opaque(t, ("bin", o, a, b)) if n in INT else ("a", ("bin", o, a, b))
        return ("chk", v) if chk else v

    # ------------------------------------------------------------ conditions
    def assume(self, st, c, truth):
        """States in which c is truth; None when it cannot be."""
        if c[0] == "b":
            return st if c[1] == truth else None
        if c[0] == "not":
            return self.assume(st, c[1], not truth)
        if c[0] == "cmp":
            op, a, b = c[1:]
            if not truth:
                op = {"Eq": "Ne", "Ne": "Eq", "Lt": "Ge", "Ge": "Lt", "Gt": "Le", "Le": "Gt"}[op]
            if a[0] == "n" and b[0] == "n":
                if op in ("Gt", "Ge"):
                    a, b, op = b, a, {"Gt": "Lt", "Ge": "Le"}[op]
                if op == "Lt":
                    if self.le(st, b, a):
                        return None
                    self.fact(st, a, b, -1)
                elif op == "Le":
                    if self.le(st, b, a, -1):
                        return None
                    self.fact(st, a, b, 0)
                elif op == "Eq":
                    if self.le(st, a, b, -1) or self.le(st, b, a, -1):
                        return None
                    self.fact(st, a, b, 0)
                    self.fact(st, b, a, 0)
                else:
                    if a == b:
                        return None
                    for x, y in ((a, b), (b, a)):
                        # a difference other than nothing, of what is not less, is more than nothing
                        if y == num(0) and x[1] and x[1][0] == "-" and x[2] == 0 and self.le(st, x[1][2], x[1][1]):
                            self.fact(st, x[1][2], x[1][1], -1)
                            self.fact(st, y, x, -1)
                    if self.le(st, a, b):
                        self.fact(st, a, b, -1)
                    elif self.le(st, b, a):
                        self.fact(st, b, a, -1)
            return st
        if c[0] == "isv":
            return self.isvar(st, c[1], c[2], truth)
        if c[0] == "and" and truth:
            for x in c[1:]:
                st = self.assume(st, x, True)
                if st is None:
                    return None
            return st
        if c[0] == "or" and not truth:
            for x in c[1:]:
                st = self.assume(st, x, False)
                if st is None:
                    return None
            return st
        if c[0] == "a":
            k = ("truth", c[1])
            if k in st.known:
                return st if st.known[k] == truth else None
            st.known[k] = truth
        return st

    def isvar(self, st, v, name, truth):
        if v[0] == "en":
            names = [a[0] for a in v[2]]
            if truth and name not in names:
                return None
            if not truth and names == [name]:
                return None
            return st
        if v[0] == "a":
            k = st.known.get(v[1])
            if k is not None:
                if (k == name) != truth:
                    return None
            elif truth:
                st.known[v[1]] = name
            else:
                other = {"Some": "None", "None": "Some", "Ok": "Err", "Err": "Ok"}.get(name)
                if other:
                    st.known[v[1]] = other
        return st

    def variants(self, ty):
        a = self.adt(ty)
        if a is None:
            return {}
        if last(a) in DISCR:
            return DISCR[last(a)]
        if a in self.P.adts:
            return {int(v["discr"]): v["name"] for v in self.P.adts[a]["variants"]}
        return {}

    def narrow(self, st, where, v, name):
        if v[0] == "en" and len(v[2]) > 1:
            alt = [a for a in v[2] if a[0] == name]
            nv = ("en", v[1], tuple(alt))
            for a in alt:
                for x in a[2]:
                    for at in self.atoms(x):
                        if at[0] == "pos":      # something is at a position, so there is something
                            self.fact(st, ("n", at, 0), self.length(st, at[1]), -1)
            fid, l, proj = where
            key = (fid, l)
            if key in st.env:
                cur = st.env[key]
                if not any(e[0] == "*" for e in proj):
                    st.env[key] = self.upd(st, cur, proj, nv)
                else:
                    # through references to locals of ours
                    w = cur
                    path = []
                    base = key
                    for e in proj:
                        if e[0] == "*":
                            if w[0] == "ref":
                                base, path = (w[1], w[2]), list(w[3])
                                w = self.deref(st, w)
                                if w is None:
                                    return
                            continue
                        path.append(e)
                        w = self.step(st, w, e, None)
                    if w == v and base in st.env:
                        st.env[base] = self.upd(st, st.env[base], tuple(path), nv)
            # every other name of the same value
            for k, x in list(st.env.items()):
                if x == v:
                    st.env[k] = nv
        return st

    def branch(self, st, v, t):
        """[(state, target)]"""
        out = []
        arms, other = t[2], t[3]
        if v[0] in ("b", "cmp", "not", "isv", "and", "or") or (v[0] == "a" and self.boolarms(arms)):
            for val, bb in [(x[0], x[1]) for x in arms]:
                s = self.assume(st.copy(), v, bool(val))
                if s is not None:
                    out.append((s, bb))
            if len(arms) == 1:
                s = self.assume(st.copy(), v, not bool(arms[0][0]))
                if s is not None:
                    out.append((s, other))
            return out
        if v[0] == "discr":
            vs = self.variants(v[3])
            used = []
            w = v[1]
            for val, bb in [(x[0], x[1]) for x in arms]:
                name = vs.get(int(val))
                used.append(name)
                if name is None:
                    out.append((st.copy(), bb))
                    continue
                s = self.isvar(st.copy(), w, name, True)
                if s is not None:
                    self.narrow(s, v[2], w, name)
                    out.append((s, bb))
            rest = [n for n in vs.values() if n not in used]
            if not vs:
                out.append((st.copy(), other))
            elif len(rest) == 1:
                s = self.isvar(st.copy(), w, rest[0], True)
                if s is not None:
                    self.narrow(s, v[2], w, rest[0])
                    out.append((s, other))
            elif rest:
                if w[0] != "en" or any(a[0] in rest for a in w[2]):
                    out.append((st.copy(), other))
            return out
        if v[0] == "n":
            s0 = st.copy()
            dead = False
            for val, bb in [(x[0], x[1]) for x in arms]:
                val = int(val)
                s = self.assume(st.copy(), ("cmp", "Eq", v, num(val)), True)
                if s is not None:
                    out.append((s, bb))
                if not dead:
                    s1 = self.assume(s0, ("cmp", "Ne", v, num(val)), True)
                    if s1 is None:
                        dead = True
                    else:
                        s0 = s1
            if not dead:
                out.append((s0, other))
            return out
        for x in arms:
            out.append((st.copy(), x[1]))
        out.append((st.copy(), other))
        return out

    def boolarms(self, arms):
        return len(arms) == 1 and arms[0][0] in (0, "0", False)

    # ------------------------------------------------------------ merging
    def mergeval(self, s1, s2, a, b, key, phis):
        if a == b:
            return a
        if a is None or b is None:
            return None
        if a[0] == "n" and b[0] == "n":
            at = ("phi",) + key
            phis.append((at, a, b))
            return ("n", at, 0)
        if a[0] == "agg" and b[0] == "agg" and a[1:4] == b[1:4] and len(a[4]) == len(b[4]):
            return a[:4] + (tuple(self.mergeval(s1, s2, x, y, key + (i,), phis) for i, (x, y) in enumerate(zip(a[4], b[4]))),)
        if a[0] == "clo" and b[0] == "clo" and a[1] == b[1] and len(a[2]) == len(b[2]):
            return ("clo", a[1], tuple(self.mergeval(s1, s2, x, y, key + (i,), phis) for i, (x, y) in enumerate(zip(a[2], b[2]))))
        if a[0] == "en" and b[0] == "en" and a[1] == b[1]:
            alts = []
            for n in [x[0] for x in a[2]] + [x[0] for x in b[2] if x[0] not in [y[0] for y in a[2]]]:
                x = [y for y in a[2] if y[0] == n]
                y = [z for z in b[2] if z[0] == n]
                if x and y:
                    if len(x[0][2]) != len(y[0][2]):
                        return ("a", ("phi",) + key)
                    alts.append((n, x[0][1], tuple(self.mergeval(s1, s2, p, q, key + (n, i), phis) for i, (p, q) in enumerate(zip(x[0][2], y[0][2])))))
                else:
                    alts.append((x or y)[0])
            return ("en", a[1], tuple(alts))
        return ("a", ("phi",) + key)

    def merge(self, s1, s2, bb, fid, widen):
        """The state that covers both; s1 is what was there."""
        phis = []
        env = {}
        for k in s1.env:
            if k in s2.env:
                v = self.mergeval(s1, s2, s1.env[k], s2.env[k], (fid, bb, k[1] if k[0] == fid else k), phis)
                if v is not None:
                    env[k] = v
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if k[0] == "ver":
                heap[k] = a if a == b else ("m", fid, bb)
            elif a is not None and b is not None:
                v = self.mergeval(s1, s2, a, b, (fid, bb, "h", k), phis)
                if v is not None:
                    heap[k] = v
            else:
                x = a if a is not None else b
                # on the other side it is the field as it was
                ver = (s1 if a is None else s2).heap.get(("ver", k[0]))
                base = k[0] if ver is None else ("v", ver, k[0])
                o = ("n", ("f", k[1], base), 0) if x[0] == "n" else ("a", ("f", k[1], base))
                v = self.mergeval(s1, s2, a if a is not None else o, b if b is not None else o, (fid, bb, "h", k), phis)
                if v is not None:
                    heap[k] = v
        m = St(env, heap)
        for k, v in s1.known.items():
            if s2.known.get(k) == v:
                m.known[k] = v
        pa = {p[0] for p in phis}
        # facts of one side that the other has too
        for (x, y), c in s1.facts.items():
            if x in pa or y in pa:
                continue
            if (x, y) in s2.facts and s2.facts[(x, y)] <= c:
                m.facts[(x, y)] = c
            elif self.le(s2, ("n", x, 0), ("n", y, 0), c):
                m.facts[(x, y)] = c
        if not widen:
            for (x, y), c in s2.facts.items():
                if x in pa or y in pa or (x, y) in m.facts:
                    continue
                if self.le(s1, ("n", x, 0), ("n", y, 0), c):
                    m.facts[(x, y)] = c
        # bounds of the merged numbers
        cands = set()
        for v in list(m.env.values()) + list(m.heap.values()):
            if v[0] == "n" and v[1] is not None:
                cands.add(v[1])
        for at, a, b in phis:
            for s, v in ((s1, a), (s2, b)):
                for x, w in self.reach(s, v):
                    if x is not None:
                        cands.add(x)
                for x, w in self.below(s, v):
                    if x is not None:
                        cands.add(x)
        cands.discard(None)
        old = {p[0]: (p[1], p[2]) for p in phis}

        def side(t, i):
            if t in old:
                return old[t][i]
            return ("n", t, 0) if t is not None else num(0)
        for at, a, b in phis:
            for t in [None] + sorted(cands, key=repr)[:60]:
                if t == at or (t is not None and self.has(t, at)):
                    continue
                for up in (True, False):
                    w = None
                    for c in self.trycs(s1, s2, a, b, side(t, 0), side(t, 1), up):
                        if up and self.le(s1, a, side(t, 0), c) and self.le(s2, b, side(t, 1), c):
                            w = c
                            break
                        if not up and self.le(s1, side(t, 0), a, c) and self.le(s2, side(t, 1), b, c):
                            w = c
                            break
                    if w is None:
                        continue
                    k = (at, t) if up else (t, at)
                    if self.le(m, *((("n", at, 0), ("n", t, 0)) if up else (("n", t, 0), ("n", at, 0))), w):
                        continue
                    if widen and (k not in s1.facts or s1.facts[k] < w):
                        continue
                    if k not in m.facts or m.facts[k] > w:
                        m.facts[k] = w
        return m

    def trycs(self, s1, s2, a, b, ta, tb, up):
        cs = {0, -1, 1, -2}
        for x, y in ((a, ta), (b, tb)):
            if x[1] == y[1]:
                cs.add(x[2] - y[2] if up else y[2] - x[2])
            if x[1] is None and y[1] is None:
                cs.add(x[2] - y[2] if up else y[2] - x[2])
        for s in (s1, s2):
            for v, t in ((a, ta), (b, tb)):
                c = s.facts.get((v[1], t[1]) if up else (t[1], v[1]))
                if c is not None:
                    cs.add(c + v[2] - t[2] if up else c - v[2] + t[2])
        return sorted(cs)

    # ------------------------------------------------------------ running
    def loops(self, body):
        r = self.loopinfo.get(body.path)
        if r is None:
            dom = body.dominators()
            heads = {}
            for b in sorted(body.live_blocks()):
                for s in body.succ(b):
                    if s in dom[b]:
                        heads.setdefault(s, set()).add(b)
            # the blocks of each loop
            preds = body.preds()
            loops = {}
            for h, backs in heads.items():
                seen = {h}
                todo = list(backs)
                while todo:
                    x = todo.pop()
                    if x in seen:
                        continue
                    seen.add(x)
                    todo += preds.get(x, []) if isinstance(preds, dict) else preds[x]
                loops[h] = seen
            order = self.rpo(body)
            r = self.loopinfo[body.path] = (loops, {b: i for i, b in enumerate(order)})
        return r

    def rpo(self, body):
        seen, out = set(), []
        st = [(0, iter(body.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(body.succ(s))))
                    break
            else:
                out.append(b)
                st.pop()
        return out[::-1]

    def run(self, body, args, st, fid, ctx, stack=()):
        """[(return value, state)]"""
        loops, order = self.loops(body)
        st = st.copy()
        for i in range(len(body.locals)):
            st.env.pop((fid, i), None)
        for i, a in enumerate(args):
            st.env[(fid, i + 1)] = a
        pend = {0: [st]}
        seen = {}
        rets = []
        import heapq
        heap = [(order[0], 0)]
        queued = {0}
        K = self.K if len(body.blocks) < 250 else 2
        visits = {}
        while heap:
            _, bb = heapq.heappop(heap)
            queued.discard(bb)
            states = pend.pop(bb, [])
            if not states:
                continue
            self.steps += len(states)
            if self.steps > self.budget:
                raise Budget()
            visits[bb] = visits.get(bb, 0) + 1
            if bb in loops:
                m = states[0]
                for s in states[1:]:
                    m = self.merge(m, s, bb, fid, False)
                if bb in seen:
                    n = self.merge(seen[bb], m, bb, fid, visits[bb] > 3)
                    if self.same(n, seen[bb]):
                        continue
                    if visits[bb] > 12:
                        n.facts = {k: c for k, c in n.facts.items() if not self.has(k, ("phi", fid, bb)) and not any(isinstance(z, tuple) and z[:3] == ("phi", fid, bb) for z in k)}
                    m = n
                seen[bb] = m
                states = [m]
            else:
                if len(states) > K:
                    m = states[0]
                    for s in states[1:]:
                        m = self.merge(m, s, (bb, "j"), fid, False)
                    states = [m]
            for s in states:
                for s2, nb in self.block(body, bb, s.copy(), fid, ctx, stack, rets):
                    lst = pend.setdefault(nb, [])
                    if not any(self.same(x, s2) for x in lst):
                        lst.append(s2)
                    if nb not in queued:
                        queued.add(nb)
                        heapq.heappush(heap, (order[nb], nb))
        return rets

    def same(self, a, b):
        return a.env == b.env and a.heap == b.heap and a.facts == b.facts and a.known == b.known

    def block(self, body, bb, st, fid, ctx, stack, rets):
        bl = body.blocks[bb]
        for s in bl["s"]:
            if s[0] == "=":
                self.assign(st, fid, body, s, ctx)
            elif s[0] == "dead":
                st.env.pop((fid, s[1]), None)
        t = bl["t"]
        k = t[0]
        if k == "goto":
            return [(st, t[1])]
        if k == "drop":
            return [(st, t[2])]
        if k == "ret":
            v = st.env.get((fid, 0), ("a", self.fresh("unit")))
            self.returned(st, fid, body, ctx)
            s2 = st
            for key in [x for x in s2.env if x[0] == fid]:
                if key[1] != 0 and not self.refd(v, key):
                    del s2.env[key]
            rets.append((v, s2))
            return []
        if k == "switch":
            v = self.operand(st, fid, body, t[1])
            return self.branch(st, v, t)
        if k == "assert":
            return self.asserted(st, fid, body, t, ctx)
        if k == "call":
            out = []
            for v, s in self.call(st, fid, body, bb, t, ctx, stack):
                if t[4] is None:
                    continue
                if v[0] == "a" and self.isint(t[3][2]):
                    v = self.opaque(t[3][2], v[1])
                self.store(s, fid, t[3], v)
                out.append((s, t[4]))
            return out
        return []

    def refd(self, v, key):
        if isinstance(v, tuple):
            if len(v) == 4 and v[0] == "ref" and (v[1], v[2]) == key:
                return True
            return any(self.refd(x, key) for x in v if isinstance(x, tuple))
        return False

    def returned(self, st, fid, body, ctx):
        pass

    def ob(self, body, span, kind, why, ok, ctx):
        if ctx is None:
            return
        site = (body.path, span[0], span[1], kind, why)
        d = self.obs.setdefault(site, {})
        d[ctx] = d.get(ctx, True) and bool(ok)

    def asserted(self, st, fid, body, t, ctx):
        kind = t[3]
        vals = [self.operand(st, fid, body, o) for o in t[4]]
        ok = True
        nst = st
        if kind == "bounds":
            l, i = vals
            if l[0] == "n" and i[0] == "n":
                ok = self.le(st, i, l, -1)
                self.ob(body, t[6], "index", "the index is within the slice", ok, ctx)
                self.fact(nst, i, l, -1)
            else:
                self.ob(body, t[6], "index", "the index is within the slice", False, ctx)
        elif kind.startswith("overflow"):
            op = kind.split(":")[1]
            o = t[4][0]
            ty = self.tname(o[1][2] if o[0] in ("cp", "mv") else o[1]["t"])
            a = vals[0]
            b = vals[1] if len(vals) > 1 else None
            if op == "Sub":
                ok = a[0] == "n" and b[0] == "n" and ty not in SIGNED and self.le(st, b, a)
                self.ob(body, t[6], "subtraction", "what is subtracted is not larger", ok, ctx)
                if a[0] == "n" and b[0] == "n" and ty not in SIGNED:
                    self.fact(nst, b, a, 0)
            elif op in ("Add", "Mul") and ty in ("usize", "u64", "u128"):
                pass        # counters and sizes of what is in memory
            else:
                ok = False
                if op == "Add" and b is not None and a[0] == "n" and b[0] == "n":
                    s = self.add(a, b)
                    u = self.upper(st, s)
                    ok = u is not None and u <= INT[ty]
                self.ob(body, t[6], "overflow", "%s of %s stays within it" % (op.lower(), ty), ok, ctx)
        elif kind in ("divzero", "remzero"):
            o = vals[0]
            c = self.operand(st, fid, body, t[1])
            ok = False
            for s in self.zero(c):
                ok = s
            self.ob(body, t[6], "division", "the divisor is not zero", ok, ctx)
        elif kind == "overflow_neg" or "neg" in kind:
            self.ob(body, t[6], "overflow", "negation", False, ctx)
        return [(nst, t[5])]

    def zero(self, c):
        """Whether the divisor tested by c (divisor == 0) is a constant other than zero."""
        if c[0] == "cmp" and c[2][0] == "n" and c[3][0] == "n":
            for x, y in ((c[2], c[3]), (c[3], c[2])):
                if y == num(0) and x[1] is None and x[2] != 0:
                    yield True
                    return
        if c == ("b", False):
            yield True

    # ------------------------------------------------------------ calls
    def closure(self, st, f, args, ctx, stack, uid):
        """Runs a closure value (or a function) on args: [(value, state)]"""
        if f[0] == "ref":
            g = self.deref(st, f)
            if g is not None and g[0] == "clo":
                f = g
        if f[0] == "clo":
            b = self.P.bodies.get(f[1])
            if b is not None and len(stack) < 9 and b.path not in stack:
                self.ran.add(b.path)
                kept = self.keeps(b)
                if kept:        # what it keeps from one run to the next
                    f = ("clo", f[1], tuple(("a", self.fresh("kept", uid, i)) if i in kept and x[0] != "clo" else x for i, x in enumerate(f[2])))
                full = [f] + list(args)
                # a closure of several parameters takes them one by one
                if b.args != len(full):
                    if b.args == 2 and len(full) > 2:
                        full = [f, ("agg", "tuple", "", tuple(str(i) for i in range(len(args))), tuple(args))]
                    else:
                        full = (full + [("a", self.fresh("carg", uid, i)) for i in range(9)])[:b.args]
                s = st
                return self.run(b, self.typed(b, full), s, self.frame("c", uid, b.path), ctx, stack + (b.path,))
        if f[0] == "a" and f[1][0] == "fn":
            return [(self.fncall(f[1][1], args, uid), st)]
        return [(("a", self.fresh("cl", uid)), st)]

    def called(self, rs, body, t, vals, rty, uid):
        """The results of a closure, by its contract where it was not run."""
        if not self.contract:
            return rs
        return [((self.contract(self, s, body, t, vals, rty, uid) or v) if v[0] == "a" and v[1][:2] == ("u", "cl") else v, s) for v, s in rs]

    def keeps(self, b):
        """The captures that closure b changes in itself."""
        r = self.keptinfo.get(b.path)
        if r is None:
            r = set()
            for bl in b.blocks:
                ps = [s[1] for s in bl["s"] if s[0] == "="] + [s[2][1] for s in bl["s"] if s[0] == "=" and s[2][0] == "ref" and "mut" in str(s[2][2:])]
                if bl["t"][0] == "call":
                    ps.append(bl["t"][3])
                for p in ps:
                    fs = [e for e in p[1]]
                    if p[0] == 1 and fs and fs[0][0] == "*":
                        fs = fs[1:]
                    if p[0] == 1 and fs and fs[0][0] == "f" and fs[0][1].isdigit() and not any(e[0] == "*" for e in fs[1:]):
                        r.add(int(fs[0][1]))
            self.keptinfo[b.path] = r
        return r

    def fncall(self, name, args, uid):
        return ("a", ("call", name) + tuple(args)) if depth(tuple(args)) < 12 else ("a", self.fresh("fn", uid))

    def typed(self, b, args):
        out = []
        for i, a in enumerate(args):
            ty = b.locals[i + 1][0]
            if a[0] == "a" and self.isint(ty):
                a = self.opaque(ty, a[1])
            out.append(a)
        return out

    def inlinable(self, b, stack):
        if self.okinline and not self.okinline(b):
            return False
        if b.path in stack or len(stack) >= 9:
            return False
        m = self.minfo.get(b.path)
        if m is None:
            loops, _ = self.loops(b)
            m = self.minfo[b.path] = (len(b.live_blocks()) <= 30 and len(loops) <= 1)
        return m

    def mutargs(self, body, t, vals):
        for o, v in zip(t[2], vals):
            ty = o[1][2] if o[0] in ("cp", "mv") else o[1].get("t") if o[0] == "k" else None
            if ty is not None and self.P.types[ty]["k"] == "ref" and self.P.types[ty].get("mut"):
                yield v
            elif v[0] == "clo" or v[0] in ("agg", "en") and (ty is None or "mut " in self.tname(ty) or "closure" in self.tname(ty)):
                yield v

    def call(self, st, fid, body, bb, t, ctx, stack):
        P = self.P
        vals = [self.operand(st, fid, body, o) for o in t[2]]
        c = P.callee(t[1])
        uid = (fid, bb)
        rty = t[3][2]
        if c is None:
            f = self.operand(st, fid, body, t[1])
            r = self.contract(self, st, body, t, vals, rty, uid) if self.contract else None
            for v in self.mutargs(body, t, vals):
                self.havoc(st, v, uid)
            return [(r if r is not None else self.opaque(rty, self.fresh("dyn", uid)), st)]
        n = P.cname(c)
        m = last(n) if not n.endswith(">") else last(n)
        r = self.model(st, fid, body, t, ctx, stack, n, m, vals, uid, rty, c)
        if r is not None:
            return r
        ts = P.targets(c)
        exact = "unresolved" not in c["rk"]
        if len(ts) > 1:         # of the impls of a trait for several types, the one for the types at hand
            tys = [o[1][2] if o[0] in ("cp", "mv") else o[1].get("t") for o in t[2]]
            fit = [b for b in ts if b.args == len(tys) and all(x is not None and plain(self.tname(x)) == plain(self.tname(b.locals[i + 1][0])) for i, x in enumerate(tys))]
            if len(fit) == 1 and "impl " not in "".join(self.tname(x) for x in tys) and len({b.self_ty for b in ts}) == 1:
                ts = fit
                exact = True
        if len(ts) == 1 and c["rk"] not in ("virtual",) and ts[0].crate.startswith("vimwiki"):
            b = ts[0]
            if b.kind == "closure" and len(vals) == 2 and vals[1][0] == "agg" and vals[1][1] == "tuple" and b.args == len(vals[1][4]) + 1:
                rs = self.called(self.closure(st, vals[0], vals[1][4], ctx, stack, uid), body, t, vals, rty, uid)
                return rs if len(rs) <= 4 else self.collapse(rs, uid)
            if self.inlinable(b, stack) and exact:
                self.inlined.setdefault(b.path, set()).add((body.path, bb))
                rets = self.run(b, self.typed(b, vals), st, self.frame("i", uid, b.path), ctx, stack + (b.path,))
                if len(rets) > 4:
                    rets = self.collapse(rets, uid)
                return rets
        if m in ("verify", "map", "map_res", "map_opt") and n.startswith("nom::") and len(vals) == 2 and vals[1][0] == "clo":
            for x, s in self.outputs(st, vals[0], ctx, stack, uid):
                self.closure(s, vals[1], (x,), ctx, stack, (uid, "out"))
            at = self.fresh("parser", uid)
            self.forget(st, at)
            for v in self.mutargs(body, t, vals):
                self.havoc(st, v, uid)
            return [(("a", at), st)]
        # closures that are handed over are run on anything
        for i, v in enumerate(vals):
            g = v
            if g[0] == "ref":
                g = self.deref(st, g) or g
            if g[0] == "clo":
                self.closure(st.copy(), g, (), ctx, stack, (uid, i))
        r = self.contract(self, st, body, t, vals, rty, uid) if self.contract else None
        mut = False
        for v in self.mutargs(body, t, vals):
            mut = True
            self.havoc(st, v, uid)
        if r is not None:
            return [(r, st)]
        if mut or any(v[0] in ("clo", "agg", "en", "it") for v in vals):
            at = self.fresh("call", uid, m)
            self.forget(st, at)
        else:
            at = ("call", n) + tuple(vals)
            if depth(at) > 14:
                at = self.fresh("call", uid, m)
                self.forget(st, at)
        return [(self.opaque(rty, at), st)]

    def outputs(self, st, p, ctx, stack, uid):
        """What parser p gives: [(value, state)]"""
        st = st.copy()
        x = ("a", self.fresh("out", uid))
        self.forget(st, x[1])
        if p[0] == "ref":
            p = self.deref(st, p) or p
        if p[0] == "a" and isinstance(p[1], tuple) and p[1][0] == "call" and p[1][1].startswith("nom::") and last(p[1][1]) in ("take", "take_while_m_n"):
            k = p[1][2]
            if k[0] == "n":
                s, e = self.field(st, x, "start", self.usize), self.field(st, x, "end", self.usize)
                self.fact(st, self.add(s, k), e, 0)
            return [(x, st)]
        if p[0] == "clo":
            out = []
            for v, s in self.closure(st, p, (("a", self.fresh("in", uid)),), ctx, stack, (uid, "in")):
                if v[0] == "en":
                    for alt in v[2]:
                        if alt[0] == "Ok" and alt[2][0][0] == "agg":
                            out.append((alt[2][0][4][1], s.copy()))
                elif v[0] == "a":
                    out.append((x, st))
            return out[:4] or [(x, st)]
        return [(x, st)]

    def collapse(self, rets, uid):
        v, s = rets[0]
        for w, s2 in rets[1:]:
            s = s.copy()
            s.env[("ret", 0)] = v
            s2 = s2.copy()
            s2.env[("ret", 0)] = w
            s = self.merge(s, s2, ("r",) + uid, ("ret", uid), False)
            v = s.env.pop(("ret", 0), ("a", self.fresh("ret", uid)))
        return [(v, s)]

    def forget(self, st, at):
        for k in [k for k in st.facts if self.has(k, at)]:
            del st.facts[k]
        for k in [k for k in st.known if self.has(k, at)]:
            del st.known[k]
        for k in [k for k in st.heap if self.has(k, at)]:
            del st.heap[k]

    # what an iterator gives
    def items(self, st, it, uid, ty=None):
        """The value of an item, or None when nothing is known of it."""
        if it[0] == "ref":
            it = self.deref(st, it) or it
        if it[0] == "it":
            k = it[1]
            if k == "enum":
                x = self.items(st, it[2], uid)
                src = self.source(it[2])
                idx = ("n", ("pos", src, uid), 0) if src is not None else ("n", self.fresh("idx", uid), 0)
                return ("agg", "tuple", "", ("0", "1"), (idx, x))
            if k == "pos":
                return ("n", ("pos", it[2], uid), 0)
            if k == "cidx":
                return ("agg", "tuple", "", ("0", "1"), (("n", ("pos", it[2], uid), 0), ("a", self.fresh("ch", uid))))
            if k == "pass":
                return self.items(st, it[2], uid)
            if k == "iter":
                return ("a", ("item", it[2][1] if it[2][0] == "a" else hash(it[2]), uid))
            if k == "range":
                return ("n", ("range", it[2], it[3], uid), 0)
        if it[0] == "agg" and last(it[1]) == "Range":
            a, b = it[4][0], it[4][1]
            if a[0] == "n" and b[0] == "n":
                return ("n", ("range", a, b, uid), 0)
        return ("a", self.fresh("item", uid))

    def source(self, it):
        """What the items of it are one by one the items of, from the first on."""
        if it[0] == "it":
            if it[1] == "iter":
                return it[2]
            if it[1] in ("enum",):
                return self.source(it[2])
            if it[1] == "pass" and it[3]:
                return self.source(it[2])
        if it[0] in ("a", "ref"):
            return it
        return None

    def model(self, st, fid, body, t, ctx, stack, n, m, vals, uid, rty, c):
        P = self.P
        v0 = vals[0] if vals else None
        local = n.startswith("vimwiki") or n.startswith("<vimwiki") or any(b.crate.startswith("vimwiki") for b in P.targets(c))
        tr = c.get("trait", "") or ""

        def D(v):
            if v[0] == "ref":
                return self.deref(st, v) or v
            return v
        if "panicking" in n or m in ("panic_fmt", "panic", "panic_display", "unreachable_display", "begin_panic", "unwrap_failed", "panic_explicit", "assert_failed"):
            self.ob(body, t[5], "panic", "%s is not reached" % m, False, ctx)
            return []
        if local:
            return None
        if m in ("unwrap", "expect", "unwrap_err", "expect_err") and ("Option" in n or "Result" in n):
            good = {"unwrap_err": "Err", "expect_err": "Err"}.get(m) or ("Some" if "Option" in n else "Ok")
            v = D(v0)
            if v[0] == "a" and "write_fmt" in repr(v[1])[:200]:
                ok = True
            else:
                bad = {"Err": "Ok", "Some": "None", "Ok": "Err"}[good]
                ok = (v[0] == "en" and all(a[0] == good for a in v[2])) or (v[0] == "a" and st.known.get(v[1]) == good)
            ok = ok or asked(P, body, t)
            self.ob(body, t[5], "unwrap", "%s is of %s" % (m, good), ok, ctx)
            w = self.down(st, v, good)
            return [(self.field(st, w, "0", rty), st)]
        if m in ("index", "index_mut") and ("Index" in n or "index" in n):
            return self.index(st, body, t, ctx, n, vals, rty, uid)
        if m in ("len", "input_len") and len(vals) == 1:
            return [(self.length(st, D(v0)), st)]
        if m == "is_empty" and len(vals) == 1:
            return [(("cmp", "Eq", self.length(st, D(v0)), num(0)), st)]
        if m in ("is_some", "is_ok", "is_none", "is_err"):
            return [(("isv", D(v0), {"is_some": "Some", "is_ok": "Ok", "is_none": "None", "is_err": "Err"}[m]), st)]
        if m in ("memchr_iter", "memchr2_iter", "memchr3_iter", "memrchr_iter"):
            return [(("it", "pos", D(vals[-1])), st)]
        if m in ("memchr", "memchr2", "memchr3", "memrchr", "memrchr2"):
            return [(opt(("n", ("pos", D(vals[-1]), uid), 0)), self.forgot(st, ("pos", D(vals[-1]), uid)))]
        if m in ("find", "rfind") and "str" in n and len(vals) == 2:
            x = D(v0)
            at = ("pos", x, uid)
            self.forget(st, at)
            self.clos(st, vals[1:], ctx, stack, uid)
            pat = D(vals[1])
            if pat[0] == "str" and pat[1] == "":
                at = ("end", x, uid)
            s = st
            return [(opt(("n", at, 0)), s)]
        if m in ("position", "rposition") and len(vals) == 2:
            src = self.source(D(v0))
            at = ("pos", src, uid) if src is not None else self.fresh("posn", uid)
            self.forget(st, at)
            self.closure(st.copy(), vals[1], (self.items(st, D(v0), uid),), ctx, stack, (uid, 1))
            return [(opt(("n", at, 0)), st)]
        if m in ("iter", "iter_mut") and len(vals) == 1:
            return [(("it", "iter", D(v0)), st)]
        if m == "enumerate":
            return [(("it", "enum", D(v0)), st)]
        if m == "char_indices":
            return [(("it", "cidx", D(v0)), st)]
        if m in ("rev", "skip", "step_by", "take", "filter", "take_while", "skip_while", "inspect", "peekable", "fuse") and D(v0)[0] == "it":
            if len(vals) > 1 and D(vals[1])[0] == "clo":
                self.closure(st.copy(), vals[1], (self.items(st, D(v0), uid),), ctx, stack, (uid, 1))
            keep = m in ("take", "take_while", "inspect", "peekable", "fuse")
            return [(("it", "pass", D(v0), keep), st)]
        if m in ("next", "next_back", "peek", "last", "nth", "min", "max", "min_by_key", "max_by_key") and vals and D(v0)[0] in ("it",) or (m in ("next", "next_back") and vals and D(v0)[0] == "agg" and last(D(v0)[1]) == "Range"):
            x = self.items(st, D(v0), uid)
            for at in self.atoms(x):
                self.forget(st, at)
            return [(opt(x), st)]
        if m in ("map", "for_each", "any", "all", "find", "find_map", "filter_map", "flat_map", "fold", "try_for_each", "try_fold", "map_while", "partition", "max_by_key", "min_by_key", "max_by", "min_by") and len(vals) >= 2 and "Option" not in n and "Result" not in n:
            it = D(v0)
            clo = vals[-1]
            x = self.items(st, it, uid)
            for at in self.atoms(x):
                self.forget(st, at)
            args = (x,) if m not in ("fold", "try_fold", "max_by", "min_by") else (("a", self.fresh("acc", uid)), x)
            self.closure(st.copy(), clo, args, ctx, stack, (uid, 1))
            for v in self.mutargs(body, t, vals):
                self.havoc(st, v, uid)
            if m in ("any", "all"):
                return [(("a", self.fresh(m, uid)), st)]
            return [(("a", self.fresh(m, uid)), st)]
        if ("Option" in n or "Result" in n) and m in ("map", "map_or", "map_or_else", "and_then", "unwrap_or", "unwrap_or_else", "unwrap_or_default", "ok", "ok_or", "ok_or_else", "or_else", "or", "map_err", "filter", "is_some_and", "err", "is_none_or", "is_ok_and", "copied", "cloned", "as_ref", "as_mut", "as_deref", "as_deref_mut", "take", "flatten", "then"):
            return self.optcall(st, n, m, vals, ctx, stack, uid, rty, body, t)
        if m == "branch" and "Try" in tr + n:
            v = D(v0)
            if v[0] == "en":
                alts = []
                for a in v[2]:
                    if a[0] in ("Ok", "Some"):
                        alts.append(("Continue", ("0",), a[2]))
                    else:
                        alts.append(("Break", ("0",), (("en", v[1], (a,)),)))
                return [(("en", "ControlFlow", tuple(alts)), st)]
            if v[0] == "a":
                g = "Some" if "Option" in n else "Ok"
                b = "None" if g == "Some" else "Err"
                pay = ("a", ("f", "0", ("d", g, v[1])))
                return [(("en", "ControlFlow", (("Continue", ("0",), (pay,)), ("Break", ("0",), (("a", ("d", b, v[1])),)))), st)]
            return None
        if m == "from_residual":
            if "Option" in n:
                return [(NONE, st)]
            return [(("en", "Result", (("Err", ("0",), (("a", self.fresh("residual", uid)),)),)), st)]
        if m in ("min", "max") and len(vals) == 2 and vals[0][0] == "n" and vals[1][0] == "n":
            a, b = vals
            if self.le(st, a, b):
                return [(a if m == "min" else b, st)]
            if self.le(st, b, a):
                return [(b if m == "min" else a, st)]
            return [(("n", (m, a, b), 0), st)]
        if m == "saturating_sub" and vals[0][0] == "n" and vals[1][0] == "n":
            a, b = vals
            if self.le(st, b, a):
                return [(self.sub(a, b), st)]
            return [(("n", ("satsub", a, b), 0), st)]
        if m == "saturating_add" and vals[0][0] == "n" and vals[1][0] == "n":
            return [(("n", self.fresh("satadd", uid), 0), st)]
        if m == "checked_sub" and vals[0][0] == "n" and vals[1][0] == "n":
            a, b = vals
            s1, s2 = st.copy(), st.copy()
            self.fact(s1, b, a, 0)
            self.fact(s2, a, b, -1)
            return [(some(self.sub(a, b)), s1), (NONE, s2)]
        if m.startswith("trim") and len(vals) >= 1 and "str" in n:
            x = D(v0)
            at = ("trim", x, m, tuple(D(v) for v in vals[1:]))
            if depth(at) > 14:
                at = ("trim", x, m, uid)
            return [(("a", at), st)]
        if m in ("strip_prefix", "strip_suffix") and "str" in n:
            x = D(v0)
            return [(opt(("a", ("trim", x, m, uid))), st)]
        if m == "call" or m == "call_mut" or m == "call_once":
            f = D(v0)
            args = D(vals[1]) if len(vals) > 1 else None
            if f[0] == "clo" and args is not None and args[0] == "agg":
                rs = self.called(self.closure(st, f, args[4], ctx, stack, uid), body, t, vals, rty, uid)
                return rs if len(rs) <= 4 else self.collapse(rs, uid)
            r = self.contract(self, st, body, t, vals, rty, uid) if self.contract else None
            for v in self.mutargs(body, t, vals):
                self.havoc(st, v, uid)
            return [(r if r is not None else self.opaque(rty, self.fresh("fnv", uid)), st)]
        if m in ("eq", "ne", "lt", "le", "gt", "ge") and len(vals) == 2:
            a, b = D(vals[0]), D(vals[1])
            if a[0] == "n" and b[0] == "n":
                return [(("cmp", {"eq": "Eq", "ne": "Ne", "lt": "Lt", "le": "Le", "gt": "Gt", "ge": "Ge"}[m], a, b), st)]
            return [(("a", self.fresh("eq", uid)), self.forgot(st, self.fresh("eq", uid)))]
        if m == "contains" and len(vals) == 2 and D(v0)[0] == "agg" and "Range" in D(v0)[1] and D(vals[1])[0] == "n":
            r = D(v0)
            a, b, x = r[4][0], r[4][1], D(vals[1])
            if a[0] == "n" and b[0] == "n":
                return [(("and", ("cmp", "Le", a, x), ("cmp", "Lt" if last(r[1]) == "Range" else "Le", x, b)), st)]
        if m in IDENT and len(vals) >= 1:
            v = D(v0)
            if m in ("as_mut", "deref_mut", "by_ref", "as_deref_mut", "as_mut_slice", "as_mut_str", "borrow_mut"):
                return [(v0, st)]
            return [(v, st)]
        if m == "default" and self.isint(rty):
            return [(num(0), st)]
        if m in ("push", "push_str", "insert", "append", "extend", "remove", "swap_remove", "swap", "drain", "split_at", "split_off", "truncate", "insert_str", "replace_range", "split_at_mut", "copy_from_slice", "clone_from_slice", "chunks", "chunks_exact", "windows", "step_by", "rotate_left", "rotate_right", "from_digit", "to_digit", "fill", "copy_within", "repeat", "get_unchecked", "pow", "borrow_mut", "borrow", "replace", "lock", "remove_item", "swap_with_slice", "split_first_chunk", "retain", "clear", "with_capacity", "advance", "get_or_insert_with") or m.startswith("from_ymd"):
            return self.mutator(st, body, t, ctx, n, m, vals, rty, uid)
        return None

    def atoms(self, v):
        if v[0] == "n" and v[1] is not None:
            yield v[1]
        elif v[0] == "a":
            yield v[1]
        elif v[0] == "agg":
            for x in v[4]:
                yield from self.atoms(x)

    def forgot(self, st, at):
        self.forget(st, at)
        return st

    def clos(self, st, vals, ctx, stack, uid):
        for i, v in enumerate(vals):
            if v[0] == "clo":
                self.closure(st.copy(), v, (), ctx, stack, (uid, "c", i))

    def optcall(self, st, n, m, vals, ctx, stack, uid, rty, body, t):
        def D(v):
            if v[0] == "ref":
                return self.deref(st, v) or v
            return v
        v = D(vals[0])
        isopt = "Option" in n.split("::<")[0] or "option::Option" in n
        good, bad = ("Some", "None") if isopt else ("Ok", "Err")
        adt = "Option" if isopt else "Result"
        if m in ("copied", "cloned", "as_ref", "as_mut", "as_deref", "as_deref_mut"):
            return [(v, st)]
        if m == "take":
            if vals[0][0] == "ref":
                self.havoc(st, vals[0], uid)
                return [(v, st)]
            self.havoc(st, vals[0], uid)
            at = self.fresh("take", uid)
            self.forget(st, at)
            return [(self.opaque(rty, at), st)]
        branches = []
        if v[0] == "en":
            for a in v[2]:
                branches.append((a[0], a[2][0] if a[2] else None, st.copy()))
        else:
            at = v[1] if v[0] == "a" else self.fresh("opt", uid)
            for name in (good, bad):
                s = self.isvar(st.copy(), ("a", at), name, True)
                if s is not None:
                    pay = ("a", ("f", "0", ("d", name, at)))
                    branches.append((name, pay, s))
        out = []
        wrap = lambda name, x: ("en", adt, ((name, ("0",) if x is not None else (), (x,) if x is not None else ()),))
        for name, pay, s in branches:
            ok = name == good
            if m in ("map", "and_then", "map_or", "map_or_else") and ok:
                f = vals[-1]
                for r, s2 in self.closure(s, f, (pay,), ctx, stack, (uid, m)):
                    out.append((wrap(good, r) if m == "map" else r, s2))
            elif m in ("map", "and_then"):
                out.append((wrap(bad, pay) if pay is not None else NONE, s))
            elif m == "map_or":
                out.append((vals[1], s))
            elif m == "map_or_else" or (m in ("unwrap_or_else", "or_else") and not ok):
                f = vals[1]
                for r, s2 in self.closure(s, f, () if pay is None else (pay,), ctx, stack, (uid, m, 2)):
                    out.append((r, s2))
            elif m == "unwrap_or_else" or (m in ("unwrap_or", "unwrap_or_default") and ok):
                out.append((pay if ok else pay, s))
            elif m == "unwrap_or":
                out.append((vals[1], s))
            elif m == "unwrap_or_default":
                out.append((num(0) if self.isint(rty) else ("a", self.fresh("default", uid)), s))
            elif m in ("ok",):
                out.append((some(pay) if ok else NONE, s))
            elif m == "err":
                out.append((NONE if ok else some(pay), s))
            elif m == "ok_or":
                out.append((("en", "Result", (("Ok", ("0",), (pay,)),)) if ok else ("en", "Result", (("Err", ("0",), (vals[1],)),)), s))
            elif m == "ok_or_else":
                if ok:
                    out.append((("en", "Result", (("Ok", ("0",), (pay,)),)), s))
                else:
                    for r, s2 in self.closure(s, vals[1], (), ctx, stack, (uid, m)):
                        out.append((("en", "Result", (("Err", ("0",), (r,)),)), s2))
            elif m == "map_err":
                if ok:
                    out.append((wrap("Ok", pay), s))
                else:
                    for r, s2 in self.closure(s, vals[1], (pay,), ctx, stack, (uid, m)):
                        out.append((wrap("Err", r), s2))
            elif m in ("or_else", "or") and ok:
                out.append((wrap(good, pay), s))
            elif m == "or":
                out.append((D(vals[1]), s))
            elif m == "filter" and ok:
                for r, s2 in self.closure(s, vals[1], (pay,), ctx, stack, (uid, m)):
                    for truth, res in ((True, wrap("Some", pay)), (False, NONE)):
                        s3 = self.assume(s2.copy(), r, truth)
                        if s3 is not None:
                            out.append((res, s3))
            elif m == "filter":
                out.append((NONE, s))
            elif m in ("is_some_and", "is_ok_and", "is_none_or") and ok:
                for r, s2 in self.closure(s, vals[1], (pay,), ctx, stack, (uid, m)):
                    out.append((r, s2))
            elif m in ("is_some_and", "is_ok_and"):
                out.append((("b", False), s))
            elif m == "is_none_or":
                out.append((("b", True), s))
            else:
                out.append((self.opaque(rty, self.fresh("o", uid, m)), s))
        if len(out) > 4:
            out = self.collapse(out, uid)
        return out

    # indexes of slices, vectors and strings
    def index(self, st, body, t, ctx, n, vals, rty, uid):
        def D(v):
            if v[0] == "ref":
                return self.deref(st, v) or v
            return v
        x, i = D(vals[0]), D(vals[1])
        o = t[2][0]
        ty = self.P.types[self.P.peel(o[1][2])] if o[0] in ("cp", "mv") else {"s": "", "k": ""}
        s = ty["s"]
        isstr = s == "str" or s.endswith("string::String") or "str" == s.lstrip("&")
        if "HashMap" in s or "BTreeMap" in s:
            self.ob(body, t[5], "index", "the key is in the map", False, ctx)
            return [(self.opaque(rty, self.fresh("idx", uid)), st)]
        m = re.match(r"\[.*; (\d+)\]$", s)
        l = num(int(m.group(1))) if m else self.length(st, x)
        if i[0] == "n":
            ok = self.le(st, i, l, -1)
            self.ob(body, t[5], "index", "the index is within what is indexed", ok, ctx)
            self.fact(st, i, l, -1)
            return [(("a", self.fresh("elem", uid)), st)]
        lo, hi = num(0), l
        full = False
        if i[0] == "agg":
            k = last(i[1])
            f = dict(zip(i[3], i[4]))
            if k == "RangeFull":
                full = True
            elif k in ("Range", "RangeTo", "RangeFrom"):
                lo, hi = f.get("start", lo), f.get("end", hi)
            elif k in ("RangeToInclusive",):
                hi = f["end"] if f["end"][0] != "n" else self.add(f["end"], num(1))
            else:
                self.ob(body, t[5], "slice", "the range is understood", False, ctx)
                return [(("a", self.fresh("slice", uid)), st)]
        elif i[0] == "a" and i[1][0] == "const" and "RangeFull" in str(i[1]):
            full = True
        else:
            self.ob(body, t[5], "slice", "the range is understood", False, ctx)
            return [(("a", self.fresh("slice", uid)), st)]
        if full:
            return [(x, st)]
        if lo[0] != "n" or hi[0] != "n":
            self.ob(body, t[5], "slice", "the range is understood", False, ctx)
            return [(("a", self.fresh("slice", uid)), st)]
        ok = self.le(st, lo, hi) and self.le(st, hi, l)
        self.ob(body, t[5], "slice", "the range is within what is sliced", ok, ctx)
        self.fact(st, lo, hi, 0)
        self.fact(st, hi, l, 0)
        if isstr:
            for b in (lo, hi):
                self.ob(body, t[5], "boundary", "a text is cut between characters", self.boundary(st, x, b), ctx)
        at = ("sub", x, lo, hi)
        if depth(at) > 14:
            at = self.fresh("slice", uid)
        return [(("a", at), st)]

    def boundary(self, st, x, b):
        """Whether position b of the text x lies between characters."""
        l = self.length(st, x)
        if b == num(0) or b == l:
            return True
        a, c = b[1], b[2]
        if x[0] == "str" and a is None:
            return x[1].encode()[:c].decode("utf-8", "ignore") == x[1][:len(x[1].encode()[:c].decode("utf-8", "ignore"))] and self.isb(x[1], c)
        if a is None:
            return False
        if a[0] in ("pos", "end") and a[1] == x and c == 0:
            return True
        # as far as x starts with a given text
        if a[0] == "len" and a[1][0] == "a" and a[1][1][0] == "trim" and c == 0:
            y, how = a[1][1][1], a[1][1][2]
            if y == x and (how.startswith("trim_end") or how == "strip_suffix"):
                return True
        # what is left of a part when its end is trimmed, counted from where the part begins
        for y, how, off in self.trimmed(a):
            if y[0] == "a" and y[1][0] == "sub" and y[1][1] == x and how.startswith("trim_end"):
                lo = y[1][2]
                if self.add(("n", off[1], off[2] + c), num(0)) == lo:
                    return True
        # what is trimmed off the front
        if a[0] == "-" and c == 0:
            p, q = a[1], a[2]
            if p == l and q[2] == 0 and q[1] is not None and q[1][0] == "len" and q[1][1][0] == "a" and q[1][1][1][0] == "trim":
                y, how = q[1][1][1][1], q[1][1][1][2]
                if y == x and (how.startswith("trim_start") or how == "strip_prefix"):
                    return True
        # at most so many bytes of leading ASCII
        if a[0] == "min" and c == 0:
            for w in a[1:]:
                if self.leading(st, x, w):
                    return True
        if self.leading(st, x, b):
            return True
        for q, w in self.reach(st, b):
            if q is not None and w <= 0 and q[0] == "-" and self.leading(st, x, ("n", q, 0)):
                return True
        # equal to something that is
        for (p, q), e in st.facts.items():
            if p == a and q is not None and st.facts.get((q, p)) == -e and self.has(q, x) and q != a:
                if q[0] in ("pos", "end") and q[1] == x and e + c == 0:
                    return True
        return False

    def trimmed(self, a):
        """(text, trimming, offset): a is the offset plus the length of the text trimmed."""
        if a[0] == "len" and a[1][0] == "a" and a[1][1][0] == "trim":
            yield a[1][1][1], a[1][1][2], num(0)
        if a[0] == "+" and len(a) == 3:
            for p, q in ((a[1], a[2]), (a[2], a[1])):
                if p[1] is not None and p[2] == 0 and p[1][0] == "len" and p[1][1][0] == "a" and p[1][1][1][0] == "trim":
                    yield p[1][1][1][1], p[1][1][1][2], q

    def isb(self, s, c):
        try:
            s.encode()[:c].decode()
            return c <= len(s.encode())
        except UnicodeDecodeError:
            return False

    def leading(self, st, x, w):
        """w is the number of bytes in front of x that are trimmed as ASCII, so any cut up to it is good."""
        l = self.length(st, x)
        a = w[1]
        if a is None or w[2] != 0 or a[0] != "-" or a[1] != l:
            return False
        q = a[2]
        if q[1] is None or q[1][0] != "len" or q[1][1][0] != "a" or q[1][1][1][0] != "trim":
            return False
        _, y, how, pats = q[1][1][1]
        if y != x or not how.startswith("trim_start"):
            return False
        return "trim_start_matches" == how and self.ascii(pats)

    def asciiclo(self, path):
        """a closure on a character that is true for ASCII only"""
        b = self.P.bodies.get(path)
        if b is None or b.args != 2:
            return False
        x = mkterm("opaque", "p1")

        def one(t):
            if t.k == "call" and t.a[1] and t.a[1][0] is x:
                return last(t.a[0]).startswith("is_ascii")
            if t.k == "bin" and t.a[0] == "Eq" and any(y is x for y in t.a[1:]):
                def chars(w):
                    if isinstance(w, (tuple, list)):
                        if len(w) == 2 and w[0] == "c" and isinstance(w[1], str):
                            yield w[1]
                        else:
                            for z in w:
                                yield from chars(z)
                    elif hasattr(w, "a"):
                        yield from chars(w.a)
                cs = [c for y in t.a[1:] if y is not x for c in chars(y)]
                return len(cs) == 1 and cs[0].isascii()
            return False
        n = 0
        for f, v, _ in Paths(self.P, lambda c, b: True).run(b, (mkterm("opaque", "p0"), x)):
            n += 1
            if v.k == "const" and v.a[0] in (False, 0):
                continue
            ok = one(v)
            for t, y in f.d.items():
                if y in (1, True) and not isinstance(y, frozenset) and one(t) or t is x and isinstance(y, (int, str)) and (ord(y) if isinstance(y, str) else y) < 128:
                    ok = True
            if not ok:
                return False
        return n > 0

    def ascii(self, pats):
        if isinstance(pats, tuple) and pats and pats[0] == "clo" or isinstance(pats, tuple) and len(pats) == 1 and isinstance(pats[0], tuple) and pats[0][:1] == ("clo",):
            return self.asciiclo((pats if pats[0] == "clo" else pats[0])[1])

        def leaf(v):
            if isinstance(v, tuple):
                if v and v[0] == "char":
                    yield v[1]
                else:
                    for x in v:
                        yield from leaf(x)
        cs = list(leaf(pats))
        return bool(cs) and all(isinstance(c, str) and ord(c[0]) < 128 for c in cs)

    def mutator(self, st, body, t, ctx, n, m, vals, rty, uid):
        def D(v):
            if v[0] == "ref":
                return self.deref(st, v) or v
            return v
        if "HashMap" in n or "HashSet" in n or "BTree" in n or "Path" in n:
            return None
        x = D(vals[0]) if vals else None
        isstr = "String" in n or "::str" in n or "<impl str" in n
        isvec = "Vec" in n or "slice" in n or "[T]" in n or "VecDeque" in n

        def need(kind, why, ok):
            self.ob(body, t[5], kind, why, ok, ctx)
        l = self.length(st, x) if x is not None and (isstr or isvec) else None
        if m == "insert" and (isvec or isstr):
            i = D(vals[1])
            need("index", "the index of %s is within it" % m, i[0] == "n" and self.le(st, i, l))
            if isstr:
                need("boundary", "a text is cut between characters", i[0] == "n" and self.boundary(st, x, i))
        elif m in ("remove", "swap_remove") and (isvec or isstr):
            i = D(vals[1])
            need("index", "the index of %s is within it" % m, i[0] == "n" and self.le(st, i, l, -1))
            if isstr:
                need("boundary", "a text is cut between characters", i[0] == "n" and self.boundary(st, x, i))
        elif m in ("split_at", "split_at_mut", "split_off", "truncate") and (isvec or isstr):
            i = D(vals[1])
            if not (m == "truncate"):
                need("index", "the index of %s is within it" % m, i[0] == "n" and self.le(st, i, l))
            if isstr:
                need("boundary", "a text is cut between characters", i[0] == "n" and self.boundary(st, x, i))
        elif m in ("drain", "replace_range", "copy_within"):
            i = D(vals[1])
            full = (i[0] == "a" and "RangeFull" in str(i[1])) or (i[0] == "agg" and last(i[1]) == "RangeFull")
            need("slice", "the range of %s is within it" % m, full)
        elif m in ("chunks", "chunks_exact", "windows", "step_by"):
            i = D(vals[1])
            need("index", "%s is given more than zero" % m, i[0] == "n" and self.le(st, num(1), i))
        elif m in ("swap", "copy_from_slice", "clone_from_slice", "rotate_left", "rotate_right", "swap_with_slice") and isvec:
            need("index", "%s is within the slice" % m, False)
        elif m == "insert_str":
            need("boundary", "a text is cut between characters", False)
        elif m == "pow":
            need("overflow", "a power stays within its type", vals[0][0] == "n" and vals[0][1] is None)
        elif m in ("borrow_mut", "borrow") and "RefCell" in n:
            need("unwrap", "the cell is not borrowed", False)
        elif m.startswith("from_ymd"):
            need("panic", "the date is one", False)
        else:
            return None
        for v in self.mutargs(body, t, vals):
            self.havoc(st, v, uid)
        at = self.fresh("call", uid, m)
        self.forget(st, at)
        return [(self.opaque(rty, at), st)]

    # ------------------------------------------------------------ entry
    def entry(self, body):
        self.steps = 0
        st = St()
        fid = ("b", body.path)
        args = []
        for i in range(body.args):
            ty = body.locals[i + 1][0]
            at = ("p", body.path, i + 1)
            v = self.opaque(ty, at)
            m = re.match(r"&?(?:mut )?(?:'\w+ )?\[.*; (\d+)\]$", self.tname(ty))
            if m:
                v = ("a", ("arr", int(m.group(1)), at))
            args.append(v)
        rets = self.run(body, args, st, fid, body.path, (body.path,))
        for i, (v, s) in enumerate(rets[:6]):
            self.escaped(s, v, body.path, (body.path,), ("ret", fid, i))
        return rets

    def escaped(self, st, v, ctx, stack, uid):
        if v[0] == "clo":
            self.closure(st.copy(), v, (), ctx, stack, uid)
        elif v[0] == "agg":
            for x in v[4]:
                self.escaped(st, x, ctx, stack, uid)
        elif v[0] == "en":
            for a in v[2]:
                for x in a[2]:
                    self.escaped(st, x, ctx, stack, uid)
