"""Demand-driven value origins over MIR.

A term says where a value comes from: an argument, a constant, a field of
another term, the result of a call on other terms, an aggregate...  References,
dereferences and moves are transparent.  A call of a workspace function can be
expanded into what the callee returns (a `Frame` binds its parameters to the
terms of the arguments), a call through a closure or function value likewise.
A local that is borrowed mutably carries the effects of the calls it is lent to.
Terms are hash-consed; a cycle (loop-carried value) is a `loop` term naming the
local, which the walkers follow once.
"""
import sys
sys.setrecursionlimit(20000)


class Term:
    __slots__ = ("k", "a", "id")

    def __repr__(self):
        return show(self)


_table = {}


def mk(k, *a):
    key = (k,) + tuple(x.id if isinstance(x, Term) else x for x in _flat(a))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.k = k
        t.a = a
        t.id = ("#", len(_table))
        _table[key] = t
    return t


def _flat(a):
    for x in a:
        if isinstance(x, (tuple, list)):
            yield "("
            yield from _flat(x)
            yield ")"
        elif isinstance(x, frozenset):
            yield "{"
            yield from sorted(((y.id if isinstance(y, Term) else ("i", y)) for y in x))
            yield "}"
        else:
            yield x


def join(ts):
    s = set()
    for t in ts:
        if t.k == "join":
            s |= t.a[0]
        else:
            s.add(t)
    if len(s) == 1:
        return next(iter(s))
    if not s:
        return mk("never")
    return mk("join", frozenset(s))


def alts(t):
    return t.a[0] if t.k == "join" else (t,)


def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, (tuple, list)):
            return "(" + ", ".join(show(x, d) for x in t) + ")"
        if isinstance(t, str):
            return t if len(t) < 60 else t[-60:]
        return str(t)
    if d > 12:
        return "..."
    k = t.k
    if k == "arg":
        return "arg%s" % (t.a[1],)
    if k == "const":
        return repr(t.a[0])
    if k == "fld":
        return "%s.%s" % (show(t.a[0], d + 1), t.a[1])
    if k == "var":
        return "%s@%s" % (show(t.a[0], d + 1), t.a[1])
    if k == "call":
        n = t.a[0]
        return "%s(%s)" % (short(n), ", ".join(show(x, d + 1) for x in t.a[1]))
    if k == "join":
        return "{" + " | ".join(sorted(show(x, d + 1) for x in t.a[0])) + "}"
    if k == "agg":
        return "%s{%s}" % (short(t.a[0]) + ("::" + t.a[1] if t.a[1] else ""),
                           ", ".join("%s: %s" % (n, show(x, d + 1)) for n, x in zip(t.a[2], t.a[3])))
    if k == "loop":
        return "loop<%s>" % (t.a[1],)
    return "%s(%s)" % (k, ", ".join(show(x, d + 1) for x in t.a))


def short(n):
    import re
    return re.sub(r"[a-z_0-9]+::", "", str(n))


def jkey(v):
    """JSON value as a hashable"""
    if isinstance(v, dict):
        return ("o",) + tuple((k, jkey(x)) for k, x in v.items())
    if isinstance(v, list):
        return ("l",) + tuple(jkey(x) for x in v)
    return v


CALL_ONCE = {"std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call",
             "core::ops::FnOnce::call_once", "core::ops::FnMut::call_mut", "core::ops::Fn::call"}


# a mutable view of what the argument holds
VIEW_MUT = {"deref_mut", "as_mut", "as_mut_slice", "borrow_mut", "get_mut", "index_mut", "as_deref_mut", "as_mut_inner"}


class Frame:
    """A body with its parameters bound to terms."""
    _n = 0

    def __init__(self, E, body, args, upv, stack):
        self.E, self.body, self.args, self.upv = E, body, args, upv
        self.stack = stack | {body.path}
        self.cache = {}
        self.busy = set()
        Frame._n += 1
        self.n = Frame._n
        E.frames[self.n] = self

    # ------------------------------------------------------------- values
    def local(self, l, at=None):
        """The value of a local where control is `at` = (block, statement); at the
        returns of the body when no point is given."""
        b = self.body
        ev = self.E.events(b, l)
        if at is None:
            at = self.E.exit_point
        if ev.simple:
            key = l
            reach = ev.all
        else:
            reach = ev.reaching(at)
            key = (l, reach)
        if ev.alias is not None:
            return self.place(ev.alias, at)
        if key in self.cache:
            return self.cache[key]
        if key in self.busy:
            return mk("loop", self.n, l, reach)
        self.busy.add(key)
        out, parts, effs = [], [], []
        for e in sorted(reach):
            kind, bi, si, x = ev.events[e]
            if kind == "arg":
                out.append(self.args[l - 1])
            elif kind == "assign":
                out.append(self.rvalue(x, (bi, si)))
            elif kind == "call":
                out.append(self.call(bi, x))
            elif kind == "part":
                p, rv = x
                parts.append((_names(p[1]), self.rvalue(rv, (bi, si))))
            elif kind == "callpart":
                parts.append((_names(x[3][1]), self.call(bi, x)))
            elif kind == "lent":
                effs.extend(self.lent(bi, x[0], x[1]))
            elif kind == "capture":
                effs.extend(self.captured(bi, si, x[0], x[1]))
        t = join(out)
        if parts:
            t = mk("upd", t, tuple(p[0] for p in parts), tuple(p[1] for p in parts))
        if effs:
            u = []
            for e in effs:
                if e not in u:
                    u.append(e)
            t = mk("mutd", t, tuple(u))
        self.busy.discard(key)
        self.cache[key] = t
        return t

    def ret(self):
        return self.local(0)

    def place(self, p, at=None):
        return self.project(self.local(p[0], at), p[1])

    def project(self, t, proj):
        for e in proj:
            k = e[0]
            if k == "*":
                continue
            elif k == "f":
                t = fld(t, e[1])
            elif k == "d":
                t = var(t, e[1])
            elif k in ("i", "c"):
                t = elem(t)
            elif k == "s":
                t = mk("sub", t)
            else:
                t = mk("proj", t)
        return t

    def operand(self, o, at=None):
        if o[0] in ("cp", "mv"):
            return self.place(o[1], at)
        if o[0] == "k":
            return self.konst(o[1])
        return mk("opaque", "rc")

    def konst(self, k):
        E = self.E
        if "fn" in k:
            c = k["fn"]
            return mk("fn", E.P.cname(c), c["def"])
        if "promoted" in k:
            owner = E.P.bodies.get(k["of"]) or self.body
            b = self.body if not self.body.kind == "promoted" else self.body
            ps = b.promoted or owner.promoted
            if k["promoted"] < len(ps) and "v" not in k:
                pb = ps[k["promoted"]]
                return E.frame(pb, (), (), self.stack).local(0)
        if "static" in k:
            return mk("static", k["static"])
        if "v" in k:
            v = k["v"]
            if isinstance(v, dict) and v.get("zst"):
                t = E.P.t(k["t"])
                if t["k"] == "closure":
                    return mk("clo", t["def"], ())
                if t["k"] == "tuple":
                    return mk("const", "()")
                return mk("const", "zst:" + t["s"])
            return mk("const", jkey(v), k.get("const", ""))
        if "const" in k:
            cb = E.P.bodies.get(k["const"])
            if cb is not None and cb.path not in self.stack:
                return E.frame(cb, (), (), self.stack).local(0)
            return mk("named", k["const"])
        return mk("opaque", "const:" + E.P.ts(k["t"]))

    def rvalue(self, r, at=None):
        k = r[0]
        if k == "use":
            return self.operand(r[1], at)
        if k == "ref":
            return self.place(r[1], at)
        if k == "cast":
            t = self.operand(r[1], at)
            if "PtrToPtr" in r[3] or "Unsize" in r[3] or "Pointer" in r[3] or "Subtype" in r[3]:
                return t
            return mk("cast", t, self.E.P.ts(r[2]))
        if k == "bin":
            return mk("bin", r[1], self.operand(r[2], at), self.operand(r[3], at))
        if k == "un":
            return mk("un", r[1], self.operand(r[2], at))
        if k == "discr":
            return mk("discr", self.place(r[1], at))
        if k == "repeat":
            return mk("agg", "array", "", ("*",), (self.operand(r[1], at),))
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(o, at) for o in r[2])
            if kind[0] == "adt":
                return mk("agg", kind[1], kind[2], tuple(kind[3]), ops)
            if kind[0] == "closure":
                return mk("clo", kind[1], ops)
            return mk("agg", kind[0], "", tuple(str(i) for i in range(len(ops))), ops)
        return mk("opaque", k)

    # -------------------------------------------------------------- calls
    def call(self, bi, t):
        E = self.E
        at = (bi, len(self.body.blocks[bi]["s"]))
        args = tuple(self.operand(o, at) for o in t[2])
        c = E.P.callee(t[1])
        if c is None:
            f = self.operand(t[1], at)
            return E.apply(f, args, self.stack, (self.body.path, bi))
        return E.call(c, args, self.stack, (self.body.path, bi), self)

    # ------------------------------------------------------------ effects
    def captured(self, bi, si, rv, i):
        """What a closure puts into a variable it captures by mutable reference."""
        cb = self.E.P.bodies.get(rv[1][1])
        if cb is None or cb.path in self.stack:
            return []
        ups = tuple(self.operand(x, (bi, si)) if j != i else mk("self") for j, x in enumerate(rv[2]))
        params = tuple([mk("clo", rv[1][1], ups)] + [mk("opaque", "closure-param")] * (cb.args - 1))
        fr = self.E.frame(cb, params, ups, self.stack)
        return fr.upv_effects(i)

    def lent(self, bi, t, i):
        E = self.E
        c = E.P.callee(t[1])
        args = []
        at = (bi, len(self.body.blocks[bi]["s"]))
        for j, o in enumerate(t[2]):
            args.append(mk("self") if j == i else self.operand(o, at))
        args = tuple(args)
        if c is None:
            return [mk("eff", "?", args)]
        bs = E.P.targets(c)
        if len(bs) == 1 and bs[0].path not in self.stack and bs[0].args == len(args):
            fr = E.frame(bs[0], args, (), self.stack)
            return fr.effects_on_pointee(i + 1)
        n = E.P.cname(c)
        if n.endswith("Iterator>::next") or n.endswith("Iterator::next") or n.endswith("::next_back"):
            return []
        return [mk("eff", n, args)]

    def effects_on_pointee(self, l):
        """Effects on what parameter `l` (a mutable reference) points to."""
        b = self.body
        out = []
        al = self.E.ptr_aliases(b, l)
        for bi in sorted(b.live_blocks()):
            for si, s in enumerate(b.blocks[bi]["s"]):
                if s[0] == "=" and s[1][0] in al and s[1][1] and s[1][1][0][0] == "*":
                    out.append(mk("eff", "=", (mk("self"), self.rvalue(s[2], (bi, si)))))
        for bi, t in b.calls():
            for i, o in enumerate(t[2]):
                if o[0] in ("cp", "mv") and o[1][0] in al and not o[1][1]:
                    out.extend(self.lent(bi, t, i))
            if t[3][0] in al and t[3][1] and t[3][1][0][0] == "*":
                out.append(mk("eff", "=", (mk("self"), self.call(bi, t))))
        return out

    def upv_effects(self, i):
        """Effects a closure has on its captured variable i"""
        b = self.body
        al = set()
        ch = True
        out = []
        while ch:
            ch = False
            for bi in b.live_blocks():
                for s in b.blocks[bi]["s"]:
                    if s[0] != "=" or s[1][1]:
                        continue
                    r = s[2]
                    p = r[1] if r[0] == "ref" else (r[1][1] if r[0] == "use" and r[1][0] in ("cp", "mv") else None)
                    if p is None or s[1][0] in al:
                        continue
                    if p[0] == 1 and any(e[0] == "f" and e[1] == str(i) for e in p[1][:3]):
                        al.add(s[1][0])
                        ch = True
                    elif p[0] in al:
                        al.add(s[1][0])
                        ch = True
        for bi, t in b.calls():
            for j, o in enumerate(t[2]):
                if o[0] in ("cp", "mv") and o[1][0] in al and not o[1][1]:
                    out.extend(self.lent(bi, t, j))
        return out


def _names(proj):
    return tuple(e[1] if e[0] in ("f", "d") else e[0] for e in proj if e[0] != "*")


def fld(t, name):
    k = t.k
    if k == "join":
        return join([fld(x, name) for x in t.a[0]])
    if k == "agg":
        if name in t.a[2]:
            return t.a[3][t.a[2].index(name)]
        return mk("never")
    if k == "clo":
        return t.a[1][int(name)] if name.isdigit() and int(name) < len(t.a[1]) else mk("fld", t, name)
    if k == "upd":
        out = [fld(t.a[0], name)]
        for ns, v in zip(t.a[1], t.a[2]):
            if ns and ns[0] == name:
                out.append(v)
        return join(out)
    if k == "const" and isinstance(t.a[0], tuple) and t.a[0] and t.a[0][0] == "l" and name.isdigit():
        i = int(name) + 1
        if i < len(t.a[0]):
            return mk("const", t.a[0][i], "")
    if k == "bin" and t.a[0].endswith("WithOverflow"):
        if name == "0":
            return mk("bin", t.a[0][:-12], t.a[1], t.a[2])
    if k == "var" and t.a[0].k == "call" and t.a[1] == "Continue" and name == "0" \
            and t.a[0].a[0].endswith("Try>::branch"):
        inner = t.a[0].a[1][0]
        return payload(inner)
    return mk("fld", t, name)


def payload(t):
    """The success value of an Option or Result term."""
    if t.k == "join":
        return join([payload(x) for x in t.a[0]])
    if t.k == "agg":
        if t.a[1] in ("Ok", "Some"):
            return t.a[3][0]
        if t.a[1] in ("Err", "None"):
            return mk("never")
    if t.k == "call" and t.a[0].endswith("::from_residual"):
        return mk("never")
    if t.k == "never":
        return t
    return mk("payload", t)


def var(t, v):
    k = t.k
    if k == "join":
        return join([var(x, v) for x in t.a[0]])
    if k == "agg" and t.a[1]:
        return t if t.a[1] == v else mk("never")
    if k == "never":
        return t
    if k == "payload":
        return mk("var", t, v)
    return mk("var", t, v)


def elem(t):
    if t.k == "join":
        return join([elem(x) for x in t.a[0]])
    if t.k == "agg" and t.a[0] == "array":
        return join(t.a[3])
    return mk("elem", t)


class Events:
    """What gives a local its value: definitions (which replace it), partial
    assignments and the calls it is lent to (which add to it)."""

    def __init__(self, E, b, l):
        ev = []
        self.alias = None
        if 1 <= l <= b.args:
            ev.append(("arg", 0, -1, None))
        kills = set()
        for bi, si, kind, x in b.defs().get(l, ()):
            ev.append((kind, bi, si, x))
        al = E.mut_aliases(b, l)
        if al:
            for bi, t in b.calls():
                for i, o in enumerate(t[2]):
                    if o[0] in ("cp", "mv") and not o[1][1] and o[1][0] in al:
                        ev.append(("lent", bi, len(b.blocks[bi]["s"]), (t, i)))
            for bi in sorted(b.live_blocks()):
                for si, s in enumerate(b.blocks[bi]["s"]):
                    if s[0] != "=":
                        continue
                    if s[2][0] == "agg" and s[2][1][0] == "closure":
                        for i, o in enumerate(s[2][2]):
                            if o[0] in ("cp", "mv") and o[1][0] in al and not o[1][1]:
                                ev.append(("capture", bi, si, (s[2], i)))
                    elif s[1][0] in al and s[1][1] and s[1][1][0][0] == "*":
                        ev.append(("part", bi, si, (s[1], s[2])))
        self.events = ev
        whole = [e for e in ev if e[0] in ("arg", "assign", "call")]
        self.simple = len(whole) <= 1 and len(whole) == len(ev)
        self.all = frozenset(range(len(ev)))
        if self.simple and len(ev) == 1 and ev[0][0] == "assign" and ev[0][3][0] == "ref" and ev[0][3][2]:
            self.alias = ev[0][3][1]
        if not self.simple:
            self._solve(b)

    def _solve(self, b):
        by = {}
        for i, e in enumerate(self.events):
            by.setdefault(e[1], []).append((e[2], e[0] in ("arg", "assign", "call"), i))
        for v in by.values():
            v.sort()
        self.by = by
        inn = {x: frozenset() for x in b.live_blocks()}
        entry = frozenset(i for i, e in enumerate(self.events) if e[0] == "arg")
        inn[0] = entry
        todo = list(b.live_blocks())
        while todo:
            x = todo.pop()
            out = self._through(inn[x], x, None)
            for s in b.succ(x):
                n = inn[s] | out
                if n != inn[s]:
                    inn[s] = n
                    todo.append(s)
        self.inn = inn
        ex = frozenset()
        for x in b.live_blocks():
            if b.blocks[x]["t"][0] == "ret":
                ex |= self._through(inn[x], x, None)
        self.exit = ex

    def _through(self, s, blk, upto):
        for si, kill, i in self.by.get(blk, ()):
            if si < 0:
                continue
            if upto is not None and si >= upto:
                break
            s = (frozenset([i]) if kill else s | {i})
        return s

    def reaching(self, at):
        if at[0] == "exit":
            return self.exit
        if at[0] not in self.inn:
            return frozenset()
        return self._through(self.inn[at[0]], at[0], at[1])


class Eval:
    def __init__(self, P, expand=None):
        self.P = P
        self.frames = {}
        self.memo = {}
        self._al = {}
        self._pal = {}
        self._ev = {}
        # expand(callee record, body) -> should the call be replaced by what it returns
        self.expand = expand or (lambda c, b: True)

    def frame(self, body, args, upv, stack):
        key = (body.path, tuple(a.id for a in args), tuple(u.id for u in upv), frozenset(stack))
        f = self.memo.get(key)
        if f is None:
            f = Frame(self, body, args, upv, stack)
            self.memo[key] = f
        return f

    def root(self, body):
        args = tuple(mk("arg", body.path, i + 1) for i in range(body.args))
        return self.frame(body, args, (), frozenset())

    def apply(self, f, args, stack, site):
        """Call of a function value."""
        outs = []
        for x in alts(f):
            if x.k == "clo":
                b = self.P.bodies.get(x.a[0])
                if b is not None and b.path not in stack and b.args == len(args) + 1:
                    outs.append(self.frame(b, (x,) + tuple(args), (), stack).local(0))
                    continue
            elif x.k == "fn":
                b = self.P.bodies.get(x.a[0])
                if b is not None and b.path not in stack and b.args == len(args) and self.expand(None, b):
                    outs.append(self.frame(b, tuple(args), (), stack).local(0))
                else:
                    outs.append(mk("call", x.a[0], tuple(args), ()))
                continue
            outs.append(mk("call", "?", (x,) + tuple(args), ()))
        return join(outs)

    def call(self, c, args, stack, site, fr=None):
        n = self.P.cname(c)
        if c["def"] in CALL_ONCE and len(args) == 2:
            a = args[1]
            if a.k == "agg" and a.a[0] == "tuple":
                return self.apply(args[0], a.a[3], stack, site)
            return self.apply(args[0], (fld(a, "0"),), stack, site)
        bs = self.P.targets(c)
        if len(bs) == 1 and bs[0].path not in stack and bs[0].args == len(args) and self.expand(c, bs[0]):
            return self.frame(bs[0], args, (), stack).local(0)
        if n.endswith("Try>::branch") or n.endswith("Try::branch"):
            return mk("call", "Try>::branch", args, ())
        return mk("call", n, args, tuple(self.P.ts(x) for x in c["args"]))

    exit_point = ("exit", 0)

    def events(self, b, l):
        key = (b.path, l)
        e = self._ev.get(key)
        if e is None:
            e = Events(self, b, l)
            self._ev[key] = e
        return e

    # ------------------------------------------------------------ aliases
    def mut_aliases(self, b, l):
        """Locals holding a mutable reference into local l."""
        key = (b.path, l)
        if key in self._al:
            return self._al[key]
        al = set()
        ch = True
        while ch:
            ch = False
            for bi in b.live_blocks():
                for s in b.blocks[bi]["s"]:
                    if s[0] != "=" or s[1][1] or s[1][0] in al:
                        continue
                    r = s[2]
                    if r[0] == "ref" and r[2]:
                        p = r[1]
                        if (p[0] == l and not any(e[0] == "*" for e in p[1])) or \
                                (p[0] in al and p[1] and p[1][0][0] == "*"):
                            al.add(s[1][0])
                            ch = True
                    elif r[0] == "use" and r[1][0] in ("mv", "cp") and r[1][1][0] in al and not r[1][1][1]:
                        al.add(s[1][0])
                        ch = True
                t = b.blocks[bi]["t"]
                if t[0] == "call" and al and not t[3][1] and t[3][0] not in al and t[2] \
                        and t[2][0][0] in ("cp", "mv") and t[2][0][1][0] in al and not t[2][0][1][1]:
                    c = self.P.callee(t[1])
                    if c is not None and c["name"] in VIEW_MUT:
                        al.add(t[3][0])
                        ch = True
        self._al[key] = al
        return al

    def ptr_aliases(self, b, l):
        """Locals holding the mutable reference in parameter l, or a reborrow of it."""
        key = (b.path, l)
        if key in self._pal:
            return self._pal[key]
        al = {l}
        ch = True
        while ch:
            ch = False
            for bi in b.live_blocks():
                for s in b.blocks[bi]["s"]:
                    if s[0] != "=" or s[1][1] or s[1][0] in al:
                        continue
                    r = s[2]
                    if r[0] == "ref" and r[2]:
                        p = r[1]
                        if p[0] in al and p[1] and p[1][0][0] == "*":
                            al.add(s[1][0])
                            ch = True
                    elif r[0] == "use" and r[1][0] in ("mv", "cp") and r[1][1][0] in al and not r[1][1][1]:
                        al.add(s[1][0])
                        ch = True
        self._pal[key] = al
        return al


# ------------------------------------------------------------------- walking
def children(t, E):
    k = t.k
    if k == "loop":
        fr = E.frames[t.a[0]]
        l, reach = t.a[1], t.a[2]
        key = l if E.events(fr.body, l).simple else (l, reach)
        return [fr.cache[key]] if key in fr.cache else []
    out = []

    def rec(x):
        if isinstance(x, Term):
            out.append(x)
        elif isinstance(x, (tuple, list, frozenset)):
            for y in x:
                rec(y)
    rec(t.a)
    return out


def walk(t, E, cut=None):
    """All terms a term is made of (a term for which cut() holds is not entered)."""
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        if cut is not None and cut(x):
            continue
        todo.extend(children(x, E))
