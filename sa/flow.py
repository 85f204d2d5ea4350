"""Whole-program backward value flow on top of terms.

`Flow.origins(term)` enumerates the leaves a value is made of, following
parameters to the arguments of every call site, captured variables and
parameters of closures to where the closure is made and lent, and fields of
designated state (a formatter) to everything that is ever stored in them.
"""
from terms import *

# External higher-order functions whose result is (only) what the closure returns.
MAPLIKE = {"map", "and_then", "filter_map", "flat_map", "map_while", "then", "map_err_", "get_or_insert_with"}
# ... is the closure's result or a default
MAPOR = {"map_or", "map_or_else", "unwrap_or_else", "or_else", "fold", "try_fold"}
# closure only decides; the result is the data
FILTERLIKE = {"filter", "take_while", "skip_while", "find", "position", "any", "all", "sort_by",
              "sort_by_key", "max_by_key", "min_by_key", "retain", "partition", "split", "find_map_"}


# the result is taken from the first argument, the others only select it
LOOKUP = {"get", "get_mut", "index", "index_mut", "nth", "remove", "get_or_default", "skip", "take", "step_by"}


def last(n):
    return n.rsplit("::", 1)[-1]


class Flow:
    def __init__(self, P, E=None, state=()):
        self.P = P
        self.E = E or Eval(P)
        self.state = set(state)
        self._callers = None
        self._made = None
        self._stores = {}

    # ---------------------------------------------------------- call graph
    def callers(self, path):
        if self._callers is None:
            c = {}
            for b in self.P.bodies.values():
                for bi, t in b.calls():
                    r = self.P.callee(t[1])
                    if r is None:
                        continue
                    for x in self.P.targets(r):
                        c.setdefault(x.path, []).append((b, bi, t))
            self._callers = c
        return self._callers.get(path, [])

    def made(self, path):
        """Where a closure is created: (body, block, stmt, rvalue)."""
        if self._made is None:
            m = {}
            for b in self.P.bodies.values():
                for bi in b.live_blocks():
                    for si, s in enumerate(b.blocks[bi]["s"]):
                        if s[0] == "=" and s[2][0] == "agg" and s[2][1][0] == "closure":
                            m.setdefault(s[2][1][1], []).append((b, bi, si, s[2], s[1]))
            self._made = m
        return self._made.get(path, [])

    def at(self, b, bi):
        return (bi, len(b.blocks[bi]["s"]))

    def arg_sources(self, path, i):
        """Terms (in the callers) a parameter is bound to.  None: not known to be called."""
        b = self.P.bodies[path]
        E = self.E
        out = []
        if b.kind == "closure":
            if i == 1:
                return None
            # parameters: the other arguments of the call the closure is lent to
            for pb, bi, si, rv, dest in self.made(path):
                fr = E.root(pb)
                al = self.copies(pb, dest[0])
                for cbi, t in pb.calls():
                    for j, o in enumerate(t[2]):
                        if o[0] in ("cp", "mv") and o[1][0] in al and not o[1][1]:
                            out.extend(self._lent_params(fr, pb, cbi, t, j, i))
            # zero-capture closures are constants
            for pb in self.closure_const_users(path):
                out.extend(self._lent_params(E.root(pb[0]), pb[0], pb[1], pb[2], pb[3], i))
            return out
        for pb, bi, t in self.callers(path):
            fr = E.root(pb)
            if i - 1 < len(t[2]):
                out.append(fr.operand(t[2][i - 1], self.at(pb, bi)))
        return out

    def _lent_params(self, fr, pb, bi, t, j, i):
        c = self.P.callee(t[1])
        at = self.at(pb, bi)
        if c is not None and c["def"] in CALL_ONCE and j == 0:
            return [fld(fr.operand(t[2][1], at), str(i - 2))]
        out = [elem(fr.operand(o, at)) for k, o in enumerate(t[2]) if k != j]
        for b in (self.P.targets(c) if c is not None else ()):
            # a workspace function calling its parameter
            f2 = self.E.root(b)
            for bi2, t2 in b.calls():
                c2 = self.P.callee(t2[1])
                if c2 is not None and c2["def"] in CALL_ONCE and len(t2[2]) == 2:
                    if any(y.k == "arg" and y.a[1] == j + 1 for y in walk(f2.operand(t2[2][0], self.at(b, bi2)), self.E)):
                        out.append(fld(f2.operand(t2[2][1], self.at(b, bi2)), str(i - 2)))
        return out

    def copies(self, b, l):
        """Locals holding (a reference to) the value of local l."""
        al = {l}
        ch = True
        while ch:
            ch = False
            for bi in b.live_blocks():
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and not s[1][1] and s[1][0] not in al:
                        r = s[2]
                        p = r[1] if r[0] == "ref" else (r[1][1] if r[0] == "use" and r[1][0] in ("cp", "mv") else None)
                        if p is not None and p[0] in al and all(e[0] == "*" for e in p[1]):
                            al.add(s[1][0])
                            ch = True
        return al

    def closure_const_users(self, path):
        for b in self.P.bodies.values():
            for bi, t in b.calls():
                for j, o in enumerate(t[2]):
                    if o[0] == "k" and self.P.t(o[1]["t"])["k"] == "closure" and self.P.t(o[1]["t"])["def"] == path:
                        yield (b, bi, t, j)

    def captures(self, path, i):
        out = []
        for pb, bi, si, rv, dest in self.made(path):
            fr = self.E.root(pb)
            if i < len(rv[2]):
                out.append(fr.operand(rv[2][i], (bi, si)))
        return out

    # ------------------------------------------------------------- stores
    def stores(self, adt, field):
        """Everything stored anywhere into a field of a piece of state."""
        key = (adt, field)
        if key in self._stores:
            return self._stores[key]
        self._stores[key] = out = []
        for b in self.P.bodies.values():
            fr = None
            hits = set()
            for bi in b.live_blocks():
                for si, s in enumerate(b.blocks[bi]["s"]):
                    if s[0] != "=":
                        continue
                    if _hits(s[1][1], adt, field):
                        fr = fr or self.E.root(b)
                        out.append((b, fr.rvalue(s[2], (bi, si))))
                    r = s[2]
                    if r[0] == "ref" and r[2] and _hits(r[1][1], adt, field):
                        hits.add(s[1][0])
                    if r[0] == "agg" and r[1][0] == "adt" and r[1][1] == adt and field in r[1][3]:
                        fr = fr or self.E.root(b)
                        out.append((b, fr.operand(r[2][r[1][3].index(field)], (bi, si))))
                t = b.blocks[bi]["t"]
                if t[0] == "call" and _hits(t[3][1], adt, field):
                    fr = fr or self.E.root(b)
                    out.append((b, fr.call(bi, t)))
            if hits:
                fr = fr or self.E.root(b)
                al = set(hits)
                ch = True
                while ch:
                    ch = False
                    for bi in b.live_blocks():
                        for s in b.blocks[bi]["s"]:
                            if s[0] == "=" and not s[1][1] and s[1][0] not in al:
                                r = s[2]
                                p = r[1] if r[0] == "ref" else (r[1][1] if r[0] == "use" and r[1][0] in ("cp", "mv") else None)
                                if p is not None and p[0] in al:
                                    al.add(s[1][0])
                                    ch = True
                for bi, t in b.calls():
                    for j, o in enumerate(t[2]):
                        if o[0] in ("cp", "mv") and o[1][0] in al and not o[1][1]:
                            for e in fr.lent(bi, t, j):
                                out.append((b, e))
        return out

    def adt_of_arg(self, t):
        b = self.P.bodies.get(t.a[0])
        if b is None:
            return None
        return self.P.adt_of(b.ty(t.a[1]))

    def adt_of_term(self, t):
        while t.k in ("mutd", "upd"):
            t = t.a[0]
        if t.k == "join":
            for x in t.a[0]:
                a = self.adt_of_term(x)
                if a:
                    return a
            return None
        if t.k == "agg":
            return t.a[0]
        ty = self.typ(t)
        return self.P.adt_of(ty) if ty is not None else None

    # ------------------------------------------------------------ origins
    def origins(self, t, cut=None, source=None, limit=200000):
        """Yields (leaf term, chain of terms) for what `t` is made of.

        cut(term) -> True: nothing under the term matters (sanitised, safe type).
        source(term) -> True: report this term and do not look further.
        """
        seen = set()
        todo = [(t, None)]
        n = 0
        while todo:
            x, chain = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            n += 1
            if n > limit:
                raise RuntimeError("value flow too large")
            if cut is not None and cut(x):
                continue
            link = (x, chain)
            if source is not None and source(x):
                yield x, link
                continue
            nxt = self.step(x)
            if nxt is None:
                yield x, link
                continue
            for y in nxt:
                todo.append((y, link))

    def step(self, x):
        """The terms x is made of; None for a leaf."""
        E = self.E
        k = x.k
        if k in ("const", "fn", "static", "named", "never", "self", "opaque"):
            return None
        if k == "arg":
            b = self.P.bodies.get(x.a[0])
            if b is None:
                return None
            s = self.arg_sources(x.a[0], x.a[1])
            return s if s else None
        if k == "fld":
            base, f = x.a
            if base.k == "arg":
                b = self.P.bodies.get(base.a[0])
                if b is not None and b.kind == "closure" and base.a[1] == 1 and f.isdigit():
                    return self.captures(b.path, int(f))
            adt = self.adt_of_term(base)
            if adt in self.state:
                return [e for _, e in self.stores(adt, f)]
            return [base]
        if k == "call":
            return self.call_step(x)
        if k == "clo":
            return list(x.a[1])
        if k == "eff":
            n, args = x.a
            return self.call_step(mk("call", n, args, ()))
        return children(x, E)

    def typ(self, t):
        """Type of a term, when its shape tells."""
        P = self.P
        if t.k == "arg":
            b = P.bodies.get(t.a[0])
            return b.ty(t.a[1]) if b is not None else None
        if t.k == "fld":
            base, variant = t.a[0], None
            if base.k == "var":
                base, variant = base.a[0], base.a[1]
            bt = self.typ(base)
            if bt is None:
                return None
            bt = P.peel(bt)
            ty = P.t(bt)
            if ty["k"] == "tuple" and t.a[1].isdigit():
                i = int(t.a[1])
                return ty["args"][i] if i < len(ty["args"]) else None
            if ty["k"] == "adt" and ty["def"] in P.adts:
                for v in P.adts[ty["def"]]["variants"]:
                    if variant is None or v["name"] == variant:
                        for f in v["fields"]:
                            if f["name"] == t.a[1]:
                                return f["ty"]
            return None
        return None

    def call_step(self, x):
        n, args = x.a[0], x.a[1]
        m = last(n)
        if m in LOOKUP and n not in self.P.bodies and args:
            return [args[0]]
        fs = [a for a in args if any(y.k in ("clo", "fn") for y in alts(a))]
        if fs and n not in self.P.bodies:
            data = [a for a in args if a not in fs]
            if m in FILTERLIKE:
                return data
            if m in MAPLIKE or m in MAPOR:
                params = join([elem_or(d) for d in data]) if data else mk("opaque", "none")
                out = []
                for f in fs:
                    for y in alts(f):
                        out.append(self.apply(y, params))
                if m in MAPOR:
                    out += data
                return out
            out = list(data)
            for f in fs:
                for y in alts(f):
                    out.append(self.apply(y, join(data) if data else mk("opaque", "none")))
            return out
        return list(args)

    def apply(self, f, param):
        if f.k == "clo":
            b = self.P.bodies.get(f.a[0])
            if b is not None:
                return self.E.apply(f, (param,) * (b.args - 1), frozenset(), None)
            return join(f.a[1]) if f.a[1] else mk("opaque", "clo")
        if f.k == "fn":
            b = self.P.bodies.get(f.a[0])
            n = b.args if b is not None else 1
            return self.E.apply(f, (param,) * n, frozenset(), None)
        return f


def elem_or(t):
    return t


def _hits(proj, adt, field):
    return any(e[0] == "f" and e[1] == field and e[3] == adt for e in proj)


def chain_text(link, n=6):
    out = []
    while link is not None and len(out) < n:
        out.append(show(link[0])[:120])
        link = link[1]
    return " <- ".join(reversed(out))
