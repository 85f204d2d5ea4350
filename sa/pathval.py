"""Forward, path-sensitive values of small bodies.

`Paths.run(body, args)` walks the paths of a body's control flow graph (a loop is
taken at most once), keeping for every local the term it holds and, for every
value that was matched on, which variants remain.  It yields (facts, result) per
path.  Calls of workspace functions and of known closures are entered.
"""
from terms import *
from terms import _names
from flow import last

STD_VARIANTS = {
    "std::option::Option": ["None", "Some"], "core::option::Option": ["None", "Some"],
    "std::result::Result": ["Ok", "Err"], "core::result::Result": ["Ok", "Err"],
    "alloc::borrow::Cow": ["Borrowed", "Owned"], "std::borrow::Cow": ["Borrowed", "Owned"],
    "std::ops::ControlFlow": ["Continue", "Break"], "core::ops::ControlFlow": ["Continue", "Break"],
    "std::cmp::Ordering": None,
}
TESTS = {"is_some": ("Some",), "is_none": ("None",), "is_ok": ("Ok",), "is_err": ("Err",)}


class TooMany(Exception):
    pass


class Facts:
    """Immutable: term -> remaining variants / known constant."""
    __slots__ = ("d",)

    def __init__(self, d=None):
        self.d = d or {}

    def get(self, t):
        return self.d.get(t)

    def put(self, t, v):
        d = dict(self.d)
        d[t] = v
        return Facts(d)


def norm_fld(t, name):
    if t.k == "var" and t.a[1] == "Some" and name == "0":
        return item(t.a[0])
    if t.k == "mutd" and name not in ("*",):
        pass
    return fld(t, name)


def item(t):
    """Payload of an option, element of a collection or iterator"""
    if t.k == "agg" and t.a[1] == "Some":
        return t.a[3][0]
    if t.k == "call" and last(t.a[0]) in ("next", "next_back") and t.a[1]:
        return mk("item", t.a[1][0])
    return mk("item", t)


class Paths:
    def __init__(self, P, enter=None, maxpaths=4000, maxdepth=8):
        self.P = P
        self.enter = enter or (lambda c, b: True)
        self.max = maxpaths
        self.maxdepth = maxdepth
        self.n = 0
        self.stop = False

    def variants(self, ty):
        P = self.P
        a = P.adt_of(ty)
        if a in STD_VARIANTS:
            return STD_VARIANTS[a]
        if a in P.adts and P.adts[a]["kind"] == "enum":
            return [v["name"] for v in P.adts[a]["variants"]]
        return None

    def run(self, body, args, facts=None, stack=()):
        """list of (facts, result term, trace)"""
        self.n = 0
        return self._run(body, tuple(args), facts or Facts(), stack)

    def root(self, body):
        return self.run(body, tuple(mk("arg", body.path, i + 1) for i in range(body.args)))

    def _run(self, body, args, facts, stack):
        out = []
        env = {}
        for i, a in enumerate(args):
            env[i + 1] = a
        todo = [(0, env, {}, facts, {})]
        stack = stack + (body.path,)
        while todo:
            bi, env, refs, facts, seen = todo.pop()
            seen = dict(seen)
            seen[bi] = seen.get(bi, 0) + 1
            if seen[bi] > 2:
                continue
            env, refs = dict(env), dict(refs)
            blk = body.blocks[bi]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(body, env, refs, s)
            t = blk["t"]
            k = t[0]
            if k == "goto":
                todo.append((t[1], env, refs, facts, seen))
            elif k == "drop":
                todo.append((t[2], env, refs, facts, seen))
            elif k == "assert":
                todo.append((t[5], env, refs, facts, seen))
            elif k == "ret":
                self.n += 1
                if self.n > self.max:
                    raise TooMany(body.path)
                r = env.get(0, mk("const", "()"))
                out.append((facts, r, env))
            elif k == "switch":
                for tgt, f2 in self.switch(body, env, facts, t):
                    todo.append((tgt, env, refs, f2, seen))
            elif k == "call":
                if t[4] is None:
                    continue
                for f2, v, menv in self.call(body, env, refs, facts, t, stack, (bi, seen[bi])):
                    e2 = dict(menv)
                    r2 = dict(refs)
                    self.store(body, e2, r2, t[3], v)
                    todo.append((t[4], e2, r2, f2, seen))
        return out

    # ------------------------------------------------------------- values
    def place(self, body, env, p):
        t = env.get(p[0])
        if t is None:
            t = mk("opaque", "uninit")
        for e in p[1]:
            k = e[0]
            if k == "*":
                continue
            if k == "f":
                t = norm_fld(t, e[1])
            elif k == "d":
                t = var(t, e[1])
            elif k in ("i", "c"):
                t = mk("item", t)
            elif k == "s":
                t = mk("sub", t)
            else:
                t = mk("proj", t)
        return t

    def operand(self, body, env, o):
        if o[0] in ("cp", "mv"):
            return self.place(body, env, o[1])
        if o[0] == "k":
            return self.konst(body, o[1])
        return mk("opaque", "rc")

    def konst(self, body, k):
        P = self.P
        if "fn" in k:
            return mk("fn", P.cname(k["fn"]), k["fn"]["def"])
        if "promoted" in k and "v" not in k:
            owner = P.bodies.get(k["of"]) or body
            ps = body.promoted or owner.promoted
            if k["promoted"] < len(ps):
                rs = self._run(ps[k["promoted"]], (), Facts(), ())
                if len(rs) == 1:
                    return rs[0][1]
        if "static" in k:
            return mk("static", k["static"])
        if "v" in k:
            v = k["v"]
            if isinstance(v, dict) and v.get("zst"):
                t = P.t(k["t"])
                if t["k"] == "closure":
                    return mk("clo", t["def"], ())
                if t["k"] == "tuple":
                    return mk("const", "()")
                return mk("const", "zst:" + t["s"])
            return mk("const", jkey(v), k.get("const", ""))
        if "const" in k:
            return mk("named", k["const"])
        return mk("opaque", "const:" + P.ts(k["t"]))

    def rvalue(self, body, env, r):
        k = r[0]
        if k == "use":
            return self.operand(body, env, r[1])
        if k == "ref":
            return self.place(body, env, r[1])
        if k == "cast":
            t = self.operand(body, env, r[1])
            if any(x in r[3] for x in ("PtrToPtr", "Unsize", "Pointer", "Subtype")):
                return t
            return mk("cast", t, self.P.ts(r[2]))
        if k == "bin":
            return mk("bin", r[1], self.operand(body, env, r[2]), self.operand(body, env, r[3]))
        if k == "un":
            return mk("un", r[1], self.operand(body, env, r[2]))
        if k == "discr":
            vs = self.variants(r[1][2])
            return mk("discr", self.place(body, env, r[1]), tuple(vs) if vs else ())
        if k == "repeat":
            return mk("agg", "array", "", ("*",), (self.operand(body, env, r[1]),))
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(body, env, o) for o in r[2])
            if kind[0] == "adt":
                return mk("agg", kind[1], kind[2], tuple(kind[3]), ops)
            if kind[0] == "closure":
                return mk("clo", kind[1], ops)
            return mk("agg", kind[0], "", tuple(str(i) for i in range(len(ops))), ops)
        return mk("opaque", k)

    def assign(self, body, env, refs, s):
        v = self.rvalue(body, env, s[2])
        self.store(body, env, refs, s[1], v)
        r = s[2]
        if not s[1][1]:
            refs.pop(s[1][0], None)
            if r[0] == "ref" and r[2]:
                p = r[1]
                base = p[0]
                if p[0] in refs and p[1] and p[1][0][0] == "*":
                    base, pre = refs[p[0]]
                    refs[s[1][0]] = (base, pre + tuple(map(tuple, p[1][1:])))
                elif not any(e[0] == "*" for e in p[1]):
                    refs[s[1][0]] = (base, tuple(map(tuple, p[1])))
                elif p[1] and p[1][0][0] == "*":
                    refs[s[1][0]] = (base, tuple(map(tuple, p[1])))
            elif r[0] == "use" and r[1][0] in ("mv", "cp") and r[1][1][0] in refs and not r[1][1][1]:
                refs[s[1][0]] = refs[r[1][1][0]]

    def store(self, body, env, refs, p, v):
        l, proj = p[0], [tuple(e) for e in p[1]]
        if not proj:
            env[l] = v
            return
        if l in refs and proj[0][0] == "*":
            base, pre = refs[l]
            self.update(env, base, pre + tuple(proj[1:]), v)
            env[l] = self.place_t(env, base, pre)
        else:
            self.update(env, l, tuple(proj), v)

    def place_t(self, env, l, proj):
        t = env.get(l, mk("opaque", "uninit"))
        for e in proj:
            if e[0] == "f":
                t = norm_fld(t, e[1])
            elif e[0] == "d":
                t = var(t, e[1])
            elif e[0] in ("i", "c"):
                t = mk("item", t)
        return t

    def update(self, env, l, proj, v):
        proj = [e for e in proj if e[0] != "*"]
        base = env.get(l, mk("opaque", "uninit"))
        env[l] = self.upd(base, proj, v)

    def upd(self, base, proj, v):
        if not proj:
            return v
        e = proj[0]
        if e[0] == "f":
            name = e[1]
            if base.k == "agg" and name in base.a[2]:
                i = base.a[2].index(name)
                nv = self.upd(base.a[3][i], proj[1:], v)
                return mk("agg", base.a[0], base.a[1], base.a[2], base.a[3][:i] + (nv,) + base.a[3][i + 1:])
            # a struct with one field replaced
            a = e[3] if len(e) > 3 else None
            if a in self.P.adts and self.P.adts[a]["kind"] == "struct":
                fs = [f["name"] for f in self.P.adts[a]["variants"][0]["fields"]]
                vals = tuple(self.upd(norm_fld(base, f), proj[1:], v) if f == name else norm_fld(base, f) for f in fs)
                return mk("agg", a, self.P.adts[a]["variants"][0]["name"] if False else "", tuple(fs), vals)
            if a is None and name.isdigit():
                pass
        if e[0] == "d":
            return self.upd(base, proj[1:], v)
        return mk("mutd", base, (mk("eff", "=", (mk("self"), v)),))

    # ------------------------------------------------------------ control
    def switch(self, body, env, facts, t):
        v = self.operand(body, env, t[1])
        neg = False
        while v.k == "un" and v.a[0] == "Not":
            v = v.a[1]
            neg = not neg
        if v.k == "bin" and v.a[0] in ("Eq", "Ne") and len(t[2]) == 1 and t[2][0][0] in (0, "0"):
            x, y = v.a[1], v.a[2]
            if x.k == "const" and y.k == "const":
                r = int((x.a[0] == y.a[0]) == (v.a[0] == "Eq"))
                v = mk("const", r, "")
        if v.k == "discr" and v.a[1]:
            x, names = v.a
            if x.k == "agg" and x.a[1] in names:
                i = names.index(x.a[1])
                for val, tgt in t[2]:
                    if int(val) == i:
                        return [(tgt, facts)]
                return [(t[3], facts)]
            return self.fork(facts, x, names, [(int(a), b) for a, b in t[2]], t[3])
        if v.k == "call" and last(v.a[0]) in TESTS and v.a[1]:
            names = {"is_some": ("None", "Some"), "is_none": ("None", "Some"), "is_ok": ("Ok", "Err"), "is_err": ("Ok", "Err")}[last(v.a[0])]
            yes = TESTS[last(v.a[0])][0]
            x = v.a[1][0]
            out = []
            for val, tgt in [(int(a), b) for a, b in t[2]] + [(None, t[3])]:
                truth = (val != 0) if val is not None else True
                if neg:
                    truth = not truth
                want = yes if truth else [n for n in names if n != yes][0]
                if x.k == "agg" and x.a[1] in names and x.a[1] != want:
                    continue
                cur = facts.get(x)
                if cur is not None and want not in cur:
                    continue
                out.append((tgt, facts.put(x, frozenset([want]))))
            return out
        if v.k == "const" and isinstance(v.a[0], (int, bool)):
            c = int(v.a[0])
            if neg:
                c = 1 - c
            for val, tgt in t[2]:
                if int(val) == c:
                    return [(tgt, facts)]
            return [(t[3], facts)]
        out = []
        cur = facts.get(v)
        if isinstance(cur, int):
            c = (1 - cur) if neg else cur
            for val, tgt in t[2]:
                if int(val) == c:
                    return [(tgt, facts)]
            return [(t[3], facts)]
        boolish = len(t[2]) == 1 and int(t[2][0][0]) == 0
        for val, tgt in t[2]:
            c = int(val)
            if neg:
                c = 1 - c
            if isinstance(cur, frozenset) and c in cur:
                continue
            out.append((tgt, facts.put(v, c)))
        if boolish:
            out.append((t[3], facts.put(v, 0 if neg else 1)))
        else:
            out.append((t[3], facts.put(v, frozenset([int(a) for a, _ in t[2]]) | (cur if isinstance(cur, frozenset) else frozenset()))))
        return out

    def fork(self, facts, x, names, arms, other):
        cur = facts.get(x)
        cur = cur if isinstance(cur, frozenset) else frozenset(names)
        out, left = [], set(cur)
        for i, tgt in arms:
            if i < len(names) and names[i] in cur:
                out.append((tgt, facts.put(x, frozenset([names[i]]))))
                left.discard(names[i])
        if left:
            out.append((other, facts.put(x, frozenset(left))))
        return out

    # -------------------------------------------------------------- calls
    def call(self, body, env, refs, facts, t, stack, site):
        P = self.P
        args = [self.operand(body, env, o) for o in t[2]]
        c = P.callee(t[1])
        env = dict(env)
        if c is None:
            return [(f, v, env) for f, v in self.apply(self.operand(body, env, t[1]), args, facts, stack)]
        n = P.cname(c)
        if c["def"] in CALL_ONCE and len(args) == 2:
            a = args[1]
            ps = list(a.a[3]) if a.k == "agg" and a.a[0] == "tuple" else [fld(a, "0")]
            return [(f, v, env) for f, v in self.apply(args[0], ps, facts, stack)]
        bs = P.targets(c)
        mut = [j for j, o in enumerate(t[2]) if o[0] in ("cp", "mv") and o[1][0] in refs and not o[1][1]]
        if len(bs) == 1 and bs[0].path not in stack and len(stack) < self.maxdepth \
                and bs[0].args == len(args) and self.enter(c, bs[0]) and not mut:
            return [(f, v, env) for f, v, _ in self._run(bs[0], tuple(args), facts, stack)]
        if n.endswith("Try>::branch") or n.endswith("Try::branch"):
            n = "Try>::branch"
            x = args[0]
            a0 = P.adt_of(t[2][0][1][2]) if t[2][0][0] in ("cp", "mv") else None
            kinds = {"Option": ("Some", "None"), "Result": ("Ok", "Err")}.get((a0 or "").rsplit("::", 1)[-1])
            if kinds:
                CF = "std::ops::ControlFlow"
                out = []
                have = frozenset([x.a[1]]) if x.k == "agg" else facts.get(x)
                for v in kinds:
                    if have is not None and v not in have:
                        continue
                    f2 = facts if x.k == "agg" else facts.put(x, frozenset([v]))
                    if v in ("Some", "Ok"):
                        p = x.a[3][0] if x.k == "agg" else item(x) if v == "Some" else fld(var(x, "Ok"), "0")
                        out.append((f2, mk("agg", CF, "Continue", ("0",), (p,)), env))
                    else:
                        p = (x.a[3][0] if x.k == "agg" else fld(var(x, "Err"), "0")) if v == "Err" else mk("const", "()")
                        out.append((f2, mk("agg", CF, "Break", ("0",), (mk("residual", p),)), env))
                return out
        m = last(n)
        if m == "from_residual":
            rt = P.adt_of(t[3][2]) or ""
            if rt.endswith("::Option"):
                return [(facts, mk("agg", rt, "None", (), ()), env)]
            if rt.endswith("::Result"):
                return [(facts, mk("agg", rt, "Err", ("0",), (mk("call", "residual", tuple(args), ()),)), env)]
        if m in ("next", "next_back"):
            v = mk("call", n, (args[0], mk("const", "visit%d" % site[1], "")), ())
            return [(facts, v, env)]
        ta = tuple(P.ts(x) for x in c["args"])
        v = mk("call", n, tuple(args), ta)
        for j in mut:
            base, pre = refs[t[2][j][1][0]]
            old = self.place_t(env, base, pre)
            eargs = tuple(mk("self") if i == j else a for i, a in enumerate(args))
            eff = mk("eff", n, eargs)
            new = mk("mutd", old.a[0], old.a[1] + (eff,)) if old.k == "mutd" else mk("mutd", old, (eff,))
            self.update(env, base, pre, new)
            env[t[2][j][1][0]] = new
        return [(facts, v, env)]

    def apply(self, f, args, facts, stack):
        if f.k == "clo":
            b = self.P.bodies.get(f.a[0])
            if b is not None and b.path not in stack and b.args == len(args) + 1 and len(stack) < self.maxdepth + 4:
                return [(x, v) for x, v, _ in self._run(b, (f,) + tuple(args), facts, stack)]
        elif f.k == "fn":
            b = self.P.bodies.get(f.a[0])
            if b is not None and b.path not in stack and b.args == len(args) and self.enter(None, b) and len(stack) < self.maxdepth:
                return [(x, v) for x, v, _ in self._run(b, tuple(args), facts, stack)]
            # a constructor
            return [(facts, mk("call", f.a[0], tuple(args), ()))]
        return [(facts, mk("call", "?", (f,) + tuple(args), ()))]
