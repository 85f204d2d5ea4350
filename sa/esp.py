"""Property simulation: a finite property of what a body writes, followed over
every path to a fixpoint.

States that agree on the property are merged (facts intersected, differing
locals forgotten), states that differ are kept apart with their own facts, so
that tests repeated on one value stay correlated with what was written.  Loops
are iterated until nothing new appears: any number of rounds is covered.
"""
from terms import *
from pathval import Paths, Facts, item, norm_fld, TESTS
from flow import last
import fmtargs
import heapq

WRITES = {"write_fmt", "write_str", "write_char", "push_str", "push"}
SAME = {"to_string", "as_str", "deref", "clone", "into", "from", "to_owned", "as_ref", "into_owned", "borrow", "into_string",
        "into_boxed_str", "must_use", "to_str", "into_borrowed"}


def mentions(t, targets, memo):
    if t in targets:
        return True
    if t in memo:
        return memo[t]
    r = False
    stack = list(t.a)
    for a in stack:
        if isinstance(a, Term):
            if mentions(a, targets, memo):
                r = True
                break
        elif isinstance(a, (tuple, frozenset)):
            stack.extend(a)
    memo[t] = r
    return r


class Esp(Paths):
    """auto: .event(prop, ev, where) -> iterable of props."""

    def __init__(self, P, auto, is_child, interesting, maxstates=20000):
        super().__init__(P)
        self.auto = auto
        self.is_child = is_child          # (callee record, name) -> the call writes on its own account
        self.interesting = interesting    # body -> it writes to the formatter
        self.pv = Paths(P, maxpaths=64)
        self.maxstates = maxstates
        self.nstates = 0
        self.recursed = set()
        self.pvmemo = {}
        self.phis = {}
        self.alts = {}
        self.orders = {}

    # ---------------------------------------------------------------- run
    def analyse(self, body, prop, sink, facts=None):
        """sink: index (1-based) of the argument that is written to"""
        args = tuple(mk("arg", body.path, i + 1) for i in range(body.args))
        self.F = args[sink - 1]
        self.Fty = self.P.t(self.P.peel(body.locals[sink][0]))["s"]
        return self.sim(body, args, facts or Facts(), prop, ())

    def sim(self, body, args, facts, prop, stack):
        ctx = len(stack)
        stack = stack + (body.path,)
        env0 = {i + 1: a for i, a in enumerate(args)}
        order = self.order(body)
        widened = {}
        while True:
            outs = self.sweep(body, env0, facts, prop, stack, ctx, order, widened)
            if outs is not None:
                return [(p, f, v) for (p, v), f in outs.items()]

    def order(self, body):
        """reverse postorder number of each block"""
        if body.path in self.orders:
            return self.orders[body.path]
        seen, post = set(), []
        st = [(0, iter(body.succ(0)))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(body.succ(s))))
                    break
            else:
                post.append(b)
                st.pop()
        r = {b: i for i, b in enumerate(reversed(post))}
        self.orders[body.path] = r
        return r

    def join(self, old, new, at):
        """(merged state, changed)"""
        oenv, orefs, ofacts = old
        env, refs, facts = new
        nenv, ch = {}, False
        for l, t in oenv.items():
            u = env.get(l)
            if u is None:
                ch = True
                continue
            nenv[l] = self.merge(t, u, at, str(l))
            if nenv[l] is not t:
                ch = True
        nrefs = {l: r for l, r in orefs.items() if refs.get(l) == r}
        ch = ch or len(nrefs) != len(orefs)
        nf = {}
        for k, v in ofacts.d.items():
            w = facts.d.get(k)
            if w is None:
                ch = True
            elif w == v:
                nf[k] = v
            elif isinstance(w, frozenset) and isinstance(v, frozenset) and all(isinstance(x, str) for x in w | v):
                nf[k] = w | v
                if nf[k] != v:
                    ch = True
            else:
                ch = True
        return (nenv, nrefs, Facts(nf)), ch

    def sweep(self, body, env0, facts0, prop0, stack, ctx, order, widened):
        table, outs, work, done = {}, {}, [], set()
        cnt = [0]

        def arrive(bi, env, refs, facts, prop):
            at = (body.path, ctx, bi)
            key = (bi, prop, self.consts(body, env))
            ph = self.phis.get(at)
            if ph:
                memo = {}
                facts = Facts({k: v for k, v in facts.d.items() if not mentions(k, ph, memo)})
            st = (env, refs, facts)
            old = table.get(key)
            if old is None:
                if key in widened:
                    st, _ = self.join(widened[key], st, at)
                table[key] = st
                self.nstates += 1
                if self.nstates > self.maxstates:
                    raise RuntimeError("too many states in " + body.path)
                cnt[0] += 1
                heapq.heappush(work, (order[bi], cnt[0], key))
                return False
            new, ch = self.join(old, st, at)
            if not ch:
                return False
            if key in done:
                widened[key] = new
                return True
            table[key] = new
            return False

        arrive(0, env0, {}, facts0, prop0)
        while work:
            _, _, key = heapq.heappop(work)
            if key in done:
                continue
            done.add(key)
            bi, prop = key[0], key[1]
            env, refs, facts = table[key]
            env, refs = dict(env), dict(refs)
            blk = body.blocks[bi]
            for s in blk["s"]:
                if s[0] == "=":
                    self.assign(body, env, refs, s)
            t = blk["t"]
            k = t[0]
            nxt = []
            if k == "goto":
                nxt.append((t[1], env, refs, facts, prop))
            elif k == "drop":
                nxt.append((t[2], env, refs, facts, prop))
            elif k == "assert":
                nxt.append((t[5], env, refs, facts, prop))
            elif k == "ret":
                r = env.get(0, mk("const", "()"))
                ok = (prop, r)
                if ok in outs:
                    o = outs[ok]
                    outs[ok] = Facts({a: b for a, b in o.d.items() if facts.d.get(a) == b})
                else:
                    outs[ok] = facts
            elif k == "switch":
                for tgt, f2 in self.switch(body, env, facts, t):
                    for p2 in self.branched(prop, facts, f2, (body, t[4] if len(t) > 4 else None, bi)):
                        nxt.append((tgt, env, refs, f2, p2))
            elif k == "call":
                if t[4] is None:
                    continue
                for f2, v, e2, p2 in self.docall(body, env, refs, facts, t, stack, bi, prop):
                    r2 = dict(refs)
                    e2 = dict(e2)
                    self.store(body, e2, r2, t[3], v)
                    nxt.append((t[4], e2, r2, f2, p2))
            for x in nxt:
                if arrive(*x):
                    return None
        return outs

    def merge(self, t, u, at, l):
        if t is u:
            return t
        if t.k == "agg" and u.k == "agg" and t.a[:3] == u.a[:3] and len(t.a[3]) == len(u.a[3]):
            return mk("agg", t.a[0], t.a[1], t.a[2],
                      tuple(self.merge(x, y, at, "%s.%d" % (l, i)) for i, (x, y) in enumerate(zip(t.a[3], u.a[3]))))
        p = mk("phi", at[0], at[1], at[2], l)
        self.alts.setdefault(p, set()).update(x for x in (t, u) if x is not p)
        self.phis.setdefault(at, set()).add(p)
        return p

    def consts(self, body, env):
        out = []
        r = env.get(0)
        if r is not None and r.k == "agg" and r.a[1] in ("Ok", "Err", "None", "Some"):
            out.append((0, r.a[1]))
        for l, t in env.items():
            if t.k == "const" and isinstance(t.a[0], (str, bool, int)) and body.locals[l][1] and not (
                    isinstance(t.a[0], str) and t.a[0].startswith(("zst", "()"))):
                out.append((l, t.a[0]))
        return tuple(sorted(out, key=lambda x: x[0]))

    def branched(self, prop, f1, f2, where):
        h = getattr(self.auto, "on_branch", None)
        if h is None or f1 is f2:
            return (prop,)
        props = (prop,)
        for k, v in f2.d.items():
            if f1.d.get(k) != v:
                nx = set()
                for p in props:
                    nx.update(h(p, k, v, where))
                props = tuple(nx)
        return props

    def update(self, env, l, proj, v):
        if env.get(l) is self.F and proj:
            return
        super().update(env, l, proj, v)

    # --------------------------------------------------------------- calls
    def fresh(self, env, facts, targets):
        """The values `targets` are computed anew: forget what was known of the old ones."""
        memo = {}
        facts = Facts({k: v for k, v in facts.d.items() if not mentions(k, targets, memo)})
        env = {l: (mk("stale", l, t) if mentions(t, targets, memo) else t) for l, t in env.items()}
        return env, facts

    def docall(self, body, env, refs, facts, t, stack, bi, prop):
        P = self.P
        args = [self.operand(body, env, o) for o in t[2]]
        c = P.callee(t[1])
        where = (body, t[5] if len(t) > 5 else None, bi)
        site = mk("const", "site:%s:%d:%d" % (body.path, bi, len(stack)), "")
        if c is None or c["def"] in CALL_ONCE:
            if c is None:
                f, ps = self.operand(body, env, t[1]), args
            else:
                a = args[1]
                f, ps = args[0], (list(a.a[3]) if a.k == "agg" and a.a[0] == "tuple" else [fld(a, "0")])
            r = self.callvalue(f, ps, facts, stack, prop)
            if r is not None:
                return [(f2, v, env, p2) for p2, f2, v in r]
            return [(facts, mk("call", "?", (f,) + tuple(ps), ()), env, prop)]
        n = P.cname(c)
        m = last(n)
        if n.endswith("::branch") and "Try" in n:
            return self.branch(args[0], facts, env, prop)
        if m == "from_residual":
            d = P.ts(body.locals[t[3][0]][0])
            return [(facts, mk("agg", "core::result::Result", "Err", ("0",), (args[0],)) if "Option" not in d.split("<")[0]
                     else mk("agg", "core::option::Option", "None", (), ()), env, prop)]
        hasF = [i for i, a in enumerate(args) if a is self.F or self.inclo(a)]
        if hasF:
            direct = [i for i in hasF if args[i] is self.F]
            if direct and m in WRITES and direct[0] == 0 and len(args) == 2 and not (n in P.bodies and not self.is_sink_write(n)):
                evs = self.events(m, args[1])
                props = {prop}
                for ev in evs:
                    nx = set()
                    for p in props:
                        nx.update(self.auto.event(p, ev, where))
                    props = nx
                v = mk("call", "write", (site,), ())
                env, facts = self.fresh(env, facts, {v})
                return [(facts, v, env, p) for p in props]
            if self.is_child(c, n):
                v = mk("call", n, tuple(args) + (site,), ())
                env, facts = self.fresh(env, facts, {v})
                return [(facts, v, env, p) for p in self.auto.event(prop, ("child", n, args), where)]
            bs = P.targets(c)
            if len(bs) == 1 and bs[0].args == len(args):
                b = bs[0]
                if self.interesting(b) or any(self.writes_param(a) for a in args):
                    if b.path in stack:
                        self.recursed.add(b.path)
                        v = mk("call", n, tuple(args) + (site,), ())
                        env, facts = self.fresh(env, facts, {v})
                        return [(facts, v, env, p) for p in self.auto.event(prop, ("child", n, args), where)]
                    return [(f2, v, env, p2) for p2, f2, v in self.sim(b, tuple(args), facts, prop, stack)]
                v = self.pure(b, args, facts)
                if v is not None and not self.muts(body, refs, t):
                    return [(facts, v, env, prop)]
            elif not bs:
                # foreign function: it may run the closures it is given
                clos = [a for a in args if a.k == "clo" and self.inclo(a)]
                if clos:
                    return self.foreign(n, args, clos, body, env, refs, facts, t, stack, site, prop)
            v = mk("call", n, tuple(args) + (site,), ())
            env, facts = self.fresh(env, facts, {v})
            h = getattr(self.auto, "on_sink", None)
            return [(facts, v, self.effects(body, env, refs, t, n, args), p2) for p2 in (h(prop, n, args, where) if h else (prop,))]
        muts = self.muts(body, refs, t)
        if m in ("next", "next_back"):
            v = mk("call", n, (args[0], site), ())
            env, facts = self.fresh(env, facts, {v, item(v)})
            h = getattr(self.auto, "on_next", None)
            if h is not None:
                return [(facts, v, env, p) for p in h(prop, args[0], v, self.P.t(body.locals[t[3][0]][0])["args"][0], where)]
            return [(facts, v, env, prop)]
        bs = P.targets(c)
        if not muts and len(bs) == 1 and bs[0].args == len(args):
            v = self.pure(bs[0], args, facts)
            if v is not None:
                return [(facts, v, env, prop)]
        v = self.fold(m, args)
        if v is not None:
            return [(facts, v, env, prop)]
        ta = tuple(P.ts(x) for x in c["args"])
        if muts:
            v = mk("call", n, tuple(args) + (site,), ta)
            env, facts = self.fresh(env, facts, {v})
        else:
            v = mk("call", n, tuple(args), ta)
        return [(facts, v, self.effects(body, env, refs, t, n, args), prop)]

    def is_sink_write(self, n):
        return True

    def fold(self, m, args):
        if all(a.k == "const" and isinstance(a.a[0], str) for a in args) and args:
            if m == "is_empty":
                return mk("const", int(args[0].a[0] == ""), "")
            if m in ("eq", "ne") and len(args) == 2:
                return mk("const", int((args[0].a[0] == args[1].a[0]) == (m == "eq")), "")
            if m in ("deref", "as_str", "clone", "as_ref", "into", "from", "to_string", "to_owned"):
                return args[0]
        return None

    def muts(self, body, refs, t):
        return [j for j, o in enumerate(t[2]) if o[0] in ("cp", "mv") and o[1][0] in refs and not o[1][1]]

    def effects(self, body, env, refs, t, n, args):
        muts = [j for j in self.muts(body, refs, t) if args[j] is not self.F]
        if not muts:
            return env
        env = dict(env)
        for j in muts:
            base, pre = refs[t[2][j][1][0]]
            old = self.place_t(env, base, pre)
            eargs = tuple(mk("self") if i == j else a for i, a in enumerate(args))
            eff = mk("eff", n, eargs)
            new = mk("mutd", old.a[0], old.a[1] + (eff,)) if old.k == "mutd" else mk("mutd", old, (eff,))
            self.update(env, base, pre, new)
            env[t[2][j][1][0]] = new
        return env

    def inclo(self, a, d=0):
        if a.k == "clo":
            return any(x is self.F or self.inclo(x, d + 1) for x in a.a[1])
        if a.k == "call" and d < 6:      # an iterator adaptor holding the closure
            return any(isinstance(x, Term) and x.k in ("clo", "call") and self.inclo(x, d + 1) for x in a.a[1])
        return False

    def writes_param(self, a):
        """a closure that is handed the formatter"""
        b = self.P.bodies.get(a.a[0]) if a.k == "clo" else None
        return b is not None and any(self.P.t(self.P.peel(b.locals[i][0]))["s"] == self.Fty for i in range(2, b.args + 1))

    def pure(self, b, args, facts):
        """value of a workspace function, if it has one value"""
        key = (b.path, tuple(args), tuple(sorted(((k.id, str(v)) for k, v in facts.d.items()), key=str)))
        if key in self.pvmemo:
            return self.pvmemo[key]
        v = None
        try:
            rs = self.pv.run(b, tuple(args), facts)
            vs = {r for _, r, _ in rs}
            if len(vs) == 1:
                v = next(iter(vs))
                if v.k in ("opaque",):
                    v = None
        except Exception:
            v = None
        self.pvmemo[key] = v
        return v

    def callvalue(self, f, args, facts, stack, prop):
        b = None
        if f.k == "clo":
            b = self.P.bodies.get(f.a[0])
            args = [f] + list(args)
        elif f.k == "fn":
            b = self.P.bodies.get(f.a[0])
        if b is None or b.args != len(args) or b.path in stack or len(stack) > 12:
            return None
        return self.sim(b, tuple(args), facts, prop, stack)

    def foreign(self, n, args, clos, body, env, refs, facts, t, stack, site, prop):
        """The closures run any number of times, each time on an item of the receiver."""
        props = {prop: facts}
        todo = [prop]
        while todo:
            p = todo.pop()
            for cl in clos:
                b = self.P.bodies.get(cl.a[0])
                if b is None or b.path in stack:
                    continue
                ps = [item(args[0]) if args[0] is not cl else mk("opaque", "closure-param")] + \
                    [mk("opaque", "closure-param%d" % i) for i in range(b.args - 2)]
                h = getattr(self.auto, "on_item", None)
                ty = b.locals[2][0] if b.args > 1 else None
                rs = []
                for p1 in (h(p, args[0], ty, True, (body, None, 0)) if h else (p,)):
                    rs += self.callvalue(cl, ps[:b.args - 1], Facts(), stack, p1) or []
                for p2, f2, v in rs:
                    if self.is_err(v, f2):
                        continue
                    for p2 in (h(p2, args[0], ty, False, (body, None, 0)) if h else (p2,)):
                      if p2 not in props:
                        props[p2] = facts
                        todo.append(p2)
        v = mk("call", n, tuple(args) + (site,), ())
        env, facts = self.fresh(env, facts, {v})
        h = getattr(self.auto, "on_item", None)
        if h:
            props = {q for p in props for q in h(p, args[0], None, None, (body, None, 0))}
        return [(facts, v, env, p) for p in props]

    def is_err(self, v, facts):
        if v.k == "agg" and v.a[1] in ("Err",):
            return True
        f = facts.get(v)
        return isinstance(f, frozenset) and f == frozenset(["Err"])

    def branch(self, x, facts, env, prop):
        good = {"Ok": "Continue", "Some": "Continue", "Continue": "Continue", "Err": "Break", "None": "Break", "Break": "Break"}
        if x.k == "agg" and x.a[1] in good:
            v = mk("agg", "core::ops::ControlFlow", good[x.a[1]], ("0",), (x.a[3][0] if x.a[3] else mk("const", "()"),))
            return [(facts, v, env, prop)]
        cur = facts.get(x)
        names = cur if isinstance(cur, frozenset) else frozenset(["Ok", "Err"])
        out = []
        for nm in sorted(names):
            if nm not in good:
                continue
            pay = norm_fld(var(x, nm), "0")
            v = mk("agg", "core::ops::ControlFlow", good[nm], ("0",), (pay,))
            out.append((facts.put(x, frozenset([nm])), v, env, prop))
        return out

    # -------------------------------------------------------------- events
    def events(self, m, a):
        if m == "write_fmt":
            ps = fmtargs.pieces(a)
            if ps is None:
                return [("value", a, "?")]
            out = []
            for p in ps:
                if isinstance(p, str):
                    out.append(("text", p))
                else:
                    out.extend(self.expand(p[0], p[1]))
            return out
        return self.expand(a, "str")

    def expand(self, t, tr, d=0):
        if d > 12:
            return [("value", t, tr)]
        if t.k == "const":
            if isinstance(t.a[0], str):
                return [("text", t.a[0])]
            if isinstance(t.a[0], int) and tr == "str" and t.a[0] < 0x110000:
                return [("text", chr(t.a[0]))]
        if t.k == "call":
            m = last(t.a[0])
            if m == "format" and t.a[1]:
                ps = fmtargs.pieces(t.a[1][0])
                if ps is not None:
                    out = []
                    for p in ps:
                        if isinstance(p, str):
                            out.append(("text", p))
                        else:
                            out.extend(self.expand(p[0], p[1], d + 1))
                    return out
            if m in SAME and len(t.a[1]) == 1:
                e = self.expand(t.a[1][0], tr, d + 1)
                if any(x[0] == "text" for x in e):
                    return e
            if m in ("new", "with_capacity") and "String" in t.a[0]:
                return []
        if t.k == "mutd":
            base = self.expand(t.a[0], tr, d + 1)
            out = list(base)
            for e in t.a[1]:
                m, args = last(e.a[0]), e.a[1]
                if m in WRITES and len(args) == 2:
                    out.extend(self.events(m, args[1]))
                elif m in ("reserve", "deref", "shrink_to_fit"):
                    pass
                else:
                    return [("value", t, tr)]
            return out
        return [("value", t, tr)]
