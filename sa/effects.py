"""Forward abstract interpretation of the command line: which library operations run, on what, under which options.

A value is a set of terms (nested tuples); an option of the command line is the
term of its field, so it means the same wherever it is passed to. States are kept
apart by the yes/no conditions that were branched on. Workspace functions and
closures are entered, everything else is an event (function, operation, operands,
conditions). References, Option and Result are seen through.
"""
from flow import last

DEEP, WIDE = 40, 12
SAME = {"deref", "deref_mut", "as_ref", "as_mut", "as_path", "to_path_buf", "clone", "to_owned", "into", "from", "borrow", "as_str", "as_deref", "cloned",
        "copied", "unwrap", "expect", "unwrap_or_default", "branch", "canonicalize", "as_bytes", "iter", "iter_mut", "into_iter", "as_slice", "ok", "to_str",
        "as_os_str", "into_owned", "to_string_lossy", "from_output", "by_ref", "as_mut_slice", "borrow_mut", "into_boxed_path", "as_mut_path", "as_deref_mut",
        "into_path_buf", "to_vec", "into_vec", "collect", "path", "into_path", "transpose", "as_parallel_slice", "peekable", "fuse", "must_use", "ok_or", "to_string",
        "inspect", "min_depth", "max_depth", "sort_by_file_name", "follow_links", "new_path", "flatten", "ok_or_else", "inspect_err"}
ITER = {"map", "filter", "filter_map", "for_each", "any", "all", "find", "find_map", "flat_map", "position", "try_for_each", "partition", "retain", "take_while",
        "skip_while", "map_while", "filter_entry"}
WRAP = {"std::option::Option", "core::option::Option", "std::result::Result", "core::result::Result", "std::ops::ControlFlow", "core::ops::ControlFlow",
        "std::borrow::Cow", "alloc::borrow::Cow", "std::boxed::Box", "alloc::boxed::Box"}
WRAPS = {x.rsplit("::", 1)[-1] for x in WRAP}
# there is one of each of these
ONE = {"HtmlConfig", "VimwikiConfig", "Ast", "CommonOpt", "ConvertSubcommand", "FormatSubcommand", "InspectSubcommand"}
FEED = {"update": "update", "input": "update", "consume": "update", "set_extension": "with_extension", "set_file_name": "with_file_name"}
UNKNOWN = ("?",)
ERR = ("err",)


def depth(t):
    return 1 + max([depth(x) for x in t if isinstance(x, tuple)] + [max([depth(y) for y in x] + [0]) for x in t if isinstance(x, frozenset)] + [0])


def cap(ts):
    ts = frozenset(t if depth(t) <= DEEP else UNKNOWN for t in ts)
    return ts if len(ts) <= WIDE else frozenset([UNKNOWN])


def bare(v):
    """without what the configurations in it carry"""
    if isinstance(v, frozenset):
        return frozenset(bare(x) for x in v)
    if isinstance(v, tuple):
        if v and v[0] == "the":
            return v[:2]
        return tuple(bare(x) if isinstance(x, (tuple, frozenset)) else x for x in v)
    return v


def one(t):
    return frozenset([t])


def walk(t):
    """all subterms of a term or value"""
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, frozenset):
            todo.extend(x)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            todo.extend(y for y in x if isinstance(y, (tuple, frozenset)))


class Event:
    __slots__ = ("body", "block", "name", "full", "args", "facts", "result", "callee", "ctx")

    def __init__(self, body, block, name, full, args, facts, result, callee):
        self.body, self.block, self.name, self.full, self.args, self.facts, self.result, self.callee = body, block, name, full, args, facts, result, callee

    def fact(self, key):
        return dict(self.facts).get(key)


class Sim:
    def __init__(self, P, crates=("vimwiki_cli",), opaque=(), flags=("no_cache", "no_prune_cache", "stdout", "inline", "include_vimwiki_css")):
        self.P, self.crates, self.flags = P, crates, set(flags)
        self.opaque = set(opaque)
        self.events = {}
        self.stores = {}
        self.memo = {}
        self.muts = {}
        self.ctx = ()

    # ---------------------------------------------------------------- terms
    def proj(self, v, pr):
        for e in pr:
            k = e[0]
            if k == "*":
                continue
            if k == "d":
                v = frozenset(t for t in v if not (t[0] == "agg" and t[2] not in ("", e[1], {"Continue": "Ok", "Break": "Err"}.get(e[1])))) or v
                if e[1] in ("Ok", "Some", "Continue") and len(v) > 1:
                    v = v - {ERR}
            elif k == "f":
                out = set()
                for t in v:
                    out |= self.field(t, e)
                v = cap(out)
            elif k in ("i", "c"):
                v = cap({self.item1(t) for t in v})
        return v

    def field(self, t, e):
        name = e[1]
        if (e[3] if len(e) > 3 else None) in WRAP and not (t[0] == "agg" and t[1] in WRAPS):
            return one(t)
        if t[0] == "agg":
            if name in t[3]:
                return t[4][t[3].index(name)]
            return one(UNKNOWN)
        if t[0] == "clo":
            return t[2][int(name)] if name.isdigit() and int(name) < len(t[2]) else one(UNKNOWN)
        a = e[3] if len(e) > 3 else None
        if a is None and name.isdigit():
            return one(("part", name, t))
        a = (a or "").rsplit("::", 1)[-1]
        return one(("f", a, name, ("the", a) if a in ONE else t))

    def items(self, v):
        out = set()
        for t in v:
            out |= self.itemset(t)
        return cap(out)

    def itemset(self, t):
        if t[0] == "filter":
            return self.itemset(t[1])
        if t[0] == "seq":
            return t[1]
        if t[0] == "enum":
            return one(("agg", "tuple", "", ("0", "1"), (one(("index", t[1])), self.itemset(t[1]))))
        return one(("item", t))

    def item1(self, t):
        s = self.itemset(t)
        return next(iter(s)) if len(s) == 1 else UNKNOWN

    def operand(self, b, env, o):
        if o[0] in ("cp", "mv"):
            return self.proj(env.get(o[1][0], one(UNKNOWN)), o[1][1])
        if o[0] == "k":
            k = o[1]
            if "fn" in k:
                return one(("fn", self.P.cname(k["fn"]), k["fn"]["def"]))
            if "promoted" in k and "v" not in k:
                ow = self.P.bodies.get(k["of"]) or b
                ps = b.promoted or ow.promoted
                if k["promoted"] < len(ps):
                    v = frozenset()
                    for f, r in self.body(ps[k["promoted"]], (), frozenset(), ()):
                        v |= r
                    return v or one(UNKNOWN)
            if "v" in k:
                v = k["v"]
                if isinstance(v, (bool, int, str)):
                    return one(("const", v))
                if isinstance(v, dict) and v.get("zst"):
                    t = self.P.t(k["t"])
                    if t["k"] == "closure":
                        return one(("clo", t["def"], ()))
                return one(("const", str(v)))
            if "const" in k:
                return one(("named", k["const"]))
        return one(UNKNOWN)

    def rvalue(self, b, env, r):
        k = r[0]
        if k == "use":
            return self.operand(b, env, r[1])
        if k in ("ref", "addr"):
            return self.proj(env.get(r[1][0], one(UNKNOWN)), r[1][1])
        if k == "cast":
            return self.operand(b, env, r[1])
        if k == "bin":
            x, y = self.operand(b, env, r[2]), self.operand(b, env, r[3])
            if len(x) == 1 and len(y) == 1:
                return one(("bin", r[1], next(iter(x)), next(iter(y))))
            return one(("bin", r[1], UNKNOWN, UNKNOWN))
        if k == "un":
            if r[1] == "Not":
                return frozenset(self.neg(t) for t in self.operand(b, env, r[2]))
            return one(("un", r[1]))
        if k == "discr":
            v = self.proj(env.get(r[1][0], one(UNKNOWN)), r[1][1])
            ty = self.P.adt_of(r[1][2])
            return frozenset(("discr", t, ty) for t in v)
        if k == "agg":
            kind = r[1]
            ops = tuple(self.operand(b, env, o) for o in r[2])
            if kind[0] == "adt":
                return one(("agg", kind[1].rsplit("::", 1)[-1], kind[2] if self.enum(kind[1]) else "", tuple(kind[3]), ops))
            if kind[0] == "closure":
                return one(("clo", kind[1], ops))
            if kind[0] == "array":
                return one(("seq", cap(frozenset().union(*ops)) if ops else frozenset(), ("const", "array")))
            return one(("agg", kind[0], "", tuple(str(i) for i in range(len(ops))), ops))
        return one(UNKNOWN)

    def enum(self, path):
        if path in self.P.adts:
            return self.P.adts[path]["kind"] == "enum"
        return path.rsplit("::", 1)[-1] in ("Option", "Result", "ControlFlow", "Cow", "Ordering")

    @staticmethod
    def neg(t):
        if t[0] == "const":
            return ("const", not t[1])
        return t[1] if t[0] == "not" else ("not", t)

    # ---------------------------------------------------------------- bodies
    def root(self, b, args):
        return self.body(b, args, frozenset(), ())

    def body(self, b, args, facts, stack):
        """[(facts, value)]"""
        if b.path in stack or len(stack) > 12:
            return [(facts, one(UNKNOWN))]
        key = (id(b), args, facts)
        if key in self.memo:
            return self.memo[key]
        stack = stack + (b.path,)
        outer, self.ctx = self.ctx, args
        r = self.steps(b, args, facts, stack)
        self.ctx = outer
        self.memo[key] = r
        return r

    def steps(self, b, args, facts, stack):
        env0 = {i + 1: a for i, a in enumerate(args)}
        states = {(0, facts): env0}
        todo = [(0, facts)]
        outs = {}
        n = 0
        while todo:
            n += 1
            if n > 60000:
                break
            bi, fs = todo.pop()
            env = dict(states[(bi, fs)])
            blk = b.blocks[bi]
            for s in blk["s"]:
                if s[0] == "=":
                    if s[2][0] == "agg" and s[2][1][0] == "adt" and s[2][1][1] in self.P.adts:
                        for f, o in zip(s[2][1][3], s[2][2]):
                            self.stored(b, bi, s[2][1][1].rsplit("::", 1)[-1], f, fs, self.operand(b, env, o))
                    self.store(b, bi, env, s[1], self.rvalue(b, env, s[2]), fs)
            t = blk["t"]
            k = t[0]
            nxt = []
            if k == "goto":
                nxt = [(t[1], fs, env)]
            elif k == "drop":
                nxt = [(t[2], fs, env)]
            elif k == "assert":
                nxt = [(t[5], fs, env)]
            elif k == "ret":
                v = env.get(0, one(("const", "()")))
                if b.kind != "closure" and "option::Option" in self.P.ts(b.locals[0][0]):
                    v = self.searched(v, fs - facts)
                for i, a in enumerate(args):
                    if env.get(i + 1, a) != a and self.P.ts(b.locals[i + 1][0]).startswith("&mut") and "HtmlConfig" in self.P.ts(b.locals[i + 1][0]):
                        m = self.muts.setdefault((id(b), args), {})
                        m[i] = cap(m.get(i, frozenset()) | env[i + 1])
                outs[fs] = cap(outs.get(fs, frozenset()) | v)
            elif k == "switch":
                nxt = [(tg, f2, env) for tg, f2 in self.switch(b, env, fs, t)]
                alts = None
                if t[1][0] in ("cp", "mv"):
                    for s in blk["s"]:
                        if s[0] == "=" and s[1][0] == t[1][1][0] and s[2][0] == "discr" and not s[2][1][1]:
                            alts = env.get(("next", s[2][1][0]))
                if alts:
                    some = ([tg for x, tg in t[2] if int(x) == 1] or [t[3]])[0]
                    nxt = [(tg, f2 | k, env) for tg, f2, _ in nxt for k in (alts if tg == some else [frozenset()]) if self.agree(f2, k)]
            elif k == "call":
                if t[4] is not None:
                    env.pop(("next", t[3][0]), None)
                    for f2, v in self.call(b, bi, env, fs, t, stack):
                        e2 = dict(env)
                        self.store(b, bi, e2, t[3], v, f2)
                        self.fed(b, blk, t, env, e2)
                        nxt.append((t[4], f2, e2))
                else:
                    self.call(b, bi, env, fs, t, stack)
            for tg, f2, e2 in nxt:
                old = states.get((tg, f2))
                if old is None:
                    states[(tg, f2)] = e2
                    todo.append((tg, f2))
                else:
                    new, ch = dict(old), False
                    for l, v in e2.items():
                        w = new.get(l)
                        if w is None:
                            new[l] = v
                            ch = True
                        elif isinstance(l, tuple):
                            if w != v and w:
                                new[l] = ()
                                ch = True
                        elif not v <= w and w != one(UNKNOWN):
                            new[l] = cap(w | v)
                            ch = ch or new[l] != w
                    if ch:
                        states[(tg, f2)] = new
                        todo.append((tg, f2))
        # what was learnt in it is kept where the answer depends on it
        rt = self.P.ts(b.locals[0][0])
        by = {}
        for f, v in outs.items():
            g = v if rt == "bool" or "option::Option" in rt and all(t[0] == "agg" for t in v) and any(t[2] == "None" for t in v) else None
            if g in by:
                by[g] = (by[g][0] & f, cap(by[g][1] | v))
            else:
                by[g] = (f, v)
        r = sorted([(f if rt == "bool" or b.kind == "closure" and "option::Option" in rt else self.global_facts(f) | (facts & f), v) for f, v in by.values()], key=str)
        return r

    def runtime(self, base, names, v):
        """a config whose runtime, or a field of it, is given"""
        out = set()
        for t in base:
            page, idx = t[2:] if len(t) == 4 else (one(UNKNOWN), one(UNKNOWN))
            if names == ("page",):
                page = v
            elif names == ("wiki_index",):
                idx = v
            else:
                page = cap(frozenset().union(*[self.field(x, ("f", "page", 0, "HtmlRuntimeConfig")) for x in v]))
                idx = cap(frozenset().union(*[self.field(x, ("f", "wiki_index", 0, "HtmlRuntimeConfig")) for x in v]))
            out.add(("the", "HtmlConfig", bare(page), bare(idx)))
        return cap(out)

    def mapped(self, b, env, t, e2, stack):
        """map_runtime: what its closure gives the fields of the runtime"""
        recv = self.operand(b, env, t[2][0])
        l = self.under(b, t[2][0])
        if l is None:
            return
        new = recv
        for f in self.operand(b, env, t[2][1]):
            cb = self.P.bodies.get(f[1]) if f[0] == "clo" else None
            if cb is None:
                new = self.runtime(new, (), one(UNKNOWN))
                continue
            ctx = (one(f), one(self.rt(recv)))
            for fld in ("page", "wiki_index"):
                vals, blocks = frozenset(), set()
                for k, v in self.stores.items():
                    if k[0] == cb.path and k[5] == ctx and k[2] == "HtmlRuntimeConfig" and k[3] == fld:
                        vals |= v
                        blocks.add(k[1])
                seen, todo = set(), [0]
                while todo:
                    x = todo.pop()
                    if x in seen or x in blocks:
                        continue
                    seen.add(x)
                    if cb.blocks[x]["t"][0] == "ret":
                        vals |= one(UNKNOWN)
                    todo.extend(cb.succ(x))
                new = self.runtime(new, (fld,), vals)
        e2[l] = new

    @staticmethod
    def rt(recv):
        return ("f", "HtmlConfig", "runtime", next(iter(recv)) if len(recv) == 1 else UNKNOWN)

    def under(self, b, o):
        """the local a reference was taken of"""
        if o[0] not in ("cp", "mv") or o[1][1]:
            return None
        l, seen = o[1][0], set()
        while l not in seen:
            seen.add(l)
            ds = [s[2] for x in b.blocks for s in x["s"] if s[0] == "=" and s[1][0] == l and not s[1][1]]
            if len(ds) == 1 and ds[0][0] == "ref" and not [e for e in ds[0][1][1] if e[0] != "*"]:
                l = ds[0][1][0]
                if not ds[0][1][1]:
                    return l
            elif len(ds) == 1 and ds[0][0] == "use" and ds[0][1][0] in ("cp", "mv") and not ds[0][1][1][1]:
                l = ds[0][1][1][0]
            else:
                break
        return l

    def fed(self, b, blk, t, env, e2):
        """what is fed to a hasher becomes part of it"""
        c = self.P.callee(t[1])
        if c is not None and len(t[2]) == 2 and last(self.P.cname(c)) == "map_runtime":
            self.mapped(b, env, t, e2, ())
            return
        if c is not None:
            ts = self.P.targets(c)
            if len(ts) == 1:
                for i, v in self.muts.get((id(ts[0]), tuple(self.operand(b, env, o) for o in t[2])), {}).items():
                    l = self.under(b, t[2][i])
                    if l is not None:
                        e2[l] = v
        if c is None or len(t[2]) != 2 or t[2][0][0] not in ("cp", "mv") or last(self.P.cname(c)) not in FEED and not self.P.cname(c).endswith("PathBuf::push"):
            return
        for s in (s for x in b.blocks for s in x["s"]):
            if s[0] == "=" and s[1][0] == t[2][0][1][0] and s[2][0] == "ref":
                l, pr = s[2][1][0], [e for e in s[2][1][1] if e[0] != "*"]
                if not pr:
                    e2[l] = one(("call", FEED.get(last(self.P.cname(c)), "join"), (env.get(l, one(UNKNOWN)), self.operand(b, env, t[2][1]))))
                return

    @staticmethod
    def option(t):
        return t[0] == "f" and t[1].endswith(("Subcommand", "Opt"))

    def global_facts(self, fs):
        return frozenset((t, v) for t, v in fs if self.option(t))

    def store(self, b, bi, env, p, v, facts):
        if len(v) > 1 and ERR in v and "result::Result" not in self.P.ts(p[2]):
            v = v - {ERR}
        if not p[1]:
            a = self.P.adt_of(self.P.peel(p[2]))
            if a is not None and a.startswith("vimwiki") and a.rsplit("::", 1)[-1] in ONE:
                n = a.rsplit("::", 1)[-1]
                v = frozenset(t if t[0] == "the" and t[1] == n else ("the", n) for t in v)
            env[p[0]] = v
            return
        pr = [e for e in p[1] if e[0] != "*"]
        if not pr:
            env[p[0]] = cap(env.get(p[0], frozenset()) | v) if p[1] else v
            return
        base = env.get(p[0], one(UNKNOWN))
        names = tuple(e[1] for e in pr if e[0] == "f")
        if len(names) == len(pr) and (pr[0][3] or "").endswith("::HtmlConfig") and names[0] == "runtime" and len(names) <= 2:
            env[p[0]] = self.runtime(base, names[1:], v)
        if len(pr) == 1 and pr[0][0] == "f" and len(base) == 1:
            t = next(iter(base))
            if t[0] == "agg" and pr[0][1] in t[3]:
                i = t[3].index(pr[0][1])
                env[p[0]] = one(t[:4] + (t[4][:i] + (v,) + t[4][i + 1:],))
        e = pr[-1]
        if e[0] == "f":
            a = (e[3] or "").rsplit("::", 1)[-1] if len(e) > 3 else ""
            self.stored(b, bi, a, e[1], facts, v)

    def stored(self, b, bi, a, f, facts, v):
        key = (b.path, bi, a, f, facts, self.ctx)
        self.stores[key] = cap(self.stores.get(key, frozenset()) | v)

    def switch(self, b, env, fs, t):
        v = self.operand(b, env, t[1])
        edges = [(int(x), tg) for x, tg in t[2]]
        out = []
        d = dict(fs)
        for term in v:
            neg = False
            while term[0] == "not":
                term, neg = term[1], not neg
            term, flip = self.plain(term)
            neg ^= flip
            if term[0] == "const" and isinstance(term[1], (bool, int)):
                c = int(term[1]) ^ neg
                out.append(([tg for x, tg in edges if x == c] or [t[3]])[0:1] and (([tg for x, tg in edges if x == c] or [t[3]])[0], fs))
                continue
            if term[0] == "discr" and term[1][0] == "agg" and term[1][2]:
                i = self.vindex(term[2], term[1][2])
                if i is not None:
                    out.append((([tg for x, tg in edges if x == i] or [t[3]])[0], fs))
                    continue
            keep = self.interesting(term)
            poss = [(x, tg) for x, tg in edges] + ([(None, t[3])] if self.open(b, t[3]) else [])
            if keep:
                used = [x for x, _ in edges]
                for x, tg in poss:
                    val = x if x is not None else (1 - used[0] if len(used) == 1 and used[0] in (0, 1) else "else")
                    if neg and val in (0, 1):
                        val = 1 - val
                    if term in d and d[term] != val and "else" not in (d[term], val):
                        continue
                    out.append((tg, fs | {(term, val)}))
            else:
                out += [(tg, fs) for x, tg in poss]
        return list(dict.fromkeys(out))

    def open(self, b, bi):
        return b.blocks[bi]["t"][0] != "unreachable"

    def vindex(self, ty, name):
        std = {"None": 0, "Some": 1, "Ok": 0, "Err": 1, "Continue": 0, "Break": 1, "Borrowed": 0, "Owned": 1}
        if ty in self.P.adts:
            for v in self.P.adts[ty]["variants"]:
                if v["name"] == name:
                    return v["idx"]
            return None
        return std.get(name)

    def interesting(self, t):
        if t[0] == "f":
            return self.option(t) and t[2] in self.flags
        if t[0] == "call":
            return t[1] in ("contains", "contains_key", "exists", "any", "all", "try_exists", "starts_with", "has_root", "is_absolute") or \
                t[1] == "is_empty" and all(self.option(x) for x in t[2][0]) or \
                t[1] == "eq" and any(x[0] == "call" and x[1] == "extension" or x[0] == "f" and x[1:3] in (("HtmlWikiConfig", "name"), ("WikiFile", "path")) for x in walk(t))
        if t[0] == "discr":
            return t[2] is not None and t[2].endswith("::Option") and any(x[0] == "call" and x[1] == "file_name" for x in walk(t[1]))
        return False

    # ---------------------------------------------------------------- calls
    def call(self, b, bi, env, fs, t, stack):
        P = self.P
        args = tuple(self.operand(b, env, o) for o in t[2])
        c = P.callee(t[1])
        if c is None:
            outs = []
            fv = self.operand(b, env, t[1]) if t[1][0] in ("cp", "mv") else frozenset()
            for f in fv:
                outs += self.apply(f, args, fs, stack)
            return outs or [(fs, one(UNKNOWN))]
        full = P.cname(c)
        name = last(full)
        ts = [x for x in P.targets(c)]
        if len(ts) == 1 and ts[0].crate in self.crates and not ts[0].derived and name not in self.opaque:
            r = self.body(ts[0], args, fs, stack)
            self.event(b, bi, name, full, args, fs, frozenset().union(*[v for _, v in r]) if r else frozenset(), ts[0])
            return r
        if name in ("call", "call_mut", "call_once") and args:
            outs = []
            inner = ()
            for a in (args[1] if len(args) > 1 else ()):
                if a[0] == "agg":
                    inner = a[4]
            for f in args[0]:
                outs += self.apply(f, inner, fs, stack)
            return outs or [(fs, one(UNKNOWN))]
        if name.startswith("find_wiki"):
            args = (bare(args[0]),) + args[1:]
        v = self.library(b, bi, name, full, args, fs, t, stack)
        # what is known of the last time no longer is
        new = self.heads(v)
        fs = frozenset((f, x) for f, x in fs if self.option(f) or not any(y in new and (name == "next" or y[0] == "call" and y[1] == name) for y in walk(f)))
        self.event(b, bi, name, full, args, fs, v, None)
        if name == "next" and args and not t[3][1]:
            env[("next", t[3][0])] = tuple(self.known(args[0]))
        return [(fs, v)]

    def selected(self, how, recv, what):
        """one of the items, and its place, by a condition or a key"""
        out = set()
        for t in recv:
            e, cond = t, frozenset()
            while e[0] == "filter":
                cond |= {e[2]}
                e = e[1]
            if e[0] == "enum":
                sel = ("sel", how, e[1], what, cond)
                out.add(("agg", "tuple", "", ("0", "1"), (one(("index", sel)), one(("item", sel)))))
            else:
                out |= {("item", ("find", x[1], what)) if how == "find" and x[0] == "item" else ("item", ("sel", how, x, what, cond)) for x in self.itemset(e)}
        return cap(out)

    def chosen(self, v, facts):
        """what find_map gives, by what is so when it does"""
        out = set()
        for t in v:
            if t[0] == "agg" and t[1] == "Option":
                if t[2] == "None":
                    continue
                t = next(iter(t[4][0])) if len(t[4][0]) == 1 else t
            out.add((t[0], ("sel", "find", t[1], frozenset([facts]), frozenset())) if t[0] in ("index", "item") and t[1][0] != "find" else t)
        return out

    def searched(self, v, facts):
        """what a loop of its own finds, by what is so when it does"""
        out = set()
        for t in v:
            while t[0] == "agg" and t[1:3] == ("Option", "Some") and len(t[4][0]) == 1:
                t = next(iter(t[4][0]))
            if t[0] in ("item", "index") and t[1][0] not in ("find", "sel", "at"):
                k = frozenset((f, x) for f, x in facts if ("item", t[1]) in set(walk(f)) and not self.option(f))
                if k:
                    t = ("item", ("find", t[1], frozenset([k]))) if t[0] == "item" else ("index", ("sel", "find", t[1], frozenset([k]), frozenset()))
            out.add(t)
        return frozenset(out)

    @staticmethod
    def inner(v):
        """what is in an option or a result"""
        out = frozenset()
        for t in v:
            if t[0] == "agg" and t[1] in ("Option", "Result") and t[2] in ("Some", "Ok"):
                out |= t[4][0]
            elif not (t[0] == "agg" and t[1:3] == ("Option", "None")) and (t != ERR or len(v) == 1):
                out |= {t}
        return out

    @staticmethod
    def agree(fs, k):
        d = dict(fs)
        return all(d.get(t, x) == x for t, x in k)

    def heads(self, v):
        out = set()
        for t in v:
            out |= self.heads(frozenset().union(*t[4])) if t[0] == "agg" and t[4] else {t}
        return out

    def holds(self, outs):
        """the alternatives there are when the answer is yes: what is so in each"""
        alls = set()
        for f2, v in outs:
            for t in v:
                neg = False
                while t[0] == "not":
                    t, neg = t[1], not neg
                t, flip = self.plain(t)
                neg ^= flip
                if t[0] == "const":
                    if bool(t[1]) != neg:
                        alls.add(frozenset((a, x) for a, x in f2 if not self.flag(a)))
                else:
                    alls.add(frozenset((a, x) for a, x in f2 if not self.flag(a)) | {(t, 0 if neg else 1)})
        if len(alls) > 4:
            alls = {frozenset.intersection(*alls)}
        return frozenset(alls) or frozenset([frozenset()])

    @staticmethod
    def plain(t):
        """a != b is not a == b"""
        if t[0] == "call" and t[1] == "ne":
            return ("call", "eq", t[2]), True
        if t[0] == "bin" and t[1] == "Ne":
            return ("bin", "Eq") + t[2:], True
        return t, False

    def flag(self, t):
        return self.option(t) and t[2] in self.flags

    def known(self, v):
        """what is known of the items of an iterator that was filtered: alternatives"""
        out = set()
        for t in v:
            ks = [frozenset()]
            while t[0] in ("filter", "enum", "seq"):
                if t[0] == "filter":
                    ks = [k | x for k in ks for x in t[2]]
                t = t[2] if t[0] == "seq" else t[1]
            out |= set(ks)
        if len(out) > 8:
            out = {frozenset.intersection(*out)}
        return sorted(out, key=str) or [frozenset()]

    def event(self, b, bi, name, full, args, fs, v, callee):
        key = (b.path, bi, fs, self.ctx)
        old = self.events.get(key)
        if old is not None and len(old.args) == len(args):
            args = tuple(x | y for x, y in zip(old.args, args))
            v = v | old.result
        e = self.events[key] = Event(b, bi, name, full, args, fs, v, callee)
        e.ctx = self.ctx

    def apply(self, f, args, fs, stack):
        P = self.P
        if f[0] == "clo":
            cb = P.bodies.get(f[1])
            if cb is None:
                return []
            return self.body(cb, (one(f),) + tuple(args), fs, stack)
        if f[0] == "fn":
            fb = P.bodies.get(f[2]) or P.bodies.get(f[1])
            if fb is not None and fb.crate in self.crates and not fb.derived:
                return self.body(fb, tuple(args), fs, stack)
            if last(f[1]) in SAME or last(f[1]) in ("Some", "Ok", "from", "new"):
                return [(fs, args[0] if args else one(UNKNOWN))]
            return [(fs, one(("call", last(f[1]), tuple(args))))]
        return []

    def library(self, b, bi, name, full, args, fs, t, stack):
        P = self.P
        ty = P.adt_of(P.peel(t[2][0][1][2])) if t[2] and t[2][0][0] in ("cp", "mv") else None
        opt = ty is not None and ty.rsplit("::", 1)[-1] in ("Option", "Result")
        fun = [(i, f) for i, a in enumerate(args) for f in a if f[0] in ("clo", "fn")]
        if fun and name not in ("new",):
            recv = args[0] if args else frozenset()
            res = set()
            known = frozenset([frozenset()])
            inners = [fs] if opt else [fs | k for k in self.known(recv) if self.agree(fs, k)]
            for i, f in fun:
                if i == 0:
                    continue
                if opt:
                    inp = (self.inner(recv),) if name not in ("unwrap_or_else", "or_else", "ok_or_else", "get_or_insert_with") or ty.endswith("Result") else ()
                elif name in ITER or name in ("max_by_key", "min_by_key", "sort_by_key"):
                    inp = (self.items(recv),)
                elif name == "fold":
                    inp = (args[1], self.items(recv))
                elif name in ("map_runtime",):
                    inp = (one(self.rt(recv)),)
                elif f[0] == "clo" and P.bodies.get(f[1]) is not None:
                    inp = tuple(one(UNKNOWN) for _ in range(P.bodies[f[1]].args - 1))
                else:
                    inp = (one(UNKNOWN),)
                outs = []
                for inner in inners:
                    for f2, v in self.apply(f, inp, inner, stack):
                        outs.append((f2 - inner, v))
                        res |= v
                if name in ("filter", "take_while", "find", "position"):
                    known = self.holds(outs)
            res = cap(res)
            if opt:
                if name in ("map_err", "filter", "inspect", "inspect_err", "ok_or_else"):
                    return recv
                if name in ("unwrap_or_else", "or_else", "map_or", "map_or_else", "is_some_and"):
                    return cap(res | (recv if name in ("unwrap_or_else", "or_else") else args[1] if name == "map_or" else frozenset()))
                return res
            if name in ("map", "filter_map", "flat_map", "map_while"):
                if name == "flat_map":
                    res = self.items(res)
                if name in ("filter_map", "map_while"):
                    res = frozenset(x for x in res if not (x[0] == "agg" and x[1:3] == ("Option", "None")) and x != ERR)
                    res = cap(frozenset().union(*[x[4][0] if x[0] == "agg" and x[1:3] == ("Option", "Some") else one(x) for x in res]))
                return frozenset(("seq", res, x) for x in recv)
            if name in ("filter", "take_while"):
                return frozenset(("filter", x, known) for x in recv)
            if name == "skip_while":
                return frozenset(("filter", x, frozenset([frozenset()])) for x in recv)
            if name == "find":
                return self.selected("find", recv, known)
            if name == "position":
                return frozenset(("index", ("sel", "find", x, known, frozenset())) for x in recv)
            if name in ("max_by_key", "min_by_key", "max_by", "min_by"):
                return self.selected(name, recv, res)
            if name == "find_map":
                return cap(frozenset().union(*[self.chosen(v, f2) for f2, v in outs])) if outs else res
            if name in ("any", "all"):
                return frozenset(("call", name, (one(x),) + tuple(args[1:])) for x in recv)
            return one(("call", name, tuple(args)))
        if name == "from_residual":
            return one(ERR)
        if name == "next" and len(args) == 1:
            return self.items(args[0])
        if name == "enumerate":
            return frozenset(("enum", x) for x in args[0])
        if name in ("unwrap_or",) and len(args) == 2:
            return cap(args[0] | args[1])
        if name in SAME and len(args) >= 1 and args[0]:
            return args[0]
        if name in ("get", "get_mut", "nth") and len(args) == 2 and "Map" not in full and "Set" not in full:
            return frozenset(("item", ("at", x, args[1])) for x in args[0])
        if name in ("first", "last") and len(args) == 1 and opt is False and "HashMap" not in full:
            return frozenset(("item", ("at", x, one(("const", name)))) for x in args[0])
        if name in ("first", "last", "last_mut", "first_mut", "get", "get_mut") and opt is False and args and "HashMap" not in full:
            return self.items(args[0])
        if name in ("index", "index_mut") and len(args) == 2:
            return frozenset(("call", "index", args))
        return one(("call", name, args))
