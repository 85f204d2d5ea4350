"""The order of hash tables, clocks and the like never reach what is produced."""
from esp import *
from prog import *

EXPLANATION = (
    "Forward dataflow over the MIR of the library and the command line tool. A sequence obtained from a hash table "
    "carries its arbitrary order through adaptors, collections that keep an order, helper functions (both ways) and "
    "closures; sorting by the whole key, collecting into a set or map, and reductions that do not see an order (count, "
    "sum, max, min, any, all) end it. A sequence that still carries the order must not be written to an output or "
    "hasher, decide the order of effects of a loop, select an element, or be returned by an operation with an ordered "
    "result. Separately, nothing reachable from parsing, writing, comparing or hashing consults a clock, a random "
    "source, process state or mutable global state, but for the date of a page that has none.")
ASSUMPTIONS = ["the order of items of a foreign iterator is as the type says: hash_map/hash_set iterators are arbitrary, others follow their source"]

HASHES = ("HashMap", "HashSet", "hash_map::", "hash_set::", "hash::map", "hash::set")
MAPS = ("HashMap", "HashSet", "BTreeMap", "BTreeSet")
ITERS = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "difference", "union",
         "intersection", "symmetric_difference", "extract_if"}
REDUCE = {"count", "any", "all", "len", "sum", "product", "max", "min", "contains", "is_empty", "size_hint", "eq", "contains_key", "ne",
          "capacity", "is_sorted"}
PICK = {"find", "find_map", "last", "nth", "position", "reduce", "max_by", "min_by", "max_by_key", "min_by_key", "first", "pop", "next", "fold",
        "try_fold", "get", "index", "split_first", "split_last", "peek", "rposition"}
COMMUTE = {"insert", "entry", "or_insert", "or_insert_with", "or_default", "extend", "remove", "get_mut", "get", "contains", "and_modify",
           "or_insert_with_key", "retain", "contains_key", "or_default", "set"}
GROW = {"push", "push_str", "extend", "append", "insert", "push_back", "push_front", "insert_str", "extend_from_slice", "resize", "write_str",
        "write_fmt", "write_char"}
LOSSYKEY = {"len", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "count", "is_empty", "first", "last", "chars",
            "bytes", "parse", "contains", "starts_with", "ends_with", "get", "trim", "next", "split", "find"}
NONDET = ("Local::now", "Utc::now", "SystemTime::now", "Instant::now", "::elapsed", "rand::", "thread::current", "process::id", "env::var",
          "RandomState::new", "fetch_add", "fetch_sub", "AtomicUsize", "LocalKey", "env::temp_dir", "getrandom", "Uuid::", "thread_rng",
          "Mutex", "RwLock", "fetch_or", "available_parallelism", "RefCell", "OnceCell")
SCOPE = ("vimwiki_core", "vimwiki_cli")


class Taint:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.cm = {}
        self.events = []
        self.sources = set()
        self.calls = {}
        self.frame = {}

    # ------------------------------------------------------------------ types
    def carries(self, ti, d=0):
        """values of the type can hold items in an order"""
        P = self.P
        ti = P.peel(ti)
        if ti in self.cm:
            return self.cm[ti]
        t = P.t(ti)
        k = t["k"]
        if k == "adt":
            n = t["def"]
            l = n.rsplit("::", 1)[-1]
            self.cm[ti] = False
            if l in MAPS:
                r = False
            elif l in ("Option", "Result", "Cow", "Rc", "Arc", "Poll", "ControlFlow"):
                r = any(self.carries(a, d + 1) for a in t["args"])
            elif n in P.adts:
                r = any(self.carries(f["ty"], d + 1) for v in P.adts[n]["variants"] for f in v["fields"])
            elif l == "Ordering":
                r = False
            else:
                r = True
            self.cm[ti] = r
            return r
        if k == "tuple":
            return any(self.carries(a, d + 1) for a in t.get("args", []))
        if t["s"] in ("bool", "char", "()", "!", "usize", "isize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "i128", "f32", "f64"):
            return False
        return True

    def ishash(self, ti):
        t = self.P.t(self.P.peel(ti))
        return t["k"] == "adt" and any(h in t["def"] for h in HASHES)

    def ismap(self, ti):
        t = self.P.t(self.P.peel(ti))
        return t["k"] == "adt" and (t["def"].rsplit("::", 1)[-1] in MAPS or "Entry" in t["def"] or "JsValue" in t["def"])

    # --------------------------------------------------------------- a body
    def run(self, b, tin, stack=()):
        """tin: tainted params (indices; ('c', i) captures). -> (result tainted, &mut params tainted)"""
        key = (b.path, tin)
        if key in self.memo:
            return self.memo[key]
        if b.path in stack or len(stack) > 25:
            return (0, frozenset())
        stack = stack + (b.path,)
        P = self.P
        refs = {}
        for bi in sorted(b.live_blocks()):
            for s in b.blocks[bi]["s"]:
                if s[0] == "=" and not s[1][1] and s[2][0] == "ref":
                    refs.setdefault(s[1][0], s[2][1][0])
        for bi, t in b.calls():      # a reference made of a reference
            c = P.callee(t[1])
            if c and not t[3][1] and t[2] and t[2][0][0] in ("cp", "mv") and last(P.cname(c)) in (
                    "deref", "deref_mut", "as_mut_slice", "as_slice", "as_mut", "as_ref", "borrow_mut", "by_ref", "index_mut", "index", "as_str"):
                refs.setdefault(t[3][0], t[2][0][1][0])

        def base(l):
            n = 0
            while l in refs and n < 20:
                l = refs[l]
                n += 1
            return l
        loops = self.loops(b)
        state = {0: {base(i): 1 for i in tin if not isinstance(i, tuple)}}
        caps = {i[1] for i in tin if isinstance(i, tuple)}
        todo = [0]
        rets = 0
        mutp = set()
        first = {}
        while todo:
            bi = todo.pop()
            T = dict(state[bi])
            blk = b.blocks[bi]

            def tainted(o):
                if o[0] not in ("cp", "mv"):
                    return 0
                p = o[1]
                if b.kind == "closure" and p[0] == 1 and p[1]:
                    fs = [e for e in p[1] if e[0] == "f"]
                    if fs and fs[0][1] in caps:
                        return 1
                return T.get(base(p[0]), 0)

            def put(p, v):
                if v and (v == 2 or self.carries(p[2])):
                    T[base(p[0])] = max(v, T.get(base(p[0]), 0))
                elif not v and not p[1] and p[0] not in refs:
                    T.pop(p[0], None)
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] in ("use", "cast", "repeat"):
                    put(s[1], tainted(r[1]))
                elif r[0] == "ref":
                    if not s[1][1] and s[1][0] in refs:
                        continue
                    put(s[1], tainted(("cp", r[1])))
                elif r[0] == "agg":
                    put(s[1], max([tainted(o) for o in r[2]] or [0]))
                elif r[0] in ("bin", "un"):
                    v = max([tainted(o) for o in r[1:] if isinstance(o, list)] or [0])
                    put(s[1], 2 if v == 2 else 0)
                elif r[0] == "discr":
                    put(s[1], 2 if tainted(("cp", r[1])) == 2 else 0)
            t = blk["t"]
            if t[0] == "call":
                self.docall(b, bi, t, T, tainted, put, base, loops, stack, refs)
            elif t[0] == "ret":
                if T.get(0):
                    rets = max(rets, T[0])
                for i in range(1, b.args + 1):
                    if T.get(i) and P.ts(b.locals[i][0]).startswith("&mut") and i not in tin:
                        mutp.add(i)
            for s2 in b.succ(bi):
                old = state.get(s2)
                if old is None:
                    state[s2] = dict(T)
                    todo.append(s2)
                else:
                    ch = False
                    for k, v in T.items():
                        if old.get(k, 0) < v:
                            old[k] = v
                            ch = True
                    if ch:
                        todo.append(s2)
        self.memo[key] = (rets, frozenset(mutp))
        return self.memo[key]

    def loops(self, b):
        """block -> blocks of the innermost natural loop with that block inside"""
        if b.path in self.frame:
            return self.frame[b.path]
        dom = b.dominators()
        preds = b.preds()
        out = {}
        for x in sorted(b.live_blocks()):
            for h in b.succ(x):
                if h in dom.get(x, ()):
                    body, todo = {h}, [x]
                    while todo:
                        y = todo.pop()
                        if y not in body:
                            body.add(y)
                            todo += preds[y]
                    for y in body:
                        if y not in out or len(out[y]) > len(body):
                            out[y] = body
        self.frame[b.path] = out
        return out

    def event(self, b, sp, msg):
        e = (b.path, b.span(sp), msg)
        if e not in self.events:
            self.events.append(e)

    def effects(self, b, blocks, T, base, skip, stack, sp):
        """effects of a loop that runs in hash order"""
        P = self.P
        inside = set()
        for bi in blocks:
            for s in b.blocks[bi]["s"]:
                if s[0] == "=" and not s[1][1]:
                    inside.add(s[1][0])
            t = b.blocks[bi]["t"]
            if t[0] == "call" and not t[3][1]:
                inside.add(t[3][0])
        for bi in sorted(blocks):
            t = b.blocks[bi]["t"]
            if t[0] != "call" or bi == skip:
                continue
            c = P.callee(t[1])
            m = last(P.cname(c)) if c else "call"
            for j, o in enumerate(t[2]):
                if o[0] not in ("cp", "mv") or not P.ts(o[1][2]).startswith("&mut"):
                    continue
                x = base(o[1][0])
                if x in inside and not P.ts(b.locals[x][0]).startswith("&mut"):
                    continue         # a value made anew in each round
                ty = b.locals[x][0] if not o[1][1] else o[1][2]
                if self.ismap(o[1][2]) or self.ismap(ty):
                    if m in COMMUTE or m in ITERS or m in ("next", "deref_mut", "index_mut"):
                        continue
                if m in ("next", "deref_mut", "as_mut", "by_ref", "index_mut", "iter_mut", "entry", "get_mut", "or_insert", "clear"):
                    continue
                if m in GROW and self.carries(o[1][2]) and self.growable(o[1][2]):
                    if j == 0:
                        T[x] = max(T.get(x, 0), 1)
                    continue
                self.event(b, t[5] if len(t) > 5 else sp, "%s on a %s in the order of a hash table" % (m, short(P.ts(P.peel(o[1][2])))))

    def growable(self, ti):
        t = self.P.t(self.P.peel(ti))
        return t["k"] == "adt" and t["def"].rsplit("::", 1)[-1] in ("Vec", "String", "VecDeque", "OsString", "PathBuf")

    def docall(self, b, bi, t, T, tainted, put, base, loops, stack, refs):
        P = self.P
        c = P.callee(t[1])
        dest = t[3]
        sp = t[5] if len(t) > 5 else None
        args = t[2]
        tv = [tainted(o) for o in args]
        if c is None:
            put(dest, max(tv or [0]))
            return
        n = P.cname(c)
        m = last(n)
        bs = P.targets(c)
        recv = args[0][1][2] if args and args[0][0] in ("cp", "mv") else None
        # sources
        if recv is not None and m in ITERS and self.ishash(recv) and not bs and not P.ts(P.peel(recv)).startswith("std::collections::hash_map::") \
                and last(P.adt_of(recv) or "") in ("HashMap", "HashSet"):
            self.sources.add((b.path, b.span(sp)))
            T[base(dest[0])] = max(1, T.get(base(dest[0]), 0))
            return
        if recv is not None and m in ("retain",) and self.ishash(recv):
            put(dest, 0)
            return
        any1 = max(tv or [0])
        if not any1:
            # closures that are given may still have sources of their own
            if bs and len(bs) == 1:
                r, mp = self.run(bs[0], frozenset(), stack)
                put(dest, r)
                for i in mp:
                    if i - 1 < len(args) and args[i - 1][0] in ("cp", "mv"):
                        T[base(args[i - 1][1][0])] = 1
            else:
                put(dest, 0)
            return
        # sorting
        if m.startswith("sort") and tv and tv[0]:
            self.sort(b, bi, t, m, T, base, n)
            if m.startswith("sorted"):
                put(dest, 0)
            return
        if self.sinks(b, c, n, m, args, tv, sp):
            return
        if bs:
            tin = frozenset(i + 1 for i, v in enumerate(tv) if v)
            if len(bs) > 3:
                put(dest, any1)
                return
            for q in bs:
                r, mp = self.run(q, tin, stack)
                put(dest, r)
                for i in mp:
                    if i - 1 < len(args) and args[i - 1][0] in ("cp", "mv"):
                        T[base(args[i - 1][1][0])] = 1
            return
        if any1 == 2:
            if self.carries(dest[2]) or True:
                T[base(dest[0])] = 2
            return
        if m in ("zip", "enumerate"):
            put(dest, 1.5)
            return
        if m in REDUCE:
            put(dest, 0)
            if any1 == 1.5:          # a position paired with an item of a hash table
                T[base(dest[0])] = 2
            return
        if m == "next" and tv[0]:
            lp = loops.get(bi)
            if lp is None:
                T[base(dest[0])] = 2
            else:
                self.effects(b, lp, T, base, bi, stack, sp)
            return
        if m in ("for_each", "try_for_each") and tv[0]:
            self.foreach(b, args, T, base, stack, sp)
            put(dest, 0)
            return
        if m in ("fold", "try_fold", "reduce") and tv[0] and self.combines(b, args[-1]):
            put(dest, 1)
            return
        if m in PICK and tv[0]:
            T[base(dest[0])] = 2
            return
        if m in GROW and len(tv) > 1 and any(tv[1:]) and args[0][0] in ("cp", "mv") and not self.ismap(args[0][1][2]):
            T[base(args[0][1][0])] = 1
            return
        if m in GROW and self.ismap(recv if recv is not None else dest[2]):
            put(dest, 0)
            return
        v = any1 if self.carries(dest[2]) else 0
        put(dest, v)

    def closure_of(self, b, o):
        P = self.P
        if o[0] == "k":
            return P.bodies.get(o[1]["fn"]["def"]) if "fn" in o[1] else P.bodies.get(P.t(o[1]["t"]).get("def", ""))
        if o[0] in ("cp", "mv"):
            for bi, si, kind, rv in b.defs().get(o[1][0], ()):
                if kind == "assign" and rv[0] == "agg" and isinstance(rv[1], list):
                    return self.P.bodies.get(rv[1][1])
        return None

    def combines(self, b, o):
        """the step of a fold over values without an order gives the same result in every order"""
        if o[0] == "k" and "fn" in o[1] and last(o[1]["fn"]["def"]) in ("max", "min", "add", "bitor", "bitand", "bitxor"):
            return True
        cb = self.closure_of(b, o)
        if cb is None:
            return False
        good = False
        for bi, t in cb.calls():
            c = self.P.callee(t[1])
            m = last(self.P.cname(c)) if c else "?"
            if m in ("max", "min", "saturating_add", "wrapping_add", "add", "add_assign", "insert", "extend", "bitor"):
                good = True
            elif m in GROW and t[2] and t[2][0][0] in ("cp", "mv") and not self.ismap(t[2][0][1][2]):
                if not self.carries(cb.locals[0][0]):
                    return False
        for bi in cb.live_blocks():
            for s in cb.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "bin":
                    if s[2][1].startswith(("Add", "BitOr", "BitAnd", "BitXor", "Mul", "Gt", "Lt", "Ge", "Le")):
                        good = True
                    elif s[2][1].startswith(("Sub", "Div", "Rem", "Shl", "Shr")):
                        return False
        return good

    def foreach(self, b, args, T, base, stack, sp):
        P = self.P
        for o in args[1:]:
            if o[0] not in ("cp", "mv"):
                continue
            x = base(o[1][0])
            for bi, si, kind, rv in b.defs().get(x, ()):
                if kind == "assign" and rv[0] == "agg" and isinstance(rv[1], list) and rv[1][0] in ("closure", "clo"):
                    cb = P.bodies.get(rv[1][1])
                    if cb is None:
                        continue
                    for ci, t in cb.calls():
                        c = P.callee(t[1])
                        m = last(P.cname(c)) if c else "call"
                        for j, a in enumerate(t[2]):
                            if a[0] in ("cp", "mv") and P.ts(a[1][2]).startswith("&mut") and not self.ismap(a[1][2]):
                                if m in ("next", "deref_mut"):
                                    continue
                                if m in GROW and self.growable(a[1][2]):
                                    for k, co in enumerate(rv[2]):
                                        if co[0] in ("cp", "mv"):
                                            T[base(co[1][0])] = 1
                                    continue
                                self.event(cb, t[5] if len(t) > 5 else None, "%s in the order of a hash table" % m)

    def sinks(self, b, c, n, m, args, tv, sp):
        P = self.P
        if m in ("write_fmt", "write_str", "write_all", "write", "hash", "push_str", "print", "_print", "_eprint") and len(args) > 0:
            tgt = args[0][1][2] if args[0][0] in ("cp", "mv") else None
            if m in ("push_str",) or (tgt is not None and self.growable(tgt)):
                return False
            if any(tv[1:]) or (m == "hash" and tv[0]):
                self.event(b, sp, "what is written (%s) is in the order of a hash table" % m)
                return True
        return False

    def sort(self, b, bi, t, m, T, base, n):
        P = self.P
        x = base(t[2][0][1][0]) if t[2][0][0] in ("cp", "mv") else None
        why = None
        if "by" in m and len(t[2]) > 1:
            why = self.comparator(b, t[2][1])
        if why:
            self.event(b, t[5] if len(t) > 5 else None, "sorted only by part of the key (%s), so ties stay in the order of a hash table" % why)
        if x is not None:
            T.pop(x, None)

    def comparator(self, b, o):
        """None if the comparator tells any two keys apart"""
        P = self.P
        cb = None
        if o[0] == "k" and "fn" in o[1]:
            return None
        if o[0] in ("cp", "mv"):
            for bi, si, kind, rv in b.defs().get(o[1][0], ()):
                if kind == "assign" and rv[0] == "agg" and isinstance(rv[1], list):
                    cb = P.bodies.get(rv[1][1])
        if cb is None and o[0] == "k":
            ct = P.t(o[1]["t"])
            cb = P.bodies.get(ct.get("def", ""))
        if cb is None:
            return None
        for bi, t in cb.calls():
            c = P.callee(t[1])
            if c and last(P.cname(c)) in LOSSYKEY:
                return last(P.cname(c)) + "()"
        item = P.t(P.peel(cb.locals[2][0]))
        fields = set()
        sub = {}
        alias = {}
        used = set()
        for _ in range(6):
            for bi in cb.live_blocks():
                for s in cb.blocks[bi]["s"]:
                    if s[0] != "=" or s[1][1]:
                        continue
                    r = s[2]
                    q = r[1] if r[0] == "ref" else r[1][1] if r[0] == "use" and r[1][0] in ("cp", "mv") else None
                    if q is None:
                        continue
                    fs = [e[1] for e in q[1] if e[0] == "f"]
                    if 2 <= q[0] <= cb.args:
                        alias[s[1][0]] = (q[0], fs)
                    elif q[0] in alias:
                        alias[s[1][0]] = (alias[q[0]][0], alias[q[0]][1] + fs)
        # a reference that is only read through is not a use of the whole
        for bi in cb.live_blocks():
            t = cb.blocks[bi]["t"]
            if t[0] == "call":
                for o2 in t[2]:
                    if o2[0] in ("cp", "mv"):
                        used.add(o2[1][0])
            for s in cb.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "agg":
                    for o2 in s[2][2]:
                        if o2[0] in ("cp", "mv"):
                            used.add(o2[1][0])
        used.add(0)

        def place(p, dest=None):
            fs = [e[1] for e in p[1] if e[0] == "f"]
            if dest is not None and not dest[1] and dest[0] in alias and dest[0] not in used:
                return
            if p[0] in alias:
                p = (alias[p[0]][0], [["f", f] for f in alias[p[0]][1] + fs])
                fs = [e[1] for e in p[1]]
            if p[0] >= 2 and p[0] <= cb.args:
                if not fs:
                    return
                fields.add(fs[0])
                sub.setdefault(fs[0], set()).update(fs[1:2] or ["*"])
        for bi in cb.live_blocks():
            for s in cb.blocks[bi]["s"]:
                if s[0] != "=":
                    continue
                r = s[2]
                if r[0] in ("use", "cast"):
                    if r[1][0] in ("cp", "mv"):
                        place(r[1][1], s[1])
                elif r[0] in ("ref", "discr"):
                    place(r[1], s[1])
                elif r[0] == "agg":
                    for o2 in r[2]:
                        if o2[0] in ("cp", "mv"):
                            place(o2[1])
        if item["k"] == "tuple":
            if fields and "0" not in fields:
                return "only %s" % ", ".join(sorted(fields))
            key = P.adts.get(P.adt_of(item["args"][0]) or "")
            got = sub.get("0", set())
            if key is not None and key["kind"] == "struct" and got and "*" not in got:
                rest = [f["name"] for f in key["variants"][0]["fields"] if f["name"] not in got]
                if rest:
                    return "without %s" % ", ".join(rest)
        return None


def run(P, R, tier):
    R.rule("hash-order", "no order taken from a hash table decides an output, an effect, a choice or an ordered result", 10)
    R.rule("environment", "nothing consulted but the arguments", 1)
    T = Taint(P)
    scope = [b for b in P.bodies.values() if b.crate in SCOPE and b.kind != "promoted" and "timekeeper" not in b.path and not istest(b)]
    called = set()
    for b in P.bodies.values():
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c:
                for q in P.targets(c):
                    called.add(q.path)
    returned = []
    for b in sorted(scope, key=lambda b: b.path):
        r, mp = T.run(b, frozenset())
        if b.kind == "closure":
            continue
        rt = b.locals[0][0]
        ordered = not opaque_iter(P, rt)
        if r and (r == 2 or ordered):
            # the caller deals with the order if the function is only a helper
            if b.trait is None and b.in_trait is None and b.path in called and not (b.pub and ordered and r == 1 and False):
                if r == 1:
                    continue
            returned.append((b, r))
    bad = {}
    for path, sp, msg in T.events:
        bad.setdefault(path, []).append("%s: %s" % (sp, msg))
    for b, r in returned:
        bad.setdefault(b.path, []).append("%s: the result %s a hash table" % (b.span(None), "is in the order of" if r == 1 else "is picked by the order of"))
    srcs = {}
    for p, sp in T.sources:
        srcs.setdefault(p, []).append(sp)
    for p in sorted(set(srcs) | set(bad)):
        if p in bad:
            R.fail("hash-order", short(p), "; ".join(bad[p][:4]))
        else:
            R.ok("hash-order", "%s: %s" % (short(p), ", ".join(sorted(srcs[p]))))
    # ------------------------------------------------------------ environment
    roots = [b for b in scope if is_root(b)]
    seen, todo = set(), [(b, None) for b in roots]
    kids = {}
    for b in P.bodies.values():
        if b.kind == "closure":
            kids.setdefault(b.path.split("::{closure")[0], []).append(b)
    parent = {}
    sites = 0
    hits = {}
    while todo:
        b, fr = todo.pop()
        if b.path in seen or "timekeeper" in b.path:
            continue
        seen.add(b.path)
        parent[b.path] = fr
        for q in kids.get(b.path, []):
            todo.append((q, b.path))
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c is None:
                continue
            sites += 1
            n = P.cname(c)
            if any(x in n for x in NONDET) and not n.endswith("LocalKey::<T>::with") | False:
                if n.endswith(("Local::now", "Utc::now")) and "html::convert" in b.path:
                    continue          # the date of a page without one
                hits.setdefault(short(b.path), []).append("%s: calls %s" % (b.span(t[5] if len(t) > 5 else None), short(n)))
            for q in P.targets(c):
                todo.append((q, b.path))
    for k, v in sorted(hits.items()):
        R.fail("environment", k, "; ".join(v[:3]))
    R.ok("environment", "%d functions reachable from %d parsers, writers, comparisons and hashes" % (len(seen), len(roots)))
    R.stats["functions_followed"] = len(scope)
    R.stats["call_sites_reachable"] = sites
    R.stats["hash_iterations"] = sorted("%s %s" % (short(p), s) for p, s in T.sources)


def is_root(b):
    if b.crate != "vimwiki_core" or b.kind == "closure":
        return False
    t = (b.trait or "").rsplit("::", 1)[-1]
    if t in ("Output", "IntoChildren", "StrictEq", "PartialEq", "Hash", "ParseFrom", "FromStr", "TryFrom", "From", "Display", "ToHtmlPage",
             "ToHtmlString", "ToVimwikiString"):
        return "config" not in b.path
    return "::parsers::" in b.path or "::output::" in b.path and "config" not in b.path


def istest(b):
    return "::tests::" in b.path or "::test::" in b.path or "::fixtures::" in b.path


def opaque_iter(P, ti):
    t = P.t(P.peel(ti))
    return t["k"] not in ("adt", "tuple") or (t["k"] == "adt" and t["def"] not in P.adts and
                                              t["def"].rsplit("::", 1)[-1] not in ("Vec", "String", "VecDeque", "Option", "Result", "Box", "Cow"))
