"""A failure surfaces: it is handed on to the caller and ends as the exit code."""
import re
from prog import *
from flow import last
from checks.p31 import operands, places, only, tuplep

EXPLANATION = (
    "Every value of type Result with an error of reading, parsing, converting or writing in the code of the command line and "
    "of the writers is found in MIR by its type. Obligations: it is used; it is not turned into something that no longer "
    "tells of the failure (ok, unwrap_or, is_ok, flatten, ...); where it is matched on, every path from the arm of the "
    "failure to the end of the function returns a failure or ends the process. Recovering is allowed for the "
    "cache of the command line and for asking vim for its wikis, where the failure must be logged. The process ends with a "
    "code other than zero when run fails.")
ASSUMPTIONS = ["library functions report their own failures"]

SCOPE = ("vimwiki_cli::", "vimwiki_core::lang::output::", "vimwiki_core::lang::utils", "vimwiki::")
SKIP = ("vimwiki_core::lang::parsers::", "vimwiki_core::lang::elements::")
FAIL = re.compile(r"(io::Error|io::error::Error|fmt::Error|serde_json::(error::)?Error|toml::|walkdir::(error::)?Error|OutputError|"
                  r"LangParserError|ExitCodes|vimvar|JsonPathError|syntect|LoadingError)")
# keep the failure, wherever it goes from there
KEEP = {"branch", "map", "map_err", "and_then", "from_residual", "as_ref", "as_mut", "from", "into", "inspect_err", "inspect", "and", "from_output",
        "expect", "unwrap", "expect_err", "copied", "cloned", "transpose", "collect", "push", "new_debug", "new_display", "clone", "clone_into",
        "some", "then_some", "once", "try_fold", "try_for_each", "eq", "ne", "fmt"}


def result_error(s):
    """error type of a Result type as text, or None"""
    s = s.lstrip("&").replace("mut ", "", 1) if s.startswith("&mut ") else s.lstrip("&")
    m = re.match(r"(?:std|core)::result::Result<(.*)>$", s)
    if not m:
        return None
    d, i = 0, len(m.group(1))
    body = m.group(1)
    for j in range(len(body) - 1, -1, -1):
        ch = body[j]
        if ch in ">)]" and not (ch == ">" and body[j - 1] == "-"):
            d += 1
        elif ch in "<([":
            d -= 1
        elif ch == "," and d == 0:
            return body[j + 1:].strip()
    return None


def failing(P, ty):
    e = result_error(P.ts(ty))
    return e is not None and (FAIL.search(e) is not None)


def in_scope(b):
    p = b.path.lstrip("<&")
    return b.kind in ("fn", "method", "closure") and not b.derived and "::_::" not in b.path and "serde" not in b.path \
        and "structopt" not in b.path and any(p.startswith(s) or " " + s in p for s in SCOPE) \
        and not any(p.startswith(s) for s in SKIP) and b.crate in ("vimwiki_core", "vimwiki_cli", "vimwiki")


def short(n):
    return re.sub(r"^.*?(\w+(?:::\{closure#\d+\})*)$", r"\1", n)


def where(b):
    m = re.search(r"for ([\w:]+)", b.path) if "Output" in b.path else None
    return (m.group(1).rsplit("::", 1)[-1] + "::" if m else "") + short(b.path)


class Check:
    def __init__(self, P, R):
        self.P, self.R = P, R

    def body(self, b):
        P, R = self.P, self.R
        self.matches(b)
        self.flushed(b)
        for bi in sorted(b.live_blocks()):
            blk = b.blocks[bi]
            t = blk["t"]
            for s in blk["s"]:
                if s[0] == "=":
                    for o in operands(s[2]):
                        self.fnref(b, o)
            if t[0] != "call":
                continue
            c = P.callee(t[1])
            for o in t[2]:
                self.fnref(b, o)
            name = last(P.cname(c)) if c is not None else "?"
            # made here
            if t[4] is not None and failing(P, t[3][2]) and not t[3][1]:
                self.used(b, bi, t, name)
            # consumed here
            for o in t[2][:1]:
                if o[0] in ("cp", "mv") and failing(P, o[1][2]):
                    workspace = c is not None and any(x.crate.startswith("vimwiki") for x in P.targets(c))
                    if name in ("is_ok", "is_err"):
                        self.tested(b, bi, name)
                    elif name not in KEEP and not workspace:
                        self.swallow(b, bi, name, P.ts(o[1][2]), o)
                    else:
                        self.R.ok("kept", "%s|%s" % (where(b), name))
            if name in ("flatten", "flat_map", "filter_map") and c is not None:
                item = " ".join(P.ts(x) for x in c["args"])
                if name == "flatten" and ("Result<" in item or "walkdir::IntoIter" in item or "ReadDir" in item or "io::Lines" in item):
                    self.R.fail("kept", "%s|flatten" % where(b), "%s drops the failures of what it iterates over" % b.path)

    def fnref(self, b, o):
        if o[0] == "k" and "fn" in o[1]:
            c = o[1]["fn"]
            n = self.P.cname(c)
            if re.search(r"Result(::)?<T, E>>?::(ok|is_ok|is_err|unwrap_or_default|err)$", n) and FAIL.search(" ".join(self.P.ts(x) for x in c["args"])):
                if b is not None:
                    self.pending.setdefault((b.path, last(n)), 0)
                    self.pending[(b.path, last(n))] += 1

    def tested(self, b, bi, name):
        """is_ok and is_err followed by a branch judge like a match"""
        t = b.blocks[bi]["t"]
        key = "%s|%s" % (where(b), name)
        sw = b.blocks[t[4]]["t"] if t[4] is not None else ("?",)
        if sw[0] == "switch" and sw[1][0] in ("cp", "mv") and sw[1][1][0] == t[3][0]:
            no = [tg for v, tg in sw[2] if int(v) == 0] or [sw[3]]
            yes = sw[3] if int(sw[2][0][0]) == 0 else sw[2][0][1]
            err, okb = (yes, no[0]) if name == "is_err" else (no[0], yes)
            src = [x for x in self.source(b, t[2][0])]
            at = [p[0] for bl in b.blocks for s in bl["s"] if s[0] == "=" and s[1][0] == t[2][0][1][0] for p in places(s[2])]
            if self.fails(b, err, at[0] if len(at) == 1 else None)[0]:
                self.R.ok("matched", key)
            elif any(self.recoverable(b, x, last(self.P.cname(self.P.callee(x[1])))) for x in src):
                self.R.check("logged", self.logs(b, only(b, t[4], err, okb)), key, "%s: a failure is not logged" % b.path)
            else:
                self.R.fail("matched", key, "%s goes on and succeeds after a failure" % b.path)
        else:
            self.R.fail("kept", key, "%s drops a failure with %s" % (b.path, name))

    def source(self, b, o):
        """calls that make what is in o"""
        seen, todo = set(), [o[1][0]]
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            for bi in b.live_blocks():
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and s[1][0] == l:
                        todo.extend(p[0] for p in places(s[2]))
                t = b.blocks[bi]["t"]
                if t[0] == "call" and t[3][0] == l and self.P.callee(t[1]) is not None:
                    yield t

    def allowed(self, b, err_local_desc):
        return False

    def swallow(self, b, bi, name, ty, o):
        e = result_error(ty)
        self.R.fail("kept", "%s|%s|%s" % (where(b), name, re.sub(r"<.*", "", e).rsplit("::", 2)[-2] if "::" in e else e),
                    "%s drops a failure (%s) with %s" % (b.path, e, name))

    def flushed(self, b):
        """what is written by way of a buffer is flushed before the buffer is dropped, unless there was a failure before"""
        P = self.P
        made, flush, cut = [], set(), set()
        for bi in sorted(b.live_blocks()):
            t = b.blocks[bi]["t"]
            if t[0] == "call" and P.callee(t[1]) is not None:
                n = P.cname(P.callee(t[1]))
                if re.search(r"(BufWriter|LineWriter)(::)?<.*>::(new|with_capacity)$", n):
                    made.append((bi, t))
                if last(n) in ("flush", "into_inner", "into_parts") and t[2] and "Writer" in P.ts(t[2][0][1][2] if t[2][0][0] != "k" else 0):
                    flush.add(bi)
            if t[0] == "switch" and t[1][0] in ("cp", "mv"):
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and s[1][0] == t[1][1][0] and s[2][0] == "discr":
                        ty = P.ts(s[2][1][2])
                        if failing(P, s[2][1][2]) or "ControlFlow<" in ty:
                            bad = [tg for v, tg in t[2] if int(v) == 1] or [t[3]]
                            cut.add((bi, bad[0]))
        for bi, t in made:
            seen, todo, out = set(), [bi], False
            while todo and not out:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                out = b.blocks[x]["t"][0] == "ret"
                if x not in flush:
                    todo.extend(y for y in b.succ(x) if (x, y) not in cut)
            moved = any(l for l in [t[3][0]] if self.leaves(b, l))
            self.R.check("flush", not out or moved, where(b), "%s drops a buffer without flushing it: what then fails to be written is not told of" % b.path)

    def leaves(self, b, l):
        """the buffer is handed to another function"""
        for bi in b.live_blocks():
            t = b.blocks[bi]["t"]
            if t[0] == "call" and any(o[0] == "mv" and o[1][0] == l and not o[1][1] for o in t[2]) and not last(self.P.cname(self.P.callee(t[1])) if self.P.callee(t[1]) else "?") == "drop":
                return True
            for s in b.blocks[bi]["s"]:
                if s[0] == "=" and s[1][0] == 0 and any(p[0] == l for p in places(s[2])):
                    return True
        return False

    def uses(self, b, l):
        """[(kind, data)] of the uses of local l, through moves"""
        out, seen, todo = [], set(), [l]
        while todo:
            l = todo.pop()
            if l in seen:
                continue
            seen.add(l)
            if l == 0:
                out.append(("ret", None))
            for bi in b.live_blocks():
                blk = b.blocks[bi]
                for s in blk["s"]:
                    if s[0] != "=":
                        continue
                    for p in places(s[2]):
                        if p[0] != l:
                            continue
                        if s[2][0] == "use" and not p[1]:
                            if s[1][0] == 0:
                                out.append(("ret", None))
                            if s[1][1]:
                                out.append(("stored", bi))
                            todo.append(s[1][0])
                        elif s[2][0] == "ref" and not p[1]:
                            todo.append(s[1][0])
                            out.append(("lent", bi))
                        elif s[2][0] == "discr":
                            out.append(("match", (bi, s[1][0])))
                        else:
                            out.append(("part", bi))
                t = blk["t"]
                if t[0] == "call":
                    for j, o in enumerate(t[2]):
                        if o[0] in ("cp", "mv") and o[1][0] == l:
                            out.append(("arg", (bi, j)))
                elif t[0] == "switch" and t[1][0] in ("cp", "mv") and t[1][1][0] == l:
                    out.append(("switch", bi))
        return out

    def used(self, b, bi, t, name):
        P, R = self.P, self.R
        l = t[3][0]
        key = "%s|%s" % (where(b), name)
        us = self.uses(b, l)
        real = [u for u in us if u[0] != "lent"]
        if not real:
            R.fail("used", key, "%s: the result of %s is never looked at" % (b.path, name))
            return
        R.ok("used", key)

    def matches(self, b):
        """branches on whether a Result is a failure"""
        P = self.P
        for bi in sorted(b.live_blocks()):
            for s in b.blocks[bi]["s"]:
                if s[0] == "=" and s[2][0] == "discr" and failing(P, s[2][1][2]):
                    p = s[2][1]
                    src = list(self.source(b, ["cp", p]))
                    name = last(P.cname(P.callee(src[0][1]))) if src else "parameter"
                    self.match(b, s[1][0], src, name, "%s|%s" % (where(b), name), result_error(P.ts(p[2])), p[0])

    def match(self, b, dl, src, name, key, err_ty, subject):
        """the switch on the discriminant in dl"""
        P, R = self.P, self.R
        for bi in b.live_blocks():
            sw = b.blocks[bi]["t"]
            if sw[0] == "switch" and sw[1][0] in ("cp", "mv") and sw[1][1][0] == dl and not sw[1][1][1]:
                err = None
                for v, tgt in sw[2]:
                    if int(v) == 1:
                        err = tgt
                if err is None:
                    err = sw[3]
                arms = [only(b, bi, tg, None) for tg in {tg for v, tg in sw[2]} | {sw[3]}]
                if not any(b.blocks[x]["t"][0] == "call" or any(s[0] == "=" for s in b.blocks[x]["s"]) for a in arms for x in a) \
                        and any(b.blocks[x]["t"][0] == "drop" for a in arms for x in a):
                    continue        # what is left of a value that was moved out of is dropped
                ok, how = self.fails(b, err, subject)
                if ok:
                    R.ok("matched", key)
                elif "walkdir" in err_ty or any(self.recoverable(b, t, last(P.cname(P.callee(t[1])))) for t in src):
                    oks = [tg for v, tg in sw[2] if int(v) == 0] or [sw[3]]
                    blocks = only(b, bi, err, oks[0])
                    R.check("logged", self.logs(b, blocks), key, "%s: the failure of %s is not logged" % (b.path, name))
                else:
                    R.fail("matched", key, "%s goes on and succeeds after %s failed" % (b.path, name))

    def logs(self, b, blocks):
        for bi in blocks:
            t = b.blocks[bi]["t"]
            if t[0] == "call":
                c = self.P.callee(t[1])
                if c is not None and ("log::" in self.P.cname(c) or "eprint" in self.P.cname(c)):
                    return True
        return False

    def recoverable(self, b, t, name):
        """asking vim, files of the cache, entries met while walking a directory"""
        if name == "load_vimwiki_list" or any("vimvar" in self.P.cname(x) for x in [self.P.callee(t[1])] if x is not None):
            return True
        return self.about_cache(b, t)

    def about_cache(self, b, t):
        """the operation is one of a library on a path (or what was opened by it) that is the cache's"""
        c = self.P.callee(t[1])
        own = [x for x in self.P.targets(c) if x.crate.startswith("vimwiki")] if c is not None else []
        if own:
            return all(self.only_cache(x, set()) for x in own)
        return bool(t[2]) and self.of_cache(b, t[2][0], set())

    def only_cache(self, b, busy):
        """all that can fail in a function is about the cache"""
        if b.path in busy:
            return True
        busy.add(b.path)
        n = 0
        for x in [b] + [c for k, c in self.P.bodies.items() if k.startswith(b.path + "::{closure")]:
            for bi in x.live_blocks():
                t = x.blocks[bi]["t"]
                if t[0] != "call" or self.P.callee(t[1]) is None or not result_error(self.P.ts(t[3][2])):
                    continue
                c = self.P.callee(t[1])
                if last(self.P.cname(c)) in ("map", "map_err", "and_then", "or_else", "branch", "from_residual", "from_output", "from", "into"):
                    continue
                n += 1
                own = [y for y in self.P.targets(c) if y.crate.startswith("vimwiki")]
                if not (all(self.only_cache(y, busy) for y in own) if own else t[2] and self.of_cache(x, t[2][0], set())):
                    return False
        return n > 0

    def of_cache(self, b, o, seen):
        P = self.P
        todo = [o]
        while todo:
            o = todo.pop()
            if o[0] not in ("cp", "mv"):
                continue
            l = o[1][0]
            if any(e[0] == "f" and e[1] == "cache" for e in o[1][1]) or "cache" in (b.lname(l) or "") and "bool" != P.ts(b.locals[l][0]):
                return True
            if (b.path, l) in seen:
                continue
            seen.add((b.path, l))
            for bi in b.live_blocks():
                blk = b.blocks[bi]
                for s in blk["s"]:
                    if s[0] == "=" and s[1][0] == l:
                        todo.extend(["cp", p] for p in list(places(s[2]))[:1])
                tt = blk["t"]
                if tt[0] == "call" and tt[3][0] == l:
                    c = P.callee(tt[1])
                    if c is None or not any(x.crate.startswith("vimwiki") for x in P.targets(c)):
                        todo.extend(tt[2][:1])
            if 1 <= l <= b.args and b.kind != "closure":
                calls = list(self.callers(b))
                if calls and all(len(x[2]) >= l and self.of_cache(cb, x[2][l - 1], seen) for cb, x in calls):
                    return True
        return False

    def callers(self, b):
        P = self.P
        for cb in P.bodies.values():
            if not in_scope(cb):
                continue
            for bi in cb.live_blocks():
                t = cb.blocks[bi]["t"]
                if t[0] == "call":
                    c = P.callee(t[1])
                    if c is not None and any(x is b for x in P.targets(c)):
                        yield cb, t

    def fails(self, b, start, subject=None):
        """every path from block start to a return returns a failure"""
        P = self.P
        alias = {subject}
        for _ in range(4):
            for blk in b.blocks:
                for s in blk["s"]:
                    if s[0] == "=" and not s[1][1] and s[2][0] == "use" and s[2][1][0] in ("cp", "mv") and not s[2][1][1][1] and s[2][1][1][0] in alias and s[1][0] != 0:
                        alias.add(s[1][0])
        seen, todo = set(), [(start, "?", frozenset(), frozenset())]
        while todo:
            bi, k, errs, brk = state = todo.pop()
            if state in seen:
                continue
            seen.add(state)
            if len(seen) > 20000:
                return False, bi
            blk = b.blocks[bi]
            # (a failure may be put into a variable first, and be part of an Option or a tuple)
            discr = None
            for s in blk["s"]:
                if s[0] != "=":
                    continue
                r, l = s[2], s[1][0]
                if r[0] == "discr" and not r[1][1]:
                    if r[1][0] in errs or r[1][0] in brk:
                        discr = l
                    continue
                if s[1][1]:
                    continue
                if r[0] == "agg" and r[1][0] == "adt" and r[1][2] == "Err":
                    err = True
                elif r[0] == "use" and r[1][0] in ("cp", "mv"):
                    src = r[1][1]
                    err = not src[1] and src[0] in errs or src[0] in alias and l == 0 or self.is_err(b, src)
                else:
                    err = r[0] == "agg" and "result::Result<" in P.ts(b.locals[l][0]) and any(q[0] in errs and not q[1] for q in places(r))
                errs = errs | {l} if err else errs - {l}
                brk = brk - {l}
                if l == 0:
                    k = "err" if err else "other"
            t = blk["t"]
            if t[0] == "ret":
                # "?": the value to return was there before, which is so where a value is dropped
                if k == "other" or k == "?" and not failing(P, b.locals[0][0]):
                    return False, bi
                continue
            if t[0] == "call" and not t[3][1]:
                c = P.callee(t[1])
                n = last(P.cname(c)) if c is not None else "?"
                arg = t[2][0][1][0] if t[2] and t[2][0][0] in ("cp", "mv") and not t[2][0][1][1] else None
                l = t[3][0]
                err = n == "from_residual" and l == 0 or arg in errs and n in ("map", "map_err", "and_then", "into", "from") and failing(P, b.locals[l][0])
                errs = errs | {l} if err else errs - {l}
                brk = brk | {l} if n == "branch" and arg in errs else brk - {l}
                if l == 0:
                    k = "err" if err else "other"
            nxt = b.succ(bi)
            if t[0] == "switch" and discr is not None and t[1][0] in ("cp", "mv") and t[1][1][0] == discr:
                nxt = [tg for v, tg in t[2] if int(v) == 1] or [t[3]]
            for x in nxt:
                todo.append((x, k, errs, brk))
        return True, None

    def is_err(self, b, p):
        """all definitions of the local are failures"""
        ds = []
        for bi in b.live_blocks():
            blk = b.blocks[bi]
            for s in blk["s"]:
                if s[0] == "=" and s[1][0] == p[0] and not s[1][1]:
                    ds.append(s[2])
            t = blk["t"]
            if t[0] == "call" and t[3][0] == p[0] and not t[3][1]:
                ds.append(("call",))
        return bool(ds) and all(d[0] == "agg" and d[1][0] == "adt" and d[1][2] == "Err" for d in ds)


def run(P, R, tier):
    R.rule("used", "a failure that a call may report is looked at or handed on", 120)
    R.rule("kept", "nothing turns a failure into a value that does not tell of it", 120)
    R.rule("matched", "every path from the arm of a failure fails as well", 3)
    R.rule("logged", "a failure that is recovered from is logged", 3)
    R.rule("flush", "a buffer that is written by way of is flushed, so what fails then is told of", 0)
    R.rule("exit", "the process ends with a code other than zero when it failed", 3)
    C = Check(P, R)
    C.pending = {}
    n = 0
    for path, b in sorted(P.bodies.items()):
        if in_scope(b):
            n += 1
            C.body(b)
    R.stats["functions"] = n
    for (path, m), k in C.pending.items():
        b = P.bodies[path]
        # a direct call was judged where it is made
        direct = any(bl["t"][0] == "call" and P.callee(bl["t"][1]) is not None and last(P.cname(P.callee(bl["t"][1]))) == m for bl in b.blocks)
        if not direct:
            R.fail("kept", "%s|%s" % (where(b), m), "%s drops failures with %s" % (path, m))
    for bad in [k for k, _ in R.bad if k.startswith("kept|")]:
        pass
    exits(P, R, C)


def exits(P, R, C):
    a = [x for x in P.adts if x.endswith("::ExitCodes")]
    for x in a:
        for i, v in enumerate(P.adts[x]["variants"]):
            d = v.get("discr", i)
            R.check("exit", int(d) % 256 != 0, "code|" + v["name"], "%s::%s ends the process with code 0" % (x, v["name"]))
    for path, b in sorted(P.bodies.items()):
        if b.crate not in ("vimwiki_cli", "vimwiki") or b.derived:
            continue
        for bi in b.live_blocks():
            t = b.blocks[bi]["t"]
            if t[0] != "call":
                continue
            c = P.callee(t[1])
            if c is None or not P.cname(c).endswith("process::exit"):
                continue
            o = t[2][0]
            okk = code(P, b, o, set())
            R.check("exit", okk, "exit|" + where(b), "%s may end the process with code 0" % path)


def code(P, b, o, seen):
    """the number of a variant, or a constant other than zero, unchanged"""
    if o[0] == "k":
        return int(o[1].get("v") or 0) % 256 != 0
    l = o[1][0]
    if (b.path, l) in seen:
        return True
    seen.add((b.path, l))
    ds = [s[2] for bl in b.blocks for s in bl["s"] if s[0] == "=" and s[1][0] == l and not s[1][1]]
    calls = [bl["t"] for bl in b.blocks if bl["t"][0] == "call" and bl["t"][3][0] == l]
    for t in calls:
        c = P.callee(t[1])
        ts = P.targets(c) if c is not None else []
        if not ts or not all(x.crate.startswith("vimwiki") and code(P, x, ["cp", [0, [], None]], seen) for x in ts):
            return False
    return bool(ds or calls) and all(d[0] == "discr" or d[0] in ("cast", "use") and code(P, b, next(iter(operands(d))), seen) for d in ds)
