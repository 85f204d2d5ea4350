"""The cache answers a file's text with the page parsed from that text."""
import json
from checks.cli import *

EXPLANATION = (
    "The terms an abstract interpretation of the command line (sa/effects.py) gives to every path below the cache, to what is written there and to what the "
    "fields of WikiFile are given. Obligations: the name of an entry is a digest of the whole text of one file, nothing left out; what is written under it is the page "
    "parsed from that text; a WikiFile's checksum is that name, its data the page parsed from its path's text or what the entry of that name holds; the text is read "
    "once; an entry is removed by pruning only where the set of all loaded files' checksums does not have its name, and after all of them are loaded.")
ASSUMPTIONS = ["the digest does not collide", "what is serialized reads back as it was (P24)"]

DIGEST = {"format", "must_use", "new", "new_lower_hex", "new_upper_hex", "new_display", "digest", "finalize", "result", "encode", "finalize_fixed", "to_vec", "new_v1", "digest_bytes", "update"}
SER = {"to_string", "to_string_pretty", "to_vec", "to_vec_pretty", "to_value", "must_use", "new"}
DES = {"from_reader", "from_str", "from_slice", "from_value"}
FSREAD = {"open", "read", "read_to_string", "new", "with_capacity"}
WRITE = {"to_writer", "to_writer_pretty", "write", "write_all"}
SHRINK = {"remove", "clear", "retain", "take", "truncate", "drain", "pop", "split_off", "dedup"}


def run(P, R, tier):
    R.rule("name", "the name of a cache entry is a digest of a file's whole text", 3)
    R.rule("entry", "what is written to an entry is the page parsed from the text it is named after", 1)
    R.rule("file", "a loaded file's checksum names its entry and its data is the page of its text", 3)
    R.rule("once", "the text a checksum is taken of is the text that is parsed", 1)
    R.rule("prune", "an entry is pruned only where no loaded file has its name as checksum", 2)
    C = Cli(P)
    R.stats["functions"] = C.functions()
    R.stats["operations"] = len(C.events)
    names = {}
    for e in C.events:
        if e.callee is not None:
            continue
        for i, v in enumerate(e.args):
            for t in v:
                if e.name not in ("join", "push") and t[0] == "call" and t[1] in ("join", "with_extension", "with_file_name") and under(t):
                    n, text = entry(C, t)
                    R.check("name", n is not None, "%s|%s" % (where(e), e.name), "%s calls %s on %s, which is not named by a digest of a file's whole text" % (where(e), e.name, show(t)))
                    if n is not None:
                        names.setdefault(n, []).append(where(e))
        if e.name in WRITE and len(e.args) > 1:
            for t in e.args[0]:
                for x in walk(t):
                    if x[0] == "call" and x[1] == "join" and under(x):
                        n, text = entry(C, x)
                        ok = text is not None and all(page(C, y, text) for y in e.args[1])
                        R.check("entry", ok, "%s|%s" % (where(e), e.name), "%s writes %s to an entry named after the text of %s" % (where(e), show(e.args[1])[:150], show(text) if text else "?"))
    files(C, R, names)
    once(C, R)
    prune(P, C, R)


def under(t):
    return t == CACHE or t[0] == "call" and t[1] in ("join", "with_extension", "with_file_name") and bool(t[2]) and any(under(x) for x in t[2][0])


def entry(C, t):
    """(what the name is made of, the file whose text it is made of) of a path below the cache"""
    if t[1] != "join" or t[2][0] != one(CACHE) or len(t[2]) != 2 or len(t[2][1]) != 1:
        return None, None
    k = next(iter(t[2][1]))
    x = digest(C, k)
    return (norm(k, x), x) if x else (None, None)


def norm(k, x):
    """the name, whatever the file"""
    if isinstance(k, frozenset):
        return frozenset(norm(y, x) for y in k)
    if k == x:
        return ("file",)
    return tuple(norm(y, x) if isinstance(y, (tuple, frozenset)) else y for y in k)


def text(t):
    """the file a term is the whole text of"""
    while t[0] == "call" and t[1] in ("from_utf8", "from_utf8_lossy", "into_bytes", "new") and len(t[2]) == 1 and len(t[2][0]) == 1:
        t = next(iter(t[2][0]))
    if t[0] == "call" and t[1] in ("read_to_string", "read") and len(t[2]) == 1 and len(t[2][0]) == 1:
        return next(iter(t[2][0]))
    return None


def digest(C, t, hashed=False):
    if text(t) is not None:
        return text(t) if hashed else None
    if t[0] == "seq":
        xs = {digest(C, x, hashed) for x in t[1]}
        return xs.pop() if len(xs) == 1 else None
    if t[0] != "call" or t[1] not in DIGEST:
        return None
    for a in t[2]:
        for x in a:
            if x[0] == "const" and isinstance(x[1], str) and x[1].startswith("[") and t[1] in ("new", "new_v1"):
                try:
                    if cut(json.loads(x[1])):
                        return None
                except ValueError:
                    return None
    xs = {digest(C, x, hashed or t[1] in ("digest", "update", "digest_bytes")) for a in t[2] for x in a if x[0] != "const" and not (x[0] == "call" and not x[2])}
    return xs.pop() if len(xs) == 1 else None


def cut(bs):
    """does a format template give a precision?"""
    i = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            i += b
        elif b == 0x80:
            i += 2 + (bs[i] | bs[i + 1] << 8)
        else:
            if b & 4:
                return True
            i += 4 * (b & 1) + 2 * (b >> 1 & 1) + 2 * (b >> 3 & 1)
    return False


def page(C, t, x):
    """is it the page of the text of x?"""
    if t == ERR:
        return True
    if t[0] == "call" and t[1] in SER and len(t[2]) == 1 or t[0] == "seq":
        v = t[2][0] if t[0] == "call" else t[1]
        return bool(v) and all(page(C, y, x) for y in v)
    if t[0] == "call" and t[1] == "parse":
        src = t[2][0]
        return all(y[0] == "call" and y[1] == "from_vimwiki_str" and all(text(z) == x for z in y[2][0]) for y in src)
    if t[0] == "call" and t[1] in DES:
        v = t[2][0]
        while len(v) == 1 and next(iter(v))[0] == "call" and next(iter(v))[1] in FSREAD and next(iter(v))[2]:
            v = next(iter(v))[2][0]
        return all(under(y) and y[0] == "call" and entry(C, y)[1] == x for y in v)
    return False


def files(C, R, names):
    by = {}
    for (path, bi, adt, f, facts, ctx), v in C.sim.stores.items():
        if adt == "WikiFile":
            k = by.setdefault((path, bi, ctx), {})
            k[f] = k.get(f, frozenset()) | v
    for (path, bi, ctx), fs in sorted(by.items(), key=str):
        at = "::".join(path.split("::")[-2:])
        if set(fs) != {"path", "checksum", "data"} or any(len(fs[f]) != 1 for f in ("path", "checksum")):
            R.fail("file", at, "%s changes a loaded file's %s" % (at, ", ".join(sorted(fs))))
            continue
        x = next(iter(fs["path"]))
        k = next(iter(fs["checksum"]))
        R.check("file", digest(C, k) == x, at + "|checksum", "%s gives the file %s the checksum %s, which is not a digest of its whole text" % (at, show(x), show(k)))
        n = norm(k, x)
        R.check("file", names and set(names) == {n}, at + "|name", "%s gives a file a checksum that is not the name its cache entry has" % at)
        bad = [t for t in fs["data"] if not page(C, t, x)]
        R.check("file", not bad, at + "|data", "%s gives the file %s data that is not the page of its text: %s" % (at, show(x), show(bad[0])[:200] if bad else ""))


def once(C, R):
    keys = {}
    for e in C.events:
        if e.callee is None and e.args and e.name in ("read_to_string", "read") and "fs::" in e.full:
            for t in e.args[0]:
                keys.setdefault((t, e.ctx), set()).add((e.body.path, e.block))
    for (path, bi, adt, f, facts, ctx), v in sorted(C.sim.stores.items(), key=lambda x: str(x[0][:4])):
        if adt == "WikiFile" and f == "path":
            for x in v:
                sites = {s for (t, c), ss in keys.items() if t == x for s in ss}
                R.check("once", len(sites) == 1, path.rsplit("::", 1)[-1], "%s: the text of %s is read in %d places, between which it may change" % (path, show(x), len(sites)))


def checksums(v):
    """is it all the checksums of all the files that were loaded?"""
    return all(t[0] == "f" and t[1:3] == ("WikiFile", "checksum") and every(t[3]) for t in v) and bool(v)


def every(t):
    return t == ("item", ("f", "Wiki", "files", ("item", ("f", "Ast", "wikis", ("the", "Ast")))))


def filtered(t):
    return any(x[0] == "filter" or x[0] == "call" and x[1] in ("skip", "take", "step_by", "find", "nth", "last", "first") for x in walk(t))


def prune(P, C, R):
    removing = set()
    for e in C.events:
        if e.name not in ("remove_file", "remove_dir", "remove_dir_all") or e.callee is not None or not e.args:
            continue
        for t in e.args[0]:
            if t[0] == "call" and t[1] == "join" and under(t):
                continue            # the entry that could not be read: rule name
            if t == CACHE or t[0] != "item" or origin(t) != ("walk", "CommonOpt.cache"):
                R.fail("prune", where(e) + "|what", "%s removes %s" % (where(e), show(t)))
                continue
            name = ("call", "file_name", (one(t),))
            ok = False
            for k, v in e.facts:
                if v == 0 and k[0] == "call" and k[1] in ("contains", "contains_key") and len(k[2]) == 2 and k[2][1] == one(name):
                    ok = ok or all(complete(P, C, e, s) for s in k[2][0])
                if v == 0 and k[0] == "call" and k[1] == "any" and any(checksums(x) for x in k[2]):
                    ok = True
                if v == 0 and k[0] == "discr" and k[1] == name:
                    ok = True       # not a name the cache gives
            R.check("prune", ok, where(e) + "|unlisted", "%s removes an entry of the cache without making sure that no loaded file has its name as checksum" % where(e))
            removing.add(e.body.path)
    # all are loaded by then
    for _ in range(6):
        removing |= {e.body.path for e in C.events if e.callee is not None and e.callee.path in removing}
    for e in C.events:
        prunes = e.name.startswith("remove_") and e.callee is None and any(t[0] == "item" for a in e.args[:1] for t in a) or e.callee is not None and e.callee.path in removing
        if not prunes:
            continue
        b = e.body
        loads = {x.block for x in C.events if x.body is b and x.callee is not None and any(y[0] == "agg" and y[1] == "WikiFile" for t in x.result for y in walk(t))}
        seen, todo = set(), list(b.succ(e.block))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo.extend(b.succ(x))
        if e.callee is None or not any(y[0] == "agg" and y[1] == "WikiFile" for t in e.result for y in walk(t)):
            if loads and e.block not in loads:
                R.check("prune", not (seen & loads), where(e) + "|after", "%s prunes the cache before all files are loaded" % where(e))


def complete(P, C, e, s):
    """does the set hold the checksum of every loaded file?"""
    shrunk = [x for x in C.events if x.callee is None and x.name in SHRINK and x.args and s in x.args[0]]
    if shrunk:
        return False
    if s[0] == "seq":
        return checksums(s[1]) and not filtered(s[2]) and all(not filtered(x) for x in s[1])
    if s[0] == "call" and s[1] in ("new", "default", "with_capacity"):
        put = [x for x in C.events if x.callee is None and x.name in ("insert", "push", "extend") and len(x.args) > 1 and s in x.args[0]
               and any(y[0] == "f" and y[1:3] == ("WikiFile", "checksum") for t in x.args[1] for y in walk(t))]
        if not put:
            return False
        for x in put:
            if x.name == "extend":
                if not all(t[0] == "seq" and checksums(t[1]) and not filtered(t) for t in x.args[1]):
                    return False
                inner = None
            else:
                if not checksums(x.args[1]):
                    return False
                inner = next(iter(x.args[1]))[3]
            # each turn of each loop around it comes by
            at = x.block
            while True:
                nx = [y for y in C.events if y.body is x.body and y.name == "next" and y.callee is None and at in after(x.body, y.block) and y.block in after(x.body, at) and y.block != at]
                nx = [y for y in nx if (inner is None or inner in y.result)] or nx
                if any(filtered(t) for y in nx for a in y.args for t in a):
                    return False
                blocks = {y.block for y in nx}
                if inner is None or not blocks:
                    break
                for n in blocks:
                    s1 = turn(x.body, n)
                    if s1 != at and n in after(x.body, s1, at) | {s1}:
                        return False
                at = blocks.pop()
                inner = inner[1][3] if inner[0] == "item" and inner[1][0] == "f" else None
                if inner is not None and inner[0] == "the":
                    break
        return True
    return False


def turn(b, n):
    """where a turn of a loop begins: its next gave something"""
    x = b.blocks[n]["t"][4]
    for _ in range(10):
        t = b.blocks[x]["t"]
        if t[0] == "switch":
            return ([tg for v, tg in t[2] if int(v) == 1] or [t[3]])[0]
        if len(b.succ(x)) != 1:
            break
        x = b.succ(x)[0]
    return x


def after(b, n, without=None):
    seen, todo = set(), [x for x in b.succ(n)]
    while todo:
        x = todo.pop()
        if x in seen or x == without:
            continue
        seen.add(x)
        todo.extend(b.succ(x))
    return seen
