"""The program under analysis: bodies, types, data types and impls of the workspace."""
import json, os, re
import facts
from facts import Inconclusive


class Body:
    __slots__ = ("path", "kind", "raw", "crate", "name", "args", "locals", "blocks", "dbg",
                 "file", "line", "root", "parent", "self_ty", "trait", "impl", "derived",
                 "captures", "promoted", "owner", "unsafe", "pub", "in_trait", "targs",
                 "_defs", "_preds", "_succ", "_dom", "_loops", "_mutb", "capnames", "defspan")

    def __repr__(self):
        return "<Body %s>" % self.path

    def ty(self, local):
        return self.locals[local][0]

    def lname(self, local):
        return self.locals[local][1]

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            out = []
            for _, x in t[2]:
                if x not in out:
                    out.append(x)
            if t[3] not in out:
                out.append(t[3])
            return out
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[5]]
        return []

    def live_blocks(self):
        """Blocks reachable without unwinding."""
        if self._succ is None:
            seen, todo = set(), [0]
            while todo:
                b = todo.pop()
                if b in seen:
                    continue
                seen.add(b)
                todo.extend(self.succ(b))
            self._succ = seen
        return self._succ

    def preds(self):
        if self._preds is None:
            p = {b: [] for b in self.live_blocks()}
            for b in self.live_blocks():
                for s in self.succ(b):
                    p[s].append(b)
            self._preds = p
        return self._preds

    def dominators(self):
        """block -> set of blocks dominating it"""
        if self._dom is None:
            blocks = sorted(self.live_blocks())
            preds = self.preds()
            full = set(blocks)
            dom = {b: set(full) for b in blocks}
            dom[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in blocks:
                    if b == 0:
                        continue
                    s = None
                    for p in preds[b]:
                        s = set(dom[p]) if s is None else (s & dom[p])
                    s = (s or set()) | {b}
                    if s != dom[b]:
                        dom[b] = s
                        ch = True
            self._dom = dom
        return self._dom

    def defs(self):
        """local -> list of (block, index, kind, payload); index len(stmts) is the terminator.

        kind: 'assign' (whole local, rvalue), 'part' (projection, rvalue, place),
              'call' (terminator), 'callpart'
        """
        if self._defs is None:
            d = {}
            for bi in sorted(self.live_blocks()):
                b = self.blocks[bi]
                for si, s in enumerate(b["s"]):
                    if s[0] == "=":
                        p = s[1]
                        if not p[1]:
                            d.setdefault(p[0], []).append((bi, si, "assign", s[2]))
                        else:
                            d.setdefault(p[0], []).append((bi, si, "part", (p, s[2])))
                t = b["t"]
                if t[0] == "call":
                    p = t[3]
                    n = len(b["s"])
                    if not p[1]:
                        d.setdefault(p[0], []).append((bi, n, "call", t))
                    else:
                        d.setdefault(p[0], []).append((bi, n, "callpart", t))
            self._defs = d
        return self._defs

    def calls(self):
        for bi in sorted(self.live_blocks()):
            t = self.blocks[bi]["t"]
            if t[0] == "call":
                yield bi, t

    def span(self, sp):
        if sp is None:
            return "%s:%s" % (self.file, self.line)
        return "%s:%s" % (sp[0], sp[1])


EXPORT = re.compile(r"\bvimwiki(?:_core)?(?:::\w+)+")


class Prog:
    def __init__(self, d=None):
        d = d or facts.facts_dir()
        self.types = []
        self.bodies = {}
        self.adts = {}
        self.impls = []
        self.traits = {}
        self.files = sorted(x for x in os.listdir(d) if x.endswith(".json"))
        self.src = os.path.join(facts.BUILD, "src")
        raw = {}
        for fn in self.files:
            with open(os.path.join(d, fn)) as f:
                raw[fn] = f.read()
        # the library first: other crates name its items by the paths they are exported at
        order = sorted(self.files, key=lambda fn: (not fn.startswith("vimwiki_core"), fn))
        self.exported = {}
        for fn in order:
            if fn.startswith("vimwiki_core"):
                j = json.loads(raw[fn])
                self._exports(j)
            else:
                j = json.loads(EXPORT.sub(self._unexport, raw[fn]))
            self._load(j, fn[:-5])
        self._index()

    def _exports(self, j):
        names = [a["path"] for a in j["adts"]] + [t["path"] for t in j["traits"]] + \
            [b["path"] for b in j["bodies"] if b["kind"] == "fn" and "{" not in b["path"] and "<" not in b["path"]]
        by = {}
        for n in names:
            by.setdefault(n.rsplit("::", 1)[-1], set()).add(n)
        self.exported = {k: v for k, v in by.items()}
        self.defined = set(names) | {"::".join(n.split("::")[:i]) for n in names for i in range(1, n.count("::") + 1)}

    def _unexport(self, m):
        segs = m.group(0).split("::")
        segs[0] = "vimwiki_core"
        if len(segs) > 2 and segs[1] == "vendor":
            return "::".join(segs[2:])
        for i in range(1, len(segs)):
            pre = "::".join(segs[:i + 1])
            if pre in self.defined:
                continue
            c = self.exported.get(segs[i], ())
            if len(c) > 1:      # exported from below the module it is named in
                c = [x for x in c if x.startswith("::".join(segs[:i]) + "::")]
                if len(c) > 1:
                    low = [x for x in c if "::parsers::" not in x and "::tests::" not in x]
                    c = low if len(low) == 1 else c
            if len(c) == 1:
                return "::".join([next(iter(c))] + segs[i + 1:])
            break
        return m.group(0)

    # ---------------------------------------------------------------- load
    def _load(self, j, tag):
        off = len(self.types)
        crate = j["crate"]
        for t in j["types"]:
            if t is None:
                t = {"s": "?", "k": "other"}
            if "args" in t:
                t["args"] = [a + off for a in t["args"]]
            self.types.append(t)

        def fixk(k):
            k["t"] += off
            if "fn" in k:
                c = k["fn"]
                c["args"] = [a + off for a in c["args"]]
                if "rargs" in c:
                    c["rargs"] = [a + off for a in c["rargs"]]
                if "self_ty" in c:
                    c["self_ty"] += off

        def fixp(p):
            p[2] += off

        def fixo(o):
            if o[0] in ("cp", "mv"):
                fixp(o[1])
            elif o[0] == "k":
                fixk(o[1])

        def fixr(r):
            k = r[0]
            if k in ("use", "repeat"):
                fixo(r[1])
            elif k in ("ref", "discr"):
                fixp(r[1])
            elif k == "cast":
                fixo(r[1])
                r[2] += off
            elif k == "bin":
                fixo(r[2])
                fixo(r[3])
            elif k == "un":
                fixo(r[2])
            elif k == "agg":
                for o in r[2]:
                    fixo(o)

        def fixbody(m):
            for l in m["locals"]:
                l[0] += off
            for d in m["dbg"]:
                fixp(d[1])
            for b in m["blocks"]:
                for s in b["s"]:
                    fixp(s[1])
                    if s[0] == "=":
                        fixr(s[2])
                t = b["t"]
                k = t[0]
                if k == "switch":
                    fixo(t[1])
                elif k == "drop":
                    fixp(t[1])
                elif k == "call":
                    fixo(t[1])
                    for a in t[2]:
                        fixo(a)
                    fixp(t[3])
                elif k == "assert":
                    fixo(t[1])
                    for a in t[4]:
                        fixo(a)

        for a in j["adts"]:
            for v in a["variants"]:
                for f in v["fields"]:
                    f["ty"] += off
            a["crate"] = crate
            self.adts[a["path"]] = a
        for i in j["impls"]:
            i["self"] += off
            i["crate"] = crate
            if "targs" in i:
                i["targs"] = [x + off for x in i["targs"]]
            self.impls.append(i)
        for t in j["traits"]:
            self.traits[t["path"]] = t
        for r in j["bodies"]:
            fixbody(r["mir"])
            boxed(r["mir"])
            for p in r["promoted"]:
                fixbody(p)
                boxed(p)
            b = self._mk(r, r["mir"], crate)
            b.promoted = []
            for i, p in enumerate(r["promoted"]):
                pb = self._mk(r, p, crate)
                pb.path = "%s::promoted[%d]" % (b.path, i)
                pb.kind = "promoted"
                pb.promoted = []
                b.promoted.append(pb)
            for f in ("self",):
                if f in r:
                    b.self_ty = r[f] + off
            if "targs" in r:
                b.targs = [x + off for x in r["targs"]]
            key = b.path
            n = 1
            while key in self.bodies:
                n += 1
                key = "%s#%d" % (b.path, n)
            b.path = key
            self.bodies[key] = b

    def _mk(self, r, m, crate):
        b = Body()
        b.path = r["path"]
        b.kind = r["kind"]
        b.raw = r
        b.crate = crate
        b.name = r.get("name", "")
        b.args = m["args"]
        b.locals = m["locals"]
        b.blocks = m["blocks"]
        b.dbg = m["dbg"]
        b.file = r["defspan"][0]
        b.line = r["defspan"][1]
        b.defspan = r["defspan"]
        b.root = r["root"]
        b.parent = r["parent"]
        b.self_ty = None
        b.trait = r.get("trait")
        b.impl = r.get("impl")
        b.derived = r.get("derived", False)
        b.captures = r.get("captures")
        b.unsafe = r.get("unsafe", False)
        b.pub = r.get("pub", False)
        b.in_trait = r.get("in_trait")
        b.targs = None
        b.owner = None
        b._defs = b._preds = b._succ = b._dom = b._loops = b._mutb = None
        return b

    def _index(self):
        self.by_trait_method = {}
        for i in self.impls:
            if "trait" in i:
                for n, p in i["items"]:
                    self.by_trait_method.setdefault((i["trait"], n), []).append((i, p))

    # --------------------------------------------------------------- types
    def t(self, i):
        return self.types[i]

    def ts(self, i):
        return self.types[i]["s"]

    def peel(self, i):
        """Without references and boxes."""
        t = self.types[i]
        while t["k"] in ("ref", "ptr") or (t["k"] == "adt" and t["def"] == "alloc::boxed::Box"):
            i = t["args"][0]
            t = self.types[i]
        return i

    def adt_of(self, i):
        t = self.types[self.peel(i)]
        return t.get("def") if t["k"] == "adt" else None

    # -------------------------------------------------------------- callees
    def callee(self, op):
        """The callee record of the function operand of a call, if it is static."""
        if op[0] == "k" and "fn" in op[1]:
            return op[1]["fn"]
        return None

    def cname(self, c):
        """Resolved path of a callee record."""
        return c.get("res", c["def"])

    def targets(self, c):
        """Bodies a call may run (workspace ones), by static resolution or, for a
        method of a trait that is not resolved, every impl of the workspace."""
        n = self.cname(c)
        b = self.bodies.get(n)
        if b is not None and not (c["rk"] in ("unresolved", "virtual")):
            return [b]
        out = []
        if "trait" in c and c["rk"] in ("unresolved", "virtual"):
            for i, p in self.by_trait_method.get((c["trait"], c["name"]), []):
                if p in self.bodies:
                    out.append(self.bodies[p])
            if n in self.bodies:
                out.append(self.bodies[n])
        elif b is not None:
            out.append(b)
        return out

    def source(self, file):
        p = os.path.join(self.src, file)
        with open(p) as f:
            return f.read()


def boxed(m):
    """`vec![..]` writes its elements through the raw pointer of a fresh box; say
    that it assigns the box."""
    ptr = {}
    for b in m["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and not s[1][1] and s[2][0] == "cast" and s[2][1][0] in ("cp", "mv"):
                q = s[2][1][1]
                if len(q[1]) >= 1 and q[1][0][0] == "f" and q[1][0][1] == "0":
                    ptr[s[1][0]] = q[0]
    if not ptr:
        return
    for b in m["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[1][0] in ptr and len(s[1][1]) == 3 and s[1][1][0][0] == "*" \
                    and s[1][1][2][0] == "f" and s[1][1][2][1] == "value":
                s[1][0] = ptr[s[1][0]]
                s[1][1] = []


# ------------------------------------------------------------------- printing
def pplace(p):
    s = "_%d" % p[0]
    for e in p[1]:
        if e[0] == "*":
            s = "(*%s)" % s
        elif e[0] == "f":
            s += "." + e[1]
        elif e[0] == "d":
            s += "@" + e[1]
        elif e[0] == "i":
            s += "[_%d]" % e[1]
        else:
            s += str(e)
    return s


def pop(P, o):
    if o[0] == "cp":
        return pplace(o[1])
    if o[0] == "mv":
        return "move " + pplace(o[1])
    if o[0] == "k":
        k = o[1]
        if "fn" in k:
            return P.cname(k["fn"])
        if "v" in k:
            return "k" + json.dumps(k["v"], ensure_ascii=False)[:100] + (("<" + k["const"] + ">") if "const" in k else "")
        if "promoted" in k:
            return "promoted[%d]" % k["promoted"]
        return "const " + str(k.get("const") or k.get("static") or P.ts(k["t"]))
    return "rc"


def show(P, b):
    print("fn", b.path, b.span(None), "args", b.args)
    for i, l in enumerate(b.locals):
        print("  _%d: %s %s" % (i, P.ts(l[0]), l[1] or ""))
    for bi, bl in enumerate(b.blocks):
        if bi not in b.live_blocks():
            continue
        print(" bb%d:" % bi)
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                k = r[0]
                if k == "use":
                    x = pop(P, r[1])
                elif k in ("ref", "discr"):
                    x = k + " " + pplace(r[1])
                elif k == "agg":
                    x = str(r[1][:3]) + "(" + ", ".join(pop(P, o) for o in r[2]) + ")"
                elif k == "bin":
                    x = "%s(%s, %s)" % (r[1], pop(P, r[2]), pop(P, r[3]))
                elif k == "cast":
                    x = "%s as %s" % (pop(P, r[1]), P.ts(r[2]))
                elif k == "un":
                    x = "%s(%s)" % (r[1], pop(P, r[2]))
                else:
                    x = str(r)[:200]
                print("    %s = %s" % (pplace(s[1]), x))
            else:
                print("   ", s)
        t = bl["t"]
        if t[0] == "call":
            print("    %s = %s(%s) -> %s" % (pplace(t[3]), pop(P, t[1]), ", ".join(pop(P, o) for o in t[2]), t[4]))
        elif t[0] == "switch":
            print("    switch %s %s else %s" % (pop(P, t[1]), t[2], t[3]))
        elif t[0] == "assert":
            print("    assert %s == %s %s %s -> %s" % (pop(P, t[1]), t[2], t[3], [pop(P, x) for x in t[4]], t[5]))
        elif t[0] == "drop":
            print("    drop %s -> %d" % (pplace(t[1]), t[2]))
        else:
            print("   ", t)
    for p in b.promoted:
        print("--promoted")
        show(P, p)


if __name__ == "__main__":
    import sys
    P = Prog()
    if sys.argv[1] == "ls":
        for k in sorted(P.bodies):
            if re.search(sys.argv[2], k):
                print(k)
    else:
        for k in sorted(P.bodies):
            if re.search(sys.argv[1], k):
                show(P, P.bodies[k])
