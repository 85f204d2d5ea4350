"""What is unwrapped was asked for before, in the very same way, and was there."""
from flow import last


def _root(P, b, o, d=0):
    """what an operand stands for: a place or a call on such, without the borrows"""
    if o[0] == "k":
        v = o[1]
        return ("k", str(v.get("v", v.get("promoted", v.get("fn")))), str(v.get("of")))
    l, proj = o[1][0], [e for e in o[1][1] if e[0] != "*"]
    if any(e[0] not in ("f",) for e in proj):
        return None
    proj = tuple(str(e[1]) for e in proj)
    ds = b.defs().get(l, [])
    if l <= b.args or d > 12:
        return ("l", l, proj) if l <= b.args else None
    if len(ds) != 1:
        return None
    bi, si, kind, x = ds[0]
    if b.lname(l):
        # a variable of the source is what it is
        if kind == "assign" and x[0] == "ref" and not x[2] or kind == "assign" and x[0] == "use":
            pass
        else:
            return ("l", l, proj)
    if kind == "assign" and x[0] == "ref":
        r = None if x[2] else _root(P, b, ["cp", x[1]], d + 1)
    elif kind == "assign" and x[0] == "use":
        r = _root(P, b, x[1], d + 1)
    elif kind == "call":
        r = _ask(P, b, x, d + 1)
    else:
        return None
    if r is None or not proj:
        return r
    return r[:2] + (r[2] + proj,) if r[0] == "l" else None


def _ask(P, b, t, d=0):
    c = P.callee(t[1])
    if c is None:
        return None
    args = []
    for o in t[2]:
        if o[0] != "k" and P.ts(o[1][2]).startswith("&mut"):
            return None
        args.append(_root(P, b, o, d))
    if any(a is None for a in args):
        return None
    return ("c", P.cname(c), tuple(args))


def _locals(r, out):
    if r[0] == "l":
        out.add(r[1])
    elif r[0] == "c":
        for a in r[2]:
            _locals(a, out)
    return out


def _reach(b, start, step):
    seen, todo = set(), [start]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        todo.extend(step(x))
    return seen


def asked(P, b, t):
    """the operand of an unwrap is the answer to a call that was made before, on the same, and was found to be Some/Ok"""
    o = t[2][0]
    if o[0] == "k" or o[1][1]:
        return False
    ds = b.defs().get(o[1][0], [])
    if len(ds) != 1 or ds[0][2] != "call":
        return False
    at, call = ds[0][0], ds[0][3]
    me = _ask(P, b, call)
    if me is None:
        return False
    dom = b.dominators()
    roots = _locals(me, set())
    for bi in sorted(b.live_blocks()):
        c1 = b.blocks[bi]["t"]
        if bi == at or c1[0] != "call" or bi not in dom.get(at, ()) or _ask(P, b, c1) != me or c1[3][1]:
            continue
        for x in sorted(b.live_blocks()):
            sw = b.blocks[x]["t"]
            if sw[0] != "switch" or sw[1][0] == "k" or x not in dom[at]:
                continue
            good = None
            for y, _, kind, p in b.defs().get(sw[1][1][0], []):
                if kind == "assign" and p[0] == "discr" and p[1][0] == c1[3][0] and not p[1][1]:
                    is_opt = "option::Option<" in P.ts(c1[3][2])[:30]
                    good = 1 if is_opt else 0
                elif kind == "call" and P.callee(p[1]) is not None and p[2] and p[2][0][0] != "k":
                    n = last(P.cname(P.callee(p[1])))
                    src = b.defs().get(p[2][0][1][0], [])
                    if n in ("is_some", "is_ok", "is_none", "is_err") and len(src) == 1 and src[0][2] == "assign" and src[0][3][0] == "ref" and src[0][3][1][0] == c1[3][0]:
                        good = 1 if n in ("is_some", "is_ok") else 0
            if good is None:
                continue
            named = {int(v): tg for v, tg in sw[2]}
            to = named.get(good, sw[3])
            others = {tg for v, tg in named.items() if v != good} | ({sw[3]} if good in named else set())
            if to is None or to in others or to not in dom[at] or len(b.preds().get(to, ())) != 1:
                continue
            preds = b.preds()
            between = _reach(b, bi, b.succ) & _reach(b, at, lambda z: preds.get(z, ()))
            if not any(_touches(P, b, z, roots) for z in between if z != at or True):
                return True
    return False


def _touches(P, b, bi, roots):
    for s in b.blocks[bi]["s"]:
        if s[0] != "=":
            continue
        if s[1][0] in roots and not (not s[1][1] and len(b.defs().get(s[1][0], [])) == 1):
            return True
        if s[2][0] == "ref" and s[2][2] and s[2][1][0] in roots or s[2][0] == "use" and s[2][1][0] == "mv" and s[2][1][1][0] in roots:
            return True
    t = b.blocks[bi]["t"]
    if t[0] == "call":
        return t[3][0] in roots and len(b.defs().get(t[3][0], [])) != 1 or any(o[0] == "mv" and o[1][0] in roots for o in t[2])
    return False
