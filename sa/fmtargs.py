"""Format strings as they appear in MIR (`Arguments::new(template, args)`)."""


def decode(bs):
    """Template bytes -> list of str literal or ('arg', index)."""
    out = []
    i = 0
    nxt = 0
    while i < len(bs):
        b = bs[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            out.append(bytes(bs[i:i + b]).decode("utf8", "replace"))
            i += b
        elif b == 0x80:
            n = bs[i] | (bs[i + 1] << 8)
            i += 2
            out.append(bytes(bs[i:i + n]).decode("utf8", "replace"))
            i += n
        else:
            idx = nxt
            if b & 1:
                i += 4
            if b & 2:
                i += 2
            if b & 4:
                i += 2
            if b & 8:
                idx = bs[i] | (bs[i + 1] << 8)
                i += 2
            out.append(("arg", idx))
            nxt = idx + 1
    return out


def pieces(t):
    """A term of type fmt::Arguments -> list of str | (argument term, trait) or None."""
    if t.k != "call":
        return None
    n = t.a[0]
    if n.endswith("Arguments::<'a>::from_str") or n.endswith("Arguments::from_str"):
        c = t.a[1][0]
        if c.k == "const" and isinstance(c.a[0], str):
            return [c.a[0]]
        return [(c, "new_display")]
    if n.endswith("Arguments::<'a>::new"):
        tm, ar = t.a[1]
        if tm.k != "const" or not (isinstance(tm.a[0], tuple) and tm.a[0][0] == "l"):
            return None
        ps = decode(list(tm.a[0][1:]))
        out = []
        if ar.k == "agg":
            items = ar.a[3]
        else:
            return None
        for p in ps:
            if isinstance(p, str):
                out.append(p)
            else:
                a = items[p[1]]
                if a.k == "call" and "Argument" in a.a[0]:
                    out.append((a.a[1][0], a.a[0].rsplit("::", 1)[1]))
                else:
                    out.append((a, "?"))
        return out
    return None
