"""Text of a page never reaches the HTML output without being escaped."""
from terms import *
from flow import Flow, chain_text, last
import fmtargs

EXPLANATION = (
    "Interprocedural backward taint over MIR. Sinks: every call that writes into the HTML formatter "
    "(std::fmt::Write on HtmlFormatter, directly, through helpers or closures) and the values returned by the "
    "HTML page/string conversions. Each string that is written is traced back through locals (flow-sensitively), "
    "calls, closures, parameters (to every caller) and the formatter's own fields (to everything stored in them). "
    "The obligation of a sink: every origin is a constant, a number, a date, a URI reference, configuration, or "
    "passes an HTML escape before the sink with nothing that undoes it in between.")

ASSUMPTIONS = [
    "voca_rs::escape::escape_html and syntect's html functions escape what they are given",
    "a uriparse::URIReference never displays '<', '>' or '\"' (its parser refuses or percent-encodes them)",
    "configuration, file paths and templates are chosen by the owner of the wiki and trusted",
]

FMT = "vimwiki_core::lang::output::html::formatter::HtmlFormatter"
SANITIZE = ("voca_rs::escape::escape_html", "syntect::html::")
UNDO = ("unescape", "replace", "decode", "escape_regexp")
SAFE_TYPES = ("usize", "u8", "u16", "u32", "u64", "u128", "i8", "i16", "i32", "i64", "isize", "f32", "f64", "bool",
              "chrono::NaiveDate", "uriparse::URIReference", "chrono::naive::NaiveDate")


def safe_type(s):
    s = s.strip()
    while s.startswith("&"):
        s = s[1:].replace("mut ", "", 1) if s[1:].startswith("mut ") else s[1:]
        s = s.strip()
    return any(s == x or s.startswith(x + "<") or s.startswith(x + "::") for x in SAFE_TYPES) \
        or s.startswith("uriparse::") or s.startswith("chrono::")


def is_sanitizer(n):
    return any(n == s or (s.endswith("::") and n.startswith(s)) for s in SANITIZE)


def run(P, R, tier):
    E = Eval(P, expand=lambda c, b: not is_sanitizer(b.path))
    F = Flow(P, E, state=(FMT,))
    R.rule("escaped-write", "each write into the HTML formatter only has escaped, constant, numeric, date or URI origins", 60)
    R.rule("escaped-result", "what the page conversions return beyond the formatter's content is escaped", 2)

    elems = {a for a in P.adts if a.startswith("vimwiki_core::lang::elements::")}

    def is_output_fmt(b):
        return (b.trait or "").endswith("::output::Output") and b.name == "fmt" and \
            b.targs and any("HtmlFormatter" in P.ts(x) for x in b.targs)

    def source(x):
        """Text of the document: what an element is made of."""
        if x.k != "arg":
            return False
        b = P.bodies.get(x.a[0])
        if b is None:
            return False
        if is_output_fmt(b) and x.a[1] == 1:
            return True
        adt = P.adt_of(b.ty(x.a[1]))
        return adt in elems and not F.arg_sources(b.path, x.a[1])

    def cut(x):
        if x.k == "call":
            n = x.a[0]
            if is_sanitizer(n):
                return True
            m = last(n)
            if m == "fmt" and n.endswith("Output::fmt") or n.endswith("Output>::fmt"):
                return True     # success or failure, no text
            if m in ("read_to_string", "read_to_end"):
                return True     # what a file of the owner holds (a template)
            # a value printed by its own type
            if m in ("new_display", "new_debug", "to_string", "new_lower_hex") and x.a[2]:
                ts = [t for t in x.a[2] if not t.startswith("'")]
                if ts and safe_type(ts[0]):
                    return True
            if m in ("len", "count", "is_empty", "is_some", "is_none", "contains_key", "eq", "ne", "starts_with"):
                return True
        if x.k == "fld":
            if x.a[1] in ("config", "content") and F.adt_of_term(x.a[0]) == FMT:
                return True     # trusted; the content is what the other sinks guard
        if x.k in ("arg", "fld"):
            ty = F.typ(x)
            if ty is not None and safe_type(P.ts(ty)):
                return True
        if x.k in ("bin", "discr", "un"):
            return True
        return False

    def undone(t):
        """a sanitised value that is transformed back below the sink"""
        for x in walk(t, E, cut=lambda y: y.k == "call" and is_sanitizer(y.a[0])):
            if x.k == "call" and any(u in last(x.a[0]) for u in UNDO) and not is_sanitizer(x.a[0]):
                if any(y.k == "call" and is_sanitizer(y.a[0]) for y in walk(x, E)):
                    return x
        return None

    def judge(rule, b, key, where, t):
        bad = []
        for leaf, link in F.origins(t, cut=cut, source=source):
            if source(leaf):
                bad.append((leaf, link))
        u = undone(t)
        if u is not None:
            bad.append((u, (u, None)))
        if bad:
            leaf, link = bad[0]
            R.fail(rule, key, "%s: unescaped text reaches the output: %s" % (where, chain_text(link, 8)))
        else:
            R.ok(rule, "%s at %s" % (key, where))

    nsinks = 0
    for b in P.bodies.values():
        if b.crate != "vimwiki_core" and b.crate != "vimwiki_cli":
            continue
        for bi, t in b.calls():
            c = P.callee(t[1])
            if c is None or not t[2]:
                continue
            m = c["name"]
            if c.get("trait") not in ("std::fmt::Write", "core::fmt::Write"):
                continue
            o = t[2][0]
            if o[0] not in ("cp", "mv") or P.adt_of(o[1][2]) != FMT:
                continue
            nsinks += 1
            fr = E.root(b)
            at = (bi, len(b.blocks[bi]["s"]))
            v = fr.operand(t[2][1], at)
            where = b.span(t[5])
            ps = fmtargs.pieces(v) if m == "write_fmt" else [(v, m)]
            if ps is None:
                ps = [(v, "?")]
            for i, p in enumerate(ps):
                if isinstance(p, str):
                    continue
                if p[1] == "write_char":
                    if p[0].k == "const":
                        continue
                tt = p[0]
                # the type being displayed
                key = "%s|%s|%d" % (short(b.root), lit(ps), i)
                if p[1].startswith("new_") and safe_disp(P, fr, v, i, ps):
                    R.ok("escaped-write", key + " (safe type) at " + where)
                    continue
                judge("escaped-write", b, key, where, tt)
            if all(isinstance(p, str) for p in ps):
                R.ok("escaped-write", "%s|%s constant at %s" % (short(b.root), lit(ps), where))
    R.stats["sink_calls"] = nsinks
    # direct pushes to the content other than through Write
    n = 0
    for b in P.bodies.values():
        if (b.trait or "").endswith(("ToHtmlPage", "ToHtmlString")) or (b.self_ty is not None and False):
            if b.kind == "closure":
                continue
            fr = E.root(b)
            n += 1
            judge("escaped-result", b, short(b.path), b.span(None), fr.ret())
    for bb, e in F.stores(FMT, "content"):
        if (bb.trait or "").endswith("fmt::Write"):
            continue
        judge("escaped-result", bb, "content|" + short(bb.path), bb.span(None), e)


def lit(ps):
    return "".join(p if isinstance(p, str) else "{}" for p in ps)[:60]


def safe_disp(P, fr, v, i, ps):
    """the i-th piece's displayed type is safe by itself"""
    idx = sum(1 for p in ps[:i] if not isinstance(p, str))
    arr = v.a[1][1] if len(v.a[1]) > 1 else None
    if arr is None or arr.k != "agg":
        return False
    for a in arr.a[3]:
        if a.k == "call" and a.a[1] and a.a[1][0] is ps[i][0] and a.a[2]:
            ts = [x for x in a.a[2] if not x.startswith("'")]
            return bool(ts) and safe_type(ts[0])
    return False
