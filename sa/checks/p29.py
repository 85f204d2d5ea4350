"""HTML writers emit well-formed markup."""
from esp import *
from fnmatch import fnmatch

EXPLANATION = (
    "Property simulation over the MIR of every HTML writer: the automaton reads the constant text that is written "
    "(through write!, helpers, closures and strings built for the purpose) as HTML and carries the stack of open tags "
    "and the position inside a tag, comment or quoted attribute; it is followed over all paths and any number of loop "
    "rounds to a fixpoint. Values are escaped text (see P04), nested writers are obligations of their own. Each path "
    "on which the writer succeeds must end outside of any tag with nothing left open; a closing tag must match what is "
    "open; table parts must sit in their parents; attribute values must be quoted; a nested writer must run in element content.")
ASSUMPTIONS = ["values written are free of markup (P04); syntect's line renderer is balanced and its start snippet opens exactly <pre>"]

VOID = {"hr", "br", "img", "meta", "link", "input", "col", "area", "base", "wbr", "!doctype", "!DOCTYPE"}
PARENT = {"tr": ("thead", "tbody", "tfoot", "table"), "td": ("tr",), "th": ("tr",), "thead": ("table",), "tbody": ("table",),
          "dt": ("dl",), "dd": ("dl",)}
BAD = ("bad",)
START = ("text", (), ())


class Html:
    def __init__(self, report):
        self.report = report
        self.n = 0

    def event(self, prop, ev, where):
        self.n += 1
        if prop == BAD:
            return [BAD]
        if ev[0] == "text":
            for ch in ev[1]:
                prop = self.step(prop, ch, where)
                if prop == BAD:
                    break
            return [prop]
        mode, buf, stack = prop
        if ev[0] == "child":
            if mode != "text":
                return [self.bad(where, "a nested element is written inside of %s" % MODES[mode])]
            return [prop]
        t = ev[1]
        if mode == "text":
            for x in (t.a[0],) if t.k == "fld" else (t,):
                if x.k == "call" and "start_highlighted_html_snippet" in x.a[0]:
                    return [(mode, buf, stack + (("pre",),))]
            return [prop]
        if mode == "name":
            return [("name", buf + (t,), stack)]
        if mode == "eq":
            return [self.bad(where, "an attribute value is written without quotes")]
        return [prop]

    def bad(self, where, msg):
        self.report(where, msg)
        return BAD

    def step(self, prop, ch, where):
        mode, buf, stack = prop
        if mode == "text":
            if ch == "<":
                return ("name", (), stack)
            if ch == ">":
                return self.bad(where, "'>' is written outside of any tag")
            return prop
        if mode == "name":
            if ch == ">":
                return self.close(buf, stack, where, False)
            if ch.isspace():
                return ("tag", buf, stack)
            if ch == "/" and buf:
                return ("slash", buf, stack)
            if ch == "<":
                return self.bad(where, "'<' inside of a tag name")
            b = buf[:-1] + (buf[-1] + ch,) if buf and isinstance(buf[-1], str) else buf + (ch,)
            if b == ("!--",):
                return ("comment", ("",), stack)
            return ("name", b, stack)
        if mode == "comment":
            s = (buf[0] + ch)[-3:]
            if s == "-->":
                return ("text", (), stack)
            return ("comment", (s,), stack)
        if mode == "tag":
            if ch == ">":
                return self.close(buf, stack, where, False)
            if ch == "/":
                return ("slash", buf, stack)
            if ch == '"':
                return ("dq", buf, stack)
            if ch == "'":
                return ("sq", buf, stack)
            if ch == "=":
                return ("eq", buf, stack)
            if ch == "<":
                return self.bad(where, "'<' inside of a tag")
            return prop
        if mode == "eq":
            if ch == '"':
                return ("dq", buf, stack)
            if ch == "'":
                return ("sq", buf, stack)
            return self.bad(where, "an attribute value is written without quotes")
        if mode == "slash":
            if ch == ">":
                return self.close(buf, stack, where, True)
            return ("tag", buf, stack) if not ch == '"' else ("dq", buf, stack)
        if mode == "dq":
            return ("tag", buf, stack) if ch == '"' else prop
        if mode == "sq":
            return ("tag", buf, stack) if ch == "'" else prop
        return prop

    def close(self, name, stack, where, selfclosing):
        if name and isinstance(name[0], str) and name[0].startswith("/"):
            n = ((name[0][1:],) if name[0][1:] else ()) + name[1:]
            if not stack or stack[-1] != n:
                return self.bad(where, "</%s> is written while %s is open" % (
                    nm(n), ("<%s>" % nm(stack[-1])) if stack else "nothing"))
            return ("text", (), stack[:-1])
        if selfclosing or name[0] in VOID or str(name[0]).startswith("!"):
            return ("text", (), stack)
        if not name:
            return self.bad(where, "a tag without a name")
        p = PARENT.get(name[0]) if len(name) == 1 else None
        if p and (not stack or len(stack[-1]) != 1 or stack[-1][0] not in p):
            return self.bad(where, "<%s> is written inside of %s" % (nm(name), ("<%s>" % nm(stack[-1])) if stack else "nothing"))
        if len(stack) > 12:
            return self.bad(where, "<%s> is opened again and again" % nm(name))
        return ("text", (), stack + (name,))


MODES = {"name": "a tag name", "tag": "a tag", "slash": "a tag", "dq": "an attribute", "sq": "an attribute", "eq": "an attribute",
         "comment": "a comment", "text": "content"}


def nm(n):
    return "".join(x if isinstance(x, str) else "{%s}" % show(x) for x in n)


FORMATTER = "vimwiki_core::lang::output::html::formatter::HtmlFormatter"


def writers(P, formatter):
    out = []
    for b in P.bodies.values():
        if b.kind != "closure" and b.trait and b.trait.endswith("::output::Output") and b.name == "fmt" and b.args == 2 \
                and P.adt_of(b.locals[2][0]) == formatter:
            out.append(b)
    return out


class Touches:
    """Which bodies write to a formatter (take it mutably and call a write on it, also through others)."""

    def __init__(self, P, formatter):
        self.P = P
        self.fm = formatter
        self.memo = {}

    def __call__(self, b):
        if b.path in self.memo:
            return self.memo[b.path]
        self.memo[b.path] = False
        P = self.P
        r = False
        for x in [b] + [c for c in P.bodies.values() if c.kind == "closure" and c.path.startswith(b.path + "::{closure")]:
            for bi, t in x.calls():
                c = P.callee(t[1])
                if c is None:
                    continue
                takes = any(o[0] in ("cp", "mv") and self.isf(x, o[1]) for o in t[2])
                if not takes:
                    continue
                m = last(P.cname(c))
                if m in WRITES or (c.get("trait") or "").endswith("::output::Output"):
                    r = True
                for q in P.targets(c):
                    if self(q):
                        r = True
        self.memo[b.path] = r
        return r

    def isf(self, b, p):
        return self.P.adt_of(p[2]) == self.fm or self.P.t(self.P.peel(p[2]))["k"] == "param"


def is_output(c, n):
    return (c.get("trait") or "").endswith("::output::Output") and c["name"] == "fmt"


def run(P, R, tier):
    R.rule("writer", "on every successful path the markup written is balanced", 22)
    R.rule("template", "the default template is balanced and shows the content", 1)
    done, todo = set(), writers(P, FORMATTER)
    touches = Touches(P, FORMATTER)
    events = states = 0
    while todo:
        b = todo.pop()
        if b.path in done:
            continue
        done.add(b.path)
        msgs = []

        def report(where, msg):
            body, sp, bi = where
            m = "%s: %s" % (body.span(sp), msg)
            if m not in msgs:
                msgs.append(m)
        auto = Html(report)
        E = Esp(P, auto, is_output, touches)
        sink = [i for i in range(1, b.args + 1) if P.adt_of(b.locals[i][0]) == FORMATTER]
        outs = E.analyse(b, START, sink[0])
        for prop, facts, v in outs:
            if E.is_err(v, facts) or prop == BAD:
                continue
            mode, buf, stack = prop
            if mode != "text":
                report((b, None, 0), "it can end inside of %s" % MODES[mode])
            elif stack:
                report((b, None, 0), "it can end with <%s> left open" % nm(stack[-1]))
        events += auto.n
        states += E.nstates
        for r in E.recursed:
            todo.append(P.bodies[r])
        key = short(b.path)
        if msgs:
            R.fail("writer", key, "; ".join(msgs[:4]))
        else:
            R.ok("writer", "%s (%d states)" % (key, E.nstates))
    R.stats["states"] = states
    R.stats["write_events"] = events
    # the default template
    cands = []
    for b in P.bodies.values():
        if b.crate == "vimwiki_core" and "output::html" in b.path:
            for k in consts(b):
                if isinstance(k, str) and "%content%" in k and "<" in k:
                    cands.append((b, k))
    for b, text in cands:
        msgs = []
        auto = Html(lambda w, m: msgs.append(m))
        p = auto.event(START, ("text", text), (b, None, 0))[0]
        ok = not msgs and p == START and "%content%" in text
        R.check("template", ok, short(b.path), "%s: the template is not balanced: %s %s" % (b.span(None), msgs[:2], p if p != BAD else ""))


def consts(b):
    def op(o):
        if o[0] == "k" and isinstance(o[1].get("v"), str):
            yield o[1]["v"]
    for bl in b.blocks:
        for s in bl["s"]:
            if s[0] == "=":
                r = s[2]
                if r[0] == "use":
                    yield from op(r[1])
                elif r[0] == "agg":
                    for o in r[2]:
                        yield from op(o)
        t = bl["t"]
        if t[0] == "call":
            for o in t[2]:
                yield from op(o)
