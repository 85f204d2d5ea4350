"""What the checks of the command line share: its effects, found by sa/effects.py from run on."""
import re
from prog import *
from flow import last
from effects import *

CACHE = ("f", "CommonOpt", "cache", ("the", "CommonOpt"))


def opt(adt, name):
    return ("f", adt, name, ("the", adt))


class Cli:
    def __init__(self, P):
        self.P = P
        self.sim = Sim(P)
        self.root = P.bodies["vimwiki_cli::run"]
        self.sim.root(self.root, (one(("the", "Opt")),))
        self.events = sorted(self.sim.events.values(), key=lambda e: (e.body.path, e.block, str(sorted(map(str, e.facts)))))

    def calls(self, rx):
        return [e for e in self.events if re.search(rx, e.full)]

    def stores(self, adt, field):
        """[(body path, facts, ctx, value)]"""
        return [(k[0], k[4], k[5], v) for k, v in sorted(self.sim.stores.items(), key=lambda x: str(x[0][:4])) if k[2] == adt and k[3] == field]

    def functions(self):
        return len({e.body.path for e in self.events})


def origin(t):
    """what a path is made from"""
    if t[0] == "f":
        if t[1] == "HtmlWikiConfig" and t[2] in ("path_html", "path", "css_name", "template_path"):
            return (t[2],)
        if t[1].endswith(("Subcommand", "Opt")):
            return (t[1] + "." + t[2],)
        if t[1] == "WikiFile" and t[2] == "path":
            return ("page",)
        return None
    if t[0] == "item":
        x = t[1]
        if x[0] == "call" and x[1] == "new" and x[2]:
            o = origins(x[2][0])
            return ("walk",) + o if o else None
        return origin(x)
    if t[0] == "call":
        if t[1] in ("join", "parent", "with_extension", "with_file_name", "create", "open", "new") and t[2]:
            return origins(t[2][0])
        if t[1] in ("make_output_path", "make_output_html_path"):
            return ("output",)
    return None


def origins(v):
    o = {origin(t) for t in v}
    return o.pop() if len(o) == 1 else None


def where(e):
    p = re.sub(r"::\{closure#\d+\}", "", e.body.path)
    return "::".join(p.split("::")[-2:])


def show(v, d=0):
    if isinstance(v, frozenset):
        return "|".join(sorted(show(x, d) for x in v))
    if not isinstance(v, tuple):
        return str(v)[:30]
    if d > 4:
        return ".."
    if not v or not isinstance(v[0], str):
        return "(" + ", ".join(show(x, d + 1) for x in v) + ")"
    if v[0] == "f":
        return show(v[3], d + 1) + "." + v[2]
    if v[0] == "the":
        return v[1] if len(v) == 2 else "%s{page: %s, wiki: %s}" % (v[1], show(v[2], d + 1), show(v[3], d + 1))
    if v[0] == "call":
        return v[1] + "(" + ", ".join(show(x, d + 1) for x in v[2]) + ")"
    if v[0] == "item":
        return "each of " + show(v[1], d + 1)
    return "(" + ",".join(show(x, d + 1) if isinstance(x, (tuple, frozenset)) else str(x)[:30] for x in v) + ")"
