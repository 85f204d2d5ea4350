"""Files are touched only where the options allow it, and what is asked for is written."""
from checks.cli import *
from checks.p15 import failing

EXPLANATION = (
    "An abstract interpretation of the command line from run on (values are terms over the options; the yes/no options branched on are part of the "
    "state; workspace functions and closures are entered) finds every operation of std::fs and every print, the path it is on and the options it runs "
    "under. Obligations: each operation on the cache runs only without --no-cache, removing what it holds only without --no-prune-cache too; "
    "a file is removed nowhere else; files are written only to the output path of a wiki without --stdout, its stylesheet only with "
    "--include-vimwiki-css, the file just formatted only with --inline, or to --output; and what was converted is written or printed on every path that succeeds.")
ASSUMPTIONS = ["library functions touch no files other than those they are named after"]

READ = {"read_to_string", "read", "metadata", "open", "canonicalize", "exists", "read_dir", "symlink_metadata", "read_link", "try_exists", "file_type", "is_file", "is_dir",
        "path", "len", "modified", "new", "options", "write_", "append", "create_", "is_symlink"}
REMOVE = {"remove_file", "remove_dir", "remove_dir_all"}
STD = r"^std::fs::(File::)?[a-z_]+$|OpenOptions::open$|DirBuilder::create$"


def run(P, R, tier):
    R.rule("cache", "an operation on the cache runs only where the cache is in use", 4)
    R.rule("remove", "only files of the cache are removed", 2)
    R.rule("write", "a file is written only where an option asks for it", 5)
    R.rule("print", "a result is printed only where it is asked for", 2)
    R.rule("done", "what was converted or formatted is written or printed on every path that succeeds", 2)
    C = Cli(P)
    R.stats["functions"] = C.functions()
    R.stats["operations"] = len(C.events)
    for e in C.calls(STD):
        if not e.args:
            continue
        reading = e.name in READ and not (e.name == "open" and "OpenOptions" in e.full)
        paths = e.args[:2] if e.name in ("copy", "rename", "hard_link") else e.args[1:2] if "OpenOptions" in e.full or "DirBuilder" in e.full else e.args[:1]
        for v in paths:
            for t in sorted(v, key=str):
                one_path(R, C, e, t, reading)
    for e in C.calls(r"^std::io::(stdio::)?_print$|Stdout.*write"):
        html = {x[1] for a in e.args for x in walk(a) if x[0] == "call" and x[1] in ("to_html_page", "to_html_string", "to_vimwiki_string")}
        if not html:
            continue
        if "to_vimwiki_string" in html:
            R.check("print", e.fact(opt("FormatSubcommand", "inline")) == 0, where(e) + "|inline", "%s prints what was formatted though --inline is given" % where(e))
        else:
            R.check("print", e.fact(opt("ConvertSubcommand", "stdout")) == 1, where(e) + "|stdout", "%s prints html without --stdout" % where(e))
    done(P, R, C)


def one_path(R, C, e, t, reading):
    o = origin(t)
    at = "%s|%s" % (where(e), e.name)
    f = dict(e.facts)
    on = f.get(opt("CommonOpt", "no_cache")) == 0
    if o and o[-1] == "CommonOpt.cache":
        R.check("cache", on, at, "%s calls %s on the cache without making sure that --no-cache is not given" % (where(e), e.name))
        if e.name in REMOVE:
            if o[0] == "walk" or e.name != "remove_file" or t == CACHE:
                R.check("remove", f.get(opt("CommonOpt", "no_prune_cache")) == 0, at + "|prune",
                        "%s removes what is in the cache without making sure that --no-prune-cache is not given" % where(e))
            else:
                R.ok("remove", at)
        return
    if e.name in REMOVE:
        R.fail("remove", at, "%s removes %s, which is not in the cache" % (where(e), show(t)))
        return
    if reading:
        return
    stdout, inline = opt("ConvertSubcommand", "stdout"), opt("FormatSubcommand", "inline")
    if o == ("output",):
        R.check("write", f.get(stdout) == 0, at + "|output", "%s writes to %s though --stdout may be given" % (where(e), show(t)))
    elif o == ("path_html",):
        R.check("write", f.get(stdout) == 0 and (f.get(opt("ConvertSubcommand", "include_vimwiki_css")) == 1 or e.name.startswith("create_dir")), at + "|css",
                "%s writes to %s though --stdout may be given or --include-vimwiki-css may not" % (where(e), show(t)))
    elif o and o[-1] == "FormatSubcommand.paths":
        ok = f.get(inline) == 1
        R.check("write", ok, at + "|inline", "%s writes to %s though --inline may not be given" % (where(e), show(t)))
        if ok and len(e.args) > 1:
            src = {x for a in e.args[1] for x in walk(a) if x[0] == "call" and x[1] == "read_to_string"}
            R.check("write", any(t in s[2][0] for s in src), at + "|same", "%s writes something other than the file's own text, formatted, to %s" % (where(e), show(t)))
    elif o == ("InspectSubcommand.output",):
        R.ok("write", at)
    else:
        R.fail("write", at, "%s calls %s on %s, which no option asks for" % (where(e), e.name, show(t)))


RESULT = ("to_html_page", "to_html_string", "to_html_fragment", "to_vimwiki_string")
SINK = re.compile(r"^std::fs::write$|_print$|::write_all$|::write_fmt$|to_writer")


def done(P, R, C):
    """from where the text is made, each way to succeed leads by where it is written"""
    by = {}
    for e in C.events:
        by.setdefault(e.body.path, []).append(e)
    for path, es in sorted(by.items()):
        b = es[0].body
        made = {e.block: e for e in es if any(x[0] == "call" and x[1] in RESULT for t in e.result for x in [t]) and (e.name in RESULT or e.callee is not None)}
        if not made:
            continue
        kinds = {t[1] for e in made.values() for t in e.result if t[0] == "call"}
        if P.ts(b.locals[0][0]).find("String") >= 0 or b.kind == "closure":
            continue            # handed on to the caller
        sinks = {e.block for e in es if (SINK.search(e.full) or e.callee is not None) and any(x[0] == "call" and x[1] in RESULT for a in e.args for x in walk(a))}
        cut = set()
        for bi in b.live_blocks():
            t = b.blocks[bi]["t"]
            if t[0] == "switch" and t[1][0] in ("cp", "mv"):
                for s in b.blocks[bi]["s"]:
                    if s[0] == "=" and s[1][0] == t[1][1][0] and s[2][0] == "discr":
                        if failing(P, s[2][1][2]) or "ControlFlow<" in P.ts(s[2][1][2]):
                            cut.add((bi, ([tg for v, tg in t[2] if int(v) == 1] or [t[3]])[0]))
        for bi in sorted(made):
            # a function called for one file: from its start; a loop over files: from where the text is made
            seen, todo, out = set(), [b.blocks[bi]["t"][4]], False
            while todo:
                x = todo.pop()
                if x is not None and x not in seen:
                    seen.add(x)
                    todo.extend(b.succ(x))
            todo = [b.blocks[bi]["t"][4] if bi in seen else 0]
            seen = set()
            while todo and not out:
                x = todo.pop()
                if x in seen or x is None or x in sinks:
                    continue
                seen.add(x)
                out = b.blocks[x]["t"][0] == "ret"
                todo.extend(y for y in b.succ(x) if (x, y) not in cut)
            R.check("done", not out, "%s|%s" % (where(made[bi]), "/".join(sorted(kinds))), "%s may succeed without writing or printing what %s gave" % (path, made[bi].name))
