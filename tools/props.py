#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HTML = "vimwiki-core/src/lang/output/html/mod.rs"
WIKI = "vimwiki-core/src/lang/output/vimwiki/mod.rs"
CONV = "vimwiki-core/src/lang/output/html/convert.rs"
PARSE = "vimwiki-core/src/lang/vimwiki/parsers"
ELEM = "vimwiki-core/src/lang/elements"
CLI = "vimwiki-cli/src"

PROPS = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, observe=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        p["anchors"]["observe_at"] = observe
    PROPS.append((p, technique, note, na))


exec(open(os.path.join(V, "tools", "props_data.py")).read())


def main():
    PROPS.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, *_ in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p, tech, note, why in PROPS:
        if why:
            na.append({"property": p["id"], "reason": why})
        else:
            assert os.path.exists(os.path.join(V, "sa", "checks", p["id"].lower() + ".py")), p["id"]
            checks.append({"property": p["id"], "quick_cmd": "python3 sa/check.py " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough python3 sa/check.py " + p["id"],
                           "technique": tech, "level": "other", "level_note": note})
    m = {"version": 1, "setup_cmd": "python3 sa/facts.py", "checks": checks, "not_applicable": na,
         "notes": "Every check reads the facts (types, impls, MIR with resolved callees) that driver/ extracts from "
                  "/repo's current tree with cargo +nightly check; the facts are cached by a hash of the sources. "
                  "properties.jsonl and this file are generated by tools/props.py."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
