#!/usr/bin/env python3
"""Writes DESIGN.md.  Usage: PYTHONPATH=.lib:. /opt/venv/bin/python tools/design.py"""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
from design_text import TEXT  # noqa: E402


def main():
    out = [open(os.path.join(HERE, "tools/design_top.md")).read()]
    man = {c["property"]: c for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]}
    for line in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(line)
        pid = p["id"]
        m = importlib.import_module("hv.props." + pid.lower()).PROP
        out.append("### %s %s\n\n%s\n" % (pid, p["title"], p["statement"]))
        out.append("*Deciding method:* %s. *Quantified over:* %s. *Beyond the tests:* %s.\n" % (
            man[pid]["technique"].split(": ", 1)[1], p["quantifier"]["text"], p["why_tests_cant"].rstrip(".")))
        out.append(TEXT[pid] + "\n")
        for s in m.subs:
            out.append("- `%s` (%d cases quick, %d thorough): %s" % (s.name, s.quick, s.thorough, s.clause))
        out.append("\n*Non-trivial:* %s%s" % (m.rule, "" if m.rule.endswith(".") else "."))
        if m.assumptions:
            out.append("*Bounds:* %s." % "; ".join(m.assumptions))
        out.append("")
    out.append("## 3. Planted bugs\n")
    out.append("Each was written from the property's text and the code, validated (applies, 27 tests pass, demonstration) and then run "
               "against the checks at the quick tier, seed 1.\n")
    out.append("| bug | property | needs | caught by |\n|---|---|---|---|")
    table = json.load(open(os.path.join(HERE, "tools/caught.json")))
    for sid in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        d = json.load(open(os.path.join(HERE, "seeded", sid, "meta.json")))
        out.append("| %s | %s | %s | %s |" % (sid, d["property"], d["needs"].replace("|", "/"), table.get(sid, "?")))
    out.append(open(os.path.join(HERE, "tools/design_end.md")).read())
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


main()
