#!/usr/bin/env python3
"""gen_sections.py: list every explored space with its bounds (from the harness sources) in SECTIONS.md."""
import os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(root)
import sys
sys.path.insert(0, "tools")
from checks import CHECKS
out = ["# Explored spaces", "", "Generated by tools/gen_sections.py from the harness sources: one line per section, with its bounds.", ""]
for pid in sorted(CHECKS):
    out.append("## " + pid)
    for b in CHECKS[pid]["bins"]:
        todo, seen = list(b["src"]), set()
        while todo:
            f = todo.pop(0)
            if f in seen or not os.path.exists(f) or not f.startswith("harness/"): continue
            seen.add(f)
            t = open(f, errors="replace").read()
            for inc in re.findall(r'#include "([^"]+)"', t): todo.append("harness/" + inc)
            for n, d in re.findall(r'MC_SECTION\(\s*"([^"]*)",\s*"((?:[^"\\]|\\.|"\s*")*)"', t):
                out.append("- `%s` **%s**: %s" % (b["name"], n, re.sub(r'"\s*"', "", d)))
    out.append("")
open("SECTIONS.md", "w").write("\n".join(out))
print(len([l for l in out if l.startswith("- ")]), "sections")
