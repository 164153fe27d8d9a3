#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed = {"S17": "unicode digits and lengths", "S22": "form with two bare hash entries", "S32": "parameter-lists",
          "S37": "earlier issue lists are kept and compared", "S39": "needless JSON escapes", "S40": "issue-sequences",
          "S42": "operation notations", "S43": "operation tree-accessors", "S44": "cold starts, operation new-names"}
p = os.path.join(root, "DESIGN.md")
s = open(p).read()
mark = "<!-- generated -->\n"
s = s.split(mark)[0] + mark
s += "| bug | property | needs | breaks |\n|---|---|---|---|\n"
d = os.path.join(root, "seeded")
extra = json.load(open(os.path.join(root, "tools", "missed.json"))) if os.path.exists(os.path.join(root, "tools", "missed.json")) else {}
missed.update(extra)
for i in sorted(os.listdir(d), key=lambda x: (x[0], int(x[1:]) if x[1:].isdigit() else 0)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    e = " (missed at first; added: %s)" % missed[i] if i in missed else ""
    c = lambda x: x.replace("|", "\\|").replace("\n", " ")
    s += "| %s%s | %s | %s | %s%s |\n" % (i, "*" if i in missed else "", m["property"], c(m["needs"]), c(m["what_it_breaks"]), c(e))
open(p, "w").write(s)
