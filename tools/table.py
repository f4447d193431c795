#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md. Arguments: files with lines printed by
catch.sh ("id (Cxx): Cxx=CAUGHT(7s) ..."); ids that occur in none of them keep their old entry."""
import json, os, re, sys
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
path = os.path.join(root, "DESIGN.md")
text = open(path).read()
mark = "## Table of planted bugs"
head, _, old = text.partition(mark)
seen = {}
for l in old.splitlines():
    c = [x.strip() for x in l.strip("|").split("|")]
    if len(c) == 4 and re.match(r"c\d\d-", c[0]):
        seen[c[0]] = (c[2], c[3])
for f in sys.argv[1:]:
    for l in open(f):
        m = re.match(r"(c\d\d\S*) \((C\d\d)\): (.*)", l)
        if m:
            r = dict(re.findall(r"(C\d\d)=(\S+)", m[3]))
            own = r.pop(m[2], "?")
            others = " ".join(sorted(k for k, v in r.items() if v.startswith("CAUGHT")))
            if not r:
                others = seen.get(m[1], ("", ""))[1]
            seen[m[1]] = (own.replace("(", " (") , others)
out = [mark, "", "Own check: result and time to it on this sandbox (seed 1, quick). Others: further checks that report a violation, as far as measured.", "",
       "| id | what breaks; needs | own check | others |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", i, "meta.json")))
    a, b = seen.get(i, ("not run", ""))
    out.append("| %s | %s; needs %s | %s | %s |" % (i, m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/"), a, b))
open(path, "w").write(head.rstrip() + "\n\n" + "\n".join(out) + "\n")
