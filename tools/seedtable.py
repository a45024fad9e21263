#!/usr/bin/env python3
"""rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json and what the checks reported (tools/bug.sh logs)"""
import glob, json, os, re
V = "/verif"
rows = []
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    n = os.path.basename(os.path.dirname(m))
    d = json.load(open(m))
    log = "/tmp/bug-%s.chk" % n
    by = ""
    if os.path.exists(log):
        by = "; ".join("`%s`" % x for x in dict.fromkeys(re.findall(r"rejected: (\S+?:\S+?)\s", open(log).read())[:2]))
    rows.append((n, d["property"], d["needs"].replace("|", "/"), by))
old = dict(re.findall(r"^\| (C\d\d-\S+) \|.*\| ([^|]*) \|$", open(V + "/DESIGN.md").read(), re.M))
t = "| planted bug | manifests with | caught by |\n|---|---|---|\n" + "".join(
    "| %s | %s | %s %s |\n" % (n, need, p, by) if by else "| %s | %s | %s |\n" % (n, need, old.get(n, p)) for n, p, need, by in rows)
s = open(V + "/DESIGN.md").read()
mark = "<!-- planted -->\n"
if "SEEDED-TABLE" in s:
    s = s.replace("SEEDED-TABLE", mark + t + mark.rstrip())
else:
    a, _, b = s.split(mark.rstrip())
    s = a + mark + t + mark.rstrip() + b
open(V + "/DESIGN.md", "w").write(s)
