#!/usr/bin/env python3
"""mkbug.py NAME PROPERTY FILE < spec: plant a bug.  stdin: python literal dict(old=, new=, [file2.. as edits list], needs=, what=, demo=)"""
import ast, json, os, subprocess, sys, tempfile
name = sys.argv[1]
d = {}
exec(sys.stdin.read(), d)
W = "/tmp/bw"
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
for f, old, new in d["edits"]:
    p = os.path.join(W, f)
    s = open(p, newline="").read()
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (f, s.count(old))
    open(p, "w", newline="").write(s.replace(old, new))
diff = subprocess.run(["git", "diff"], cwd=W, stdout=subprocess.PIPE, check=True).stdout.decode()
subprocess.run(["git", "checkout", "-q", "--", "."], cwd=W, check=True)
S = "/verif/seeded/" + name
os.makedirs(S, exist_ok=True)
open(S + "/patch.diff", "w", newline="").write(diff)
open(S + "/demo.py", "w").write(d["demo"].lstrip("\n"))
open(S + "/demo.sh", "w").write('''#!/bin/bash
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg HOME="${HOME:-/root}"
T=$(mktemp -d); export MPLCONFIGDIR="$T" DEMO_TMP="$T"
/opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"; rc=$?
rm -rf "$T"; exit $rc
''')
json.dump(dict(property=d["prop"], needs=d["needs"], what_it_breaks=d["what"]), open(S + "/meta.json", "w"), indent=1)
print(name, len(diff.splitlines()), "diff lines")
