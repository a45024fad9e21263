#!/usr/bin/env python3
"""Runs a property's quick check against small mutations of the code (development aid; never part of a registered check).
usage: mut.py FILE.py [FILTER...]   FILE defines M = [(prop, name, file, old, new), ...]"""
import os, re, runpy, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = runpy.run_path(sys.argv[1])["M"]
flt = sys.argv[2:]
base = "/tmp/mut%d" % os.getpid()
src = "/tmp/mutsrc%d" % os.getpid()
ig = shutil.ignore_patterns(".git", "data", "build")
shutil.copytree("/repo", src, symlinks=True, ignore=ig)
os.makedirs(src + "/data", exist_ok=True)
subprocess.run(["/opt/venv/bin/python", "setup.py", "-q", "build_ext", "--inplace"], cwd=src, check=True, capture_output=True,
               env=dict(os.environ, CC="/usr/bin/gcc", CXX="/usr/bin/g++"))
for m in M:
    props, name = m[0], m[1]
    edits = [m[2:5]] if isinstance(m[2], str) else m[2]
    if flt and not any(f in name or f in props for f in flt):
        continue
    if os.path.isdir(base):
        shutil.rmtree(base)
    shutil.copytree(src, base, symlinks=True)
    native = False
    bad = None
    for f, old, new in edits:
        p = os.path.join(base, f)
        s = open(p).read()
        if s.count(old) < 1:
            bad = "NOT FOUND: " + f
            break
        s = s.replace(old, new, 1)
        open(p, "w").write(s)
        native |= not f.endswith(".py")
    if bad:
        print(props, name, bad, flush=True)
        continue
    for prop in props.split(","):
        t = time.time()
        e = dict(os.environ, VP_REPO=base, VP_SKIP_MODELS="1")
        if not native:
            e["VP_REUSE_BUILD"] = "1"
        r = subprocess.run([sys.executable, V + "/harness/vp.py", prop, "quick"], env=e, capture_output=True, text=True, timeout=1500)
        why = [l for l in r.stdout.splitlines() if l.startswith("rejected")][:2]
        print({0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN"), prop, name, "%.0fs" % (time.time() - t), *why, *(r.stdout.splitlines()[-3:] + r.stderr.splitlines()[-3:] if r.returncode not in (0, 1) else []), flush=True)

shutil.rmtree(base, ignore_errors=True)
shutil.rmtree(src, ignore_errors=True)
