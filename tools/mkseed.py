#!/usr/bin/env python3
"""Generates seeded/<id>/ from tools/seeds/*.py (each file calls seed(...)). Author's tool; no check uses it.
usage: mkseed.py [id...]"""
import glob, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
out = os.path.join(os.path.dirname(here), "seeded")
want = set(sys.argv[1:])
names = []

def seed(id, edits, demo, needs, breaks, files={}):
    names.append(id)
    if want and id not in want:
        return
    d = os.path.join(out, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix="mkseed")
    subprocess.run(["git", "clone", "-q", "/repo", w + "/r"], check=True)
    r = w + "/r"
    for f, o, n in edits:
        s = open(os.path.join(r, f)).read()
        assert s.count(o) == 1, (id, f, o, s.count(o))
        open(os.path.join(r, f), "w").write(s.replace(o, n))
    for f in set(e[0] for e in edits):
        g = subprocess.run(["gofmt", "-l", f], cwd=r, stdout=subprocess.PIPE).stdout
    diff = subprocess.run(["git", "diff"], cwd=r, stdout=subprocess.PIPE, check=True).stdout
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    # removed lines must be original
    base = {}
    orig = 0
    for l in diff.decode().splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            base = subprocess.run(["git", "show", "dd7b8b4:" + f], cwd=r, stdout=subprocess.PIPE).stdout.decode().splitlines()
        elif l.startswith("-"):
            if l[1:] in base and l[1:].strip() and not l[1:].strip().startswith("//"): orig += 1
    if not orig:
        print("WARNING", id, "changes no original line")
    shutil.rmtree(w)
    shutil.copy(os.path.join(here, "demolib.py"), d)
    open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nsys.dont_write_bytecode = True\nfrom demolib import *\n\n" + demo.strip() + "\nprint('demo ok')\n")
    for n, t in files.items():
        open(os.path.join(d, n), "w").write(t)
    open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\n# exit 0: the property held in this scenario\nexec python3 -B "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": id.split("-")[0], "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", id)

for f in sorted(glob.glob(os.path.join(here, "seeds", "*.py"))):
    exec(compile(open(f).read(), f, "exec"))
