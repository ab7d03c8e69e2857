#!/usr/bin/env python3
"""
Runs the quick check of its property against every planted bug and writes the
table in DESIGN.md.   usage: catch.py [-j N] [ID...]
"""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = os.path.join(here, "tools", "caught.json")
args = sys.argv[1:]
jobs = 3
if args[:1] == ["-j"]:
    jobs = int(args[1])
    args = args[2:]
ids = args or sorted(os.listdir(os.path.join(here, "seeded")))


def run(i):
    d = os.path.join(here, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    scratch = tempfile.mkdtemp(prefix="catch-")
    try:
        tree = os.path.join(scratch, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        a = subprocess.run(["git", "-C", tree, "apply", os.path.join(d, "patch.diff")], capture_output=True, text=True)
        if a.returncode:
            return i, meta, "does not apply", ""
        # from a copy, so that evidence is not rewritten
        v = os.path.join(scratch, "verif")
        shutil.copytree(here, v, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
        c = subprocess.run(["/opt/venv/bin/python", "check.py", meta["property"], "--tier", "quick"], cwd=v, capture_output=True, text=True,
                           env=dict(os.environ, GR_REPO=tree, VERIF_SEED="1"))
        how = re.findall(r"clauses: (.*); family (.*), event", c.stdout)
        if c.returncode == 1 and "VIOLATION property=" + meta["property"] in c.stdout:
            return i, meta, "caught", "; ".join(sorted({"%s (%s)" % (a, b) for a, b in how}))
        return i, meta, "MISSED" if c.returncode == 0 else "exit %d" % c.returncode, ""
    finally:
        shutil.rmtree(scratch)


table = json.load(open(TABLE)) if os.path.exists(TABLE) else {}
with ThreadPoolExecutor(jobs) as pool:
    for i, meta, res, how in pool.map(run, ids):
        print(i, res, how, flush=True)
        table[i] = [meta["property"], meta["needs"], res, how]
        json.dump(table, open(TABLE, "w"), indent=1, sort_keys=True)
table = {i: t for i, t in table.items() if os.path.isdir(os.path.join(here, "seeded", i))}
json.dump(table, open(TABLE, "w"), indent=1, sort_keys=True)
path = os.path.join(here, "DESIGN.md")
s = open(path).read()
rows = ["| planted bug | property | needs | check %s |" % "and what it notices", "|---|---|---|---|"]
for i, (p, needs, res, how) in sorted(table.items()):
    rows.append("| %s | %s | %s | %s%s |" % (i, p, needs.rstrip("."), res, ": " + how if how else ""))
a, b = "<!-- caught -->", "<!-- /caught -->"
s = s[:s.index(a) + len(a)] + "\n" + "\n".join(rows) + "\n" + s[s.index(b):]
open(path, "w").write(s)
