#!/usr/bin/env python3
"""
Makes planted bugs from seeds.py-like files of calls  bug(id, property, file, old, new, demo, needs, breaks).
A bug is kept only if it applies, leaves the stable tests passing, and its demonstration tells the trees apart.
usage: seed.py FILE [ID...]
"""
import difflib, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "1c4b757"
want = sys.argv[2:]
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO = '''#!/bin/sh
# Run in the root of the repository.  Exit 0: as it should be.
exec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
HEAD = '''import sys
from gopher_render import GopherHTMLParser
import gopher_render.rendering as R
import gopher_render._parser as P


def render(html, **kw):
    p = GopherHTMLParser(**kw)
    p.feed(html)
    p.close()
    return p.parsed


def expect(got, want):
    if got != want:
        print("expected %r" % (want,))
        print("     got %r" % (got,))
        sys.exit(1)


'''


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def bug(id, property, edits, demo, needs, breaks):
    if want and id not in want:
        return
    d = os.path.join(here, "seeded", id)
    if not want and os.path.exists(d):
        return
    scratch = tempfile.mkdtemp(prefix="seed-")
    try:
        tree = os.path.join(scratch, "repo")
        shutil.copytree(REPO, tree, symlinks=True)
        for file, old, new in edits:
            path = os.path.join(tree, "gopher_render", file)
            s = open(path).read()
            if s.count(old) != 1:
                print(id, "FAILED: %d occurrences of %r" % (s.count(old), old))
                return
            open(path, "w").write(s.replace(old, new))
            orig = sh(["git", "-C", REPO, "show", BASE + ":gopher_render/" + file]).stdout.split("\n")
            a, b = s.split("\n"), s.replace(old, new).split("\n")
            for l in difflib.ndiff(a, b):
                if l.startswith("- ") and l[2:] not in orig:
                    print(id, "warning: not an original line: %r" % l[2:])
        patch = sh(["git", "-C", tree, "diff"]).stdout
        r = sh(["/opt/venv/bin/python", "-B", "-m", "compileall", "-q", "gopher_render"], cwd=tree)
        r = sh(["/opt/venv/bin/python", "-B", "/opt/vp/run_pytest.py", "-q", "--assert=plain", "-p", "no:cacheprovider", "-rA", "--tb=no", "tests"], cwd=tree,
               env=dict(os.environ, PYTHONPATH=tree))
        passed = sum(l.startswith("PASSED") for l in r.stdout.split("\n"))
        if passed < len(STABLE) or "failed" in r.stdout.split("\n")[-2]:
            print(id, "FAILED: the tests notice:", [l for l in r.stdout.split("\n") if l.startswith("FAILED")][:3], r.stdout[-200:])
            return
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.strip("\n") + "\n")
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        good = sh(["sh", os.path.join(d, "demo.sh")], cwd=REPO, timeout=100)
        bad = sh(["sh", os.path.join(d, "demo.sh")], cwd=tree, timeout=100)
        if good.returncode != 0 or bad.returncode == 0:
            print(id, "FAILED: demo %d on the unchanged tree, %d with the bug\n%s" % (good.returncode, bad.returncode, good.stdout + bad.stdout))
            shutil.rmtree(d)
            return
        c = sh(["/opt/venv/bin/python", "check.py", property, "--tier", "quick"], cwd=here, env=dict(os.environ, GR_REPO=tree, VERIF_SEED="1"))
        caught = c.returncode == 1 and "VIOLATION property=" + property in c.stdout
        print(id, property, "caught" if caught else "MISSED (exit %d) %s" % (c.returncode, c.stdout[-300:]),
              next((l for l in c.stdout.split("\n") if "clauses" in l), ""))
    finally:
        shutil.rmtree(scratch)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
