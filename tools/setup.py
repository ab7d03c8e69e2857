#!/usr/bin/env python3
"""There is nothing to build: checks that the tools and the library are there, and that the specification parses."""
import glob, os, subprocess, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "harness"))
sys.dont_write_bytecode = True
import framework
import tempfile
os.makedirs(os.path.join(here, "evidence"), exist_ok=True)
with tempfile.TemporaryDirectory() as d:
    for m in sorted(glob.glob(os.path.join(here, "spec", "*.tla"))):
        r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", framework.JARS, "tla2sany.SANY", m], cwd=os.path.join(here, "spec"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0 or b"rror" in r.stdout:
            print(r.stdout.decode("utf-8", "replace"))
            sys.exit(1)
r = subprocess.run([framework.PYTHON, "-B", "-c", "import sys; sys.path.insert(0, %r); import gopher_render" % os.environ.get("GR_REPO", "/repo")])
sys.exit(r.returncode)
