#!/usr/bin/env python3
"""Setup: nothing to build; checks that the tools are there and that every specification parses."""
import glob, os, subprocess, sys, tempfile, shutil
V = os.path.dirname(os.path.abspath(__file__))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
d = tempfile.mkdtemp(prefix="verif_setup_")
try:
    bad = 0
    mods = sorted(os.path.basename(p) for p in glob.glob(os.path.join(V, "spec", "*.tla")))
    r = subprocess.run(["java", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tla2sany.SANY"] + mods, cwd=os.path.join(V, "spec"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if "*** Errors" in r.stdout or "Fatal" in r.stdout or "Could not parse" in r.stdout:
        print(r.stdout[-3000:]); bad = 1
    r = subprocess.run(["/opt/pvenv/bin/python", "-c", "import numpy, sklearn"])
    bad |= r.returncode != 0
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
