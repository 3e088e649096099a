"""mkseed.py ID: (re)create /verif/seeded/ID from tools/seeds/ID.py, which defines PROP, NEEDS, BREAKS, EDITS and DEMO.
EDITS = [(file, old, new)] against /repo's HEAD; DEMO = body of demo.py."""
import json, os, subprocess, sys, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import os, sys
sys.path.insert(0, os.getcwd())
import numpy as np
import treecorr
assert os.path.realpath(treecorr.__file__).startswith(os.path.realpath(os.getcwd())), treecorr.__file__
'''
SH = '''#!/bin/bash
# Runs in the root of a built TreeCorr tree.  Exit 0: correct.  Nonzero: the planted bug is visible.
D=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 OMP_WAIT_POLICY=passive
PY=/opt/venv/bin/python; [ -x $PY ] || PY=python3
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export DEMO_TMP=$T
timeout 280 $PY "$D/demo.py"
'''
for ID in sys.argv[1:]:
    ns = {}
    exec(open(os.path.join(H, "tools/seeds", ID + ".py")).read(), ns)
    W = "/tmp/mkseed_wt"
    shutil.rmtree(W, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", W], check=True)
    for f, old, new in ns["EDITS"]:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (ID, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", W, "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    shutil.rmtree(W)
    D = os.path.join(H, "seeded", ID)
    os.makedirs(D, exist_ok=True)
    open(os.path.join(D, "patch.diff"), "w").write(d)
    open(os.path.join(D, "demo.py"), "w").write(PRE + ns["DEMO"].lstrip("\n"))
    open(os.path.join(D, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(D, "demo.sh"), 0o755)
    json.dump(dict(property=ns["PROP"], needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]),
              open(os.path.join(D, "meta.json"), "w"), indent=1)
    # lines removed must be original lines
    print(ID, len(d.splitlines()))
