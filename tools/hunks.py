#!/usr/bin/env python3
"""hunks.py list | hunks.py stage i j k : lists or stages single hunks of /repo's working tree diff."""
import os, re, subprocess, sys
d = subprocess.run(["git", "-C", os.environ.get("HUNK_REPO","/repo"), "diff", "-U1"], stdout=subprocess.PIPE, text=True).stdout
H = []
head = None
for f in re.split(r"(?m)^(?=diff --git )", d):
    if not f: continue
    parts = re.split(r"(?m)^(?=@@ )", f)
    for p in parts[1:]:
        H.append((parts[0], p))
if sys.argv[1] == "list":
    for i, (h, p) in enumerate(H):
        print("=== %d %s" % (i, h.split("\n")[0])); print(p)
else:
    for i in map(int, sys.argv[2:]):
        h, p = H[i]
        subprocess.run(["git", "-C", os.environ.get("HUNK_REPO","/repo"), "apply", "--cached", "--unidiff-zero", "--recount", "-"], input=h + p, text=True, check=True)
