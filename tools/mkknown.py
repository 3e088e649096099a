#!/usr/bin/env python3
"""Writes /verif/known_findings.json (by hand-maintained table)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = []
def fixed(prop, commit, what):
    F.append(dict(property=prop, status="fixed: property=%s %s %s" % (prop, commit, what), commit=commit, what=what))
def known(prop, sub, case, what):
    F.append(dict(property=prop, status="known", sub=sub, case=case, what=what))
exec(open(os.path.join(V, "tools/known_table.py")).read())
json.dump(dict(findings=F), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
