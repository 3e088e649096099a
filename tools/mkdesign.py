"""Fill the generated parts of DESIGN.md (findings, planted bugs)"""
import json, re, os, glob
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
t = open("DESIGN.md").read()
F = json.load(open("known_findings.json"))["findings"]
F.sort(key=lambda f: (f["property"], f["status"][:5] != "known"))
out = []
for f in F:
    if f["status"] == "known": out.append(f"* {f['property']} **known finding** (sub-check `{f['sub']}`): {f['what']}.")
    else: out.append(f"* {f['property']} fixed `{f['commit']}`: {f['what']}.")
t = re.sub(r"<!--FINDINGS-->.*<!--/FINDINGS-->", lambda m: "<!--FINDINGS-->\n" + "\n".join(out) + "\n<!--/FINDINGS-->", t, flags=re.S)
rows = ["| id | property (check that catches it) | what it breaks |", "|----|----|----|"]
for p in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(p))
    rows.append(f"| {os.path.basename(os.path.dirname(p))} | {m['property']} ({m.get('caught_by', m['property'])}) | {m['what_it_breaks']} — needs: {m['needs']} |")
t = re.sub(r"<!--SEEDS-->.*<!--/SEEDS-->", lambda m: "<!--SEEDS-->\n" + "\n".join(rows) + "\n<!--/SEEDS-->", t, flags=re.S)
open("DESIGN.md", "w").write(t)
