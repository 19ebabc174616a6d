"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and tools/detected.txt
(lines `<seed id> <check> caught|missed`, appended after each detection run)."""
import json, os, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for l in open(f"{HERE}/tools/detected.txt"):
    if l.strip():
        i, p, r = l.split()
        res[i] = (p, r)
rows = ["| planted change | what it breaks | needs | check |", "|---|---|---|---|"]
for f in sorted(glob.glob(f"{HERE}/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    p, r = res.get(i, (m["property"], "not run"))
    rows.append(f"| {i} | {m['what_it_breaks']} | {m['needs']} | {p}: {r} |")
d = f"{HERE}/DESIGN.md"
s = open(d).read()
mark = "<!-- planted bugs table -->\n"
s = s.replace("@@TABLE@@\n", mark)
s = s.split(mark)[0] + mark + "\n".join(rows) + "\n"
open(d, "w").write(s)
