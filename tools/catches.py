"""catches.py DIR: rewrite the table of planted bugs in DESIGN.md from DIR/<id>.out, the output of the property's quick
check against each planted bug (or `missed`)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for i in sorted(os.listdir(f"{V}/seeded")):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    f = f"{sys.argv[1]}/{i}.out"
    out = open(f).read() if os.path.exists(f) else ""
    m = re.search(r"VIOLATION property=(\w+) replay=\S*?/\w+-(\w+)-seed", out)
    m = m or re.search(r"VIOLATION property=(\w+) replay=\S*?/(\w+)", out)
    what = " ".join(meta["what_it_breaks"].split())
    if len(what) > 150:
        what = what[:150].rsplit(" ", 1)[0] + " ..."
    rows.append(f"| {i} | {f'{m[1]} {m[2]}' if m else 'missed'} | {what.replace('|', '/')} |")
p = f"{V}/DESIGN.md"
s = open(p).read()
head = "## Planted bugs and the checks that catch them\n"
if head in s:
    s = s[: s.index(head)] + re.sub(r"^.*?(?=^## |\Z)", "", s[s.index(head) + len(head):], flags=re.S | re.M)
    s = s.rstrip() + "\n\n"
else:
    s = s.rstrip() + "\n\n"
s += head + "\nQuick tier, seed 1: the sub-check of the property that reports each change under seeded/.\n\n| change | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n"
open(p, "w").write(s)
