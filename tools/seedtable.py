"""Rewrites section 5 of DESIGN.md from seeded/*/meta.json."""
import glob, json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for m in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(m))
    rows.append(f"| {os.path.basename(os.path.dirname(m))} | {d['needs']} | {d['property']} |")
head = "## 5. Planted bugs and what catches them\n"
text = head + f"""
{len(rows)} changes are kept in `seeded/`. Each passes the repository's tests and fails its own demonstration;
each was written from the text of its property, then run against the checks. All are reported by the quick check
of their own property (last column). What was strengthened because a planted change or a mutant was missed at first
is listed below the table.

| change | needs, in order to show | caught by |
|---|---|---|
""" + "\n".join(rows) + "\n"
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
tail = ""
mark = "\n### 5.1"
if head in s:
    old = s[s.index(head):]
    tail = old[old.index(mark):] if mark in old else ""
    s = s[: s.index(head)]
open(f, "w").write(s.rstrip() + "\n\n" + text + tail)
