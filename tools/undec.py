"""List undecided units of a property, grouped by reason: tools/undec.py C15"""
import collections
import json
import sys

d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
c = collections.defaultdict(list)
for u in d.get("coverage", {}).get("undecided", d.get("undecided", [])):
    why = str(u.get("why") or u.get("reasons") or u.get("reason") or "") if isinstance(u, dict) else str(u)
    c[why[-170:].strip()].append(u.get("unit", "") if isinstance(u, dict) else "")
for k, x in sorted(c.items(), key=lambda i: -len(i[1]))[:8]:
    print(len(x), "::", k.replace("\n", " | "), "::", x[:2])
