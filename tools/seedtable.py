#!/usr/local/bin/python3
"""Rewrites DESIGN.md's line of planted bugs by property from seeded/*/meta.json."""
import json, os, re, collections
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for i in sorted(os.listdir(ROOT + "/seeded")):
    t[json.load(open("%s/seeded/%s/meta.json" % (ROOT, i)))["property"]].append(i)
line = "; ".join("%s: %s" % (p, ", ".join(t[p])) for p in sorted(t)) + "."
d = open(ROOT + "/DESIGN.md").read()
n, k = re.subn(r"(?m)^C\d\d: [a-z0-9-]+(, [a-z0-9-]+)*; C.*\.$", lambda m: line, d)
assert k == 1, k
open(ROOT + "/DESIGN.md", "w").write(n)
print(sum(map(len, t.values())), "bugs,", len(t), "properties; without one:", [p for p in ("C%02d" % i for i in range(1, 50)) if p not in t])
