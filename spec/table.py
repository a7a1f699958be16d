"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s |" % (n, m["what_it_breaks"], m["property"]))
s = open(V + "/DESIGN.md").read()
i = s.index("| s01")
j = re.compile(r"(?m)^(?!\| s\d)").search(s, i).start()
open(V + "/DESIGN.md", "w").write(s[:i] + "\n".join(rows) + "\n" + s[j:])
