"""Writes the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ""
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(d)), m["needs"],
                                   m["property"])
head = "| bug | what it needs | caught by |\n|-|-|-|\n"
s = open(V + "/DESIGN.md").read()
a = s.index(head) + len(head)
b = s.index("\n\n", a) + 1
open(V + "/DESIGN.md", "w").write(s[:a] + rows + s[b:])
