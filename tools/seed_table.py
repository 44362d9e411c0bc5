"""prints the planted-bug table of DESIGN.md from seeded/*/meta.json"""
import json, os
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
print("| planted bug | check | what it breaks | needs |\n|---|---|---|---|")
for n in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, n, "meta.json")))
    print("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
