"""rewrites the table of planted changes in DESIGN.md (between the two markers) from seeded/*/meta.json"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = ["| planted change | property | what it breaks | what it needs |", "|---|---|---|---|"]
for d in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{d}/meta.json")); f = lambda s: re.sub(r"\s+", " ", s).replace("|", "/")
    L.append(f"| {d} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} |")
p = R + "/DESIGN.md"; s = open(p).read(); a, b = "<!-- planted -->\n", "<!-- /planted -->\n"
s = s[:s.index(a) + len(a)] + "\n".join(L) + "\n" + s[s.index(b):]; open(p, "w").write(s); print(len(L) - 2, "planted changes")
