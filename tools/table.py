# Refreshes the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import glob, json, os, re
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
rows = []
for f in glob.glob("seeded/*/meta.json"):
    m = json.load(open(f))
    rows.append((m["property"], f.split("/")[1], m["needs"], m.get("caught", "yes")))
t = "\n".join("| %s | %s | %s | %s |" % (n, p, needs.replace("|", "/"), "check of " + p if c == "yes" else c) for p, n, needs, c in sorted(rows))
s = open("DESIGN.md").read()
s = re.sub(r"(<!-- seeded -->\n).*?(\n<!-- end -->)", lambda m: m.group(1) + "| planted bug | property | needs | caught by |\n|---|---|---|---|\n" + t + m.group(2), s, flags=re.S)
open("DESIGN.md", "w").write(s)
