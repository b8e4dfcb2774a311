"""Writes the table of planted bugs into DESIGN.md from seeded/*/meta.json (documentation only)."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
try:
    more = json.load(open(V + "/tools/catches.json"))
except OSError:
    more = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d)); i = os.path.basename(os.path.dirname(d))
    c = more.get(i, {})
    rows.append("| %s | %s | %s | %s |" % (i, m["what_it_breaks"], m["needs"],
        c.get("by", m["property"]) + ("; " + c["note"] if c.get("note") else "")))
t = open(V + "/DESIGN.md").read()
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", t, flags=re.S)
open(V + "/DESIGN.md", "w").write(t)
