"""Rewrites the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json."""
import json, os, re, glob
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | what it breaks | needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(here + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m.get("caught_by", m["property"]), m["what_it_breaks"].replace("|", "/"), m["needs"].replace("|", "/")))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
