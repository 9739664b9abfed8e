"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["Each is caught by the check of its property (quick tier, seed 1; run with the patch applied to a copy).", "",
        "| bug | check | needs |", "|---|---|---|"]
for m in sorted(glob.glob(here + "/seeded/*/meta.json")):
    j = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), j["property"], j["needs"].replace("|", "\\|")))
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(p, "w").write(s)
