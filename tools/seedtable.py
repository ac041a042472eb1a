"""Fill the table of planted bugs in DESIGN.md (between the markers)."""
import glob, json, re
rows = ["| planted bug | property, caught by the check of | what it breaks | needs |", "| --- | --- | --- | --- |"]
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| {} | {} | {} | {} |".format(f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"]))
t = open("/verif/DESIGN.md").read()
new = "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = t.replace("SEEDTABLE", new) if "SEEDTABLE" in t else re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: new, t, flags=re.S)
open("/verif/DESIGN.md", "w").write(t)
