"""Rewrites the generated lists of DESIGN.md: repaired defects and planted bugs."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = open(V + "/DESIGN.md").read()
fx = "\n".join("* " + x.replace("fixed: property=", "") for x in json.load(open(V + "/known-findings.json"))["fixed"])
rows = ["| seed | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s | %s |" % (f.split("/")[-2], m["property"], m["what_it_breaks"], m["needs"], m["property"]))
put = lambda t, what, s: re.sub("<!-- %s -->\n.*?<!-- /%s -->" % (what, what), lambda _: "<!-- %s -->\n%s\n<!-- /%s -->" % (what, s, what), t, flags=re.S)
open(V + "/DESIGN.md", "w").write(put(put(d, "fixes", fx), "seeds", "\n".join(rows)))
