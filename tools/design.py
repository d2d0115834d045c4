"""Rewrites the generated part of DESIGN.md (properties, planted bugs) from MANIFEST.json, properties.jsonl and seeded/."""
import glob, json, os, re
props = {}
for l in open("/verif/properties.jsonl"):
    p = json.loads(l)
    props[p["id"]] = p
out = ["<!-- generated by tools/design.py -->", "", "### Planted bugs (`seeded/`), each confirmed in a scratch copy; last result of `tools/runseeds.py`", "",
       "| bug | property | breaks | needs | quick check |", "|---|---|---|---|---|"]
res = json.load(open("/verif/tools/seed_results.json")) if os.path.exists("/verif/tools/seed_results.json") else {}
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = f.split("/")[-2]
    m = json.load(open(f))
    out.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "\\|"), m["needs"].replace("|", "\\|"), res.get(i, "?")))
out += ["", "### Behaviour-preserving edits (`tools/refactors/`), last result of `tools/refactor.py`", "", "| edit | what | checks: result |", "|---|---|---|"]
res = json.load(open("/verif/tools/refactor_results.json"))
for f in sorted(glob.glob("/verif/tools/refactors/*.py")):
    i = os.path.basename(f)[:-3]
    what = open(f).read().split('"""')[1].split("\n")[0]
    r = []
    for c, (rc, line) in sorted(res.get(i, {}).items()):
        n = re.search(r"(\d+) undecided", line)
        r.append("%s %s" % (c, "ALARM" if rc else "proved" if n and n.group(1) == "0" else "quiet, %s undecided" % (n.group(1) if n else "some")))
    out.append("| %s | %s | %s |" % (i, what.replace("|", "\\|"), ", ".join(r) or "?"))
s = open("/verif/DESIGN.md").read()
a = s.index("<!-- generated by")
open("/verif/DESIGN.md", "w").write(s[:a] + "\n".join(out) + "\n")
