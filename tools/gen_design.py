#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, then one section per property (statement, bounds and oracle taken from
properties.jsonl and the PROPERTY lines of the harness), the seeded changes, and the findings."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f, encoding="utf-8").read() for f in sorted(glob.glob(here + "/harness/props_*.cpp")))
PROP = {m[1]: (m[2], m[3]) for m in re.finditer(r'^PROPERTY\((\w+), "((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)"\)', src, re.M)}
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NOTE = {}
for m in re.finditer(r"^## (C\d+)\n(.*?)(?=^## |\Z)", open(here + "/tools/design_notes.md", encoding="utf-8").read(), re.M | re.S):
    NOTE[m[1]] = m[2].strip()
seeds = []
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    seeds.append((os.path.basename(os.path.dirname(f)), json.load(open(f))))
caught = {}
for l in open(here + "/tools/seeded_results.txt"):
    if l.strip() and l[0] != "#":
        k, _, v = l.strip().partition(" "); caught[k] = v
out = [open(here + "/tools/design_head.md", encoding="utf-8").read().rstrip() + "\n"]
out.append("\n## Per property\n\nFor each: what is enumerated (every element is executed on the real code), the oracle, and why the existing tests cannot settle it.\n")
for p in props:
    i = p["id"]
    out.append("\n### %s %s\n\n" % (i, p["title"]))
    b = [PROP[i]] + ([PROP[i + "S"]] if i + "S" in PROP else [])
    out.append("*Enumerated:* " + " *Second pass:* ".join(x[0] for x in b).replace('\\"', '"') + ".\n\n*Oracle:* " + b[0][1].replace('\\"', '"') + ".\n")
    if i in NOTE: out.append("\n" + NOTE[i] + "\n")
out.append("\n## Planted bugs (seeded/) and the checks that catch them\n\nEach was written from the property text and the code. 'first miss' marks those the check of that time did not catch; what was added then is named.\n\n| change | needs | caught by (quick tier) |\n|---|---|---|\n")
for n, m in seeds:
    out.append("| %s | %s | %s |\n" % (n, m["needs"].replace("|", "/"), caught.get(n, "not run yet")))
out.append("\n## Repaired defects\n\nAll are `fix:` commits in /repo, listed with their property in known-findings.txt. No finding is open.\n\n")
for l in open(here + "/known-findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m: out.append("- %s, %s: %s\n" % (m[1], m[2], m[3]))
open(here + "/DESIGN.md", "w", encoding="utf-8").write("".join(out))
