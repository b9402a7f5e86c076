#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: tools/design_head.md, tables from evidence/, tools/caught.txt, tools/design_tail.md."""
import json, os, collections
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
out = [open(V + "/tools/design_head.md").read()]
def num(n):
    return "{:,}".format(n)
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    out.append("### %s %s\n\n" % (i, p["title"]))
    out.append("Decided by: %s.\n\n" % man[i]["technique"])
    try:
        ev = json.load(open("%s/evidence/%s.json" % (V, i)))
    except OSError:
        continue
    out.append("| engine | scenario | explored | executions | depth |\n|---|---|---|---|---|\n")
    seen = set()
    for s in ev["coverage"]["scenarios"]:
        k = (s["engine"], s["scenario"])
        if k in seen:
            continue
        seen.add(k)
        out.append("| %s | %s | %s | %s%s | %d |\n" % (s["engine"], s["scenario"], s["about"].replace("|", "\\|"), num(s["executions"]),
                                                    "" if s["exhaustive"] else " (capped)", s["max_depth"]))
    out.append("\n")
out.append(open(V + "/tools/design_tail.md").read())
rows = [l.rstrip("\n").split("\t") for l in open(V + "/tools/caught.txt")]
out.append("\n| planted change | needs | caught by | first report |\n|---|---|---|---|\n")
for r in rows:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, r[0])))
    out.append("| %s | %s | %s | %s |\n" % (r[0], m["needs"].replace("|", "\\|"), r[1], r[2].replace("|", "\\|")))
open(V + "/DESIGN.md", "w").write("".join(out))
print(len("".join(out)), "bytes")
