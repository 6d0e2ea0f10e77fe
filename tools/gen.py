#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from catalog.py and props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog, props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(catalog, "NA", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for c in sorted(catalog.CAT, key=lambda c: c["id"]):
        assert len(c["title"]) <= 80, c["title"]
        for x in c["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": c["id"], "title": c["title"], "statement": c["statement"], "quantifier": {"over": c["over"], "text": c["q"]},
                            "why_tests_cant": c["why"], "anchors": {"files": c["files"], "mechanism": [{"name": a, "where": b} for a, b in c["mech"]]}}) + "\n")
checks = []
for c in sorted(catalog.CAT, key=lambda c: c["id"]):
    if c["id"] in NA:
        continue
    assert c["id"] in props.PROPS, c["id"]
    checks.append({"property": c["id"], "quick_cmd": "python3 tools/check.py " + c["id"], "thorough_cmd": "python3 tools/check.py %s thorough" % c["id"],
                   "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
m = {"version": 1, "setup_cmd": "make -s -C engine -j8", "checks": checks, "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "No hooks in /repo: the specifications use the public interface only. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
for p in props.PROPS:
    assert any(c["id"] == p for c in catalog.CAT), p
# the tables at the end of DESIGN.md
dp = os.path.join(V, "DESIGN.md")
d = open(dp).read()
i = d.index("<!-- generated by tools/gen.py: properties -->")
rows = ["<!-- generated by tools/gen.py: properties -->"]
for c in sorted(catalog.CAT, key=lambda c: c["id"]):
    note = c["note"].replace(catalog.NOSOLVE, "").strip()
    tech = c["technique"].replace("static analysis: trace-partitioned abstract interpretation of the LLVM IR", "abstract interpretation")
    if c["id"] in NA:
        rows.append("* **%s %s**: not applicable: %s" % (c["id"], c["title"], NA[c["id"]]))
        continue
    mods = ", ".join(sorted({"`specs/%s`" % m["spec"] for m in props.PROPS[c["id"]].get("modules", [])} | {"`tools/rules.py:%s`" % r.__name__ for r in props.PROPS[c["id"]].get("rules", [])}))
    rows.append("* **%s %s** (%s). Decided by %s. Bounds: %s Beyond the tests: %s" % (c["id"], c["title"], mods, tech, note, c["why"]))
rows.append("")
rows.append("## Planted bugs and what catches them")
sd = os.path.join(V, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    mj = json.load(open(os.path.join(sd, b, "meta.json")))
    rows.append("* `%s` (%s): %s Needs: %s Caught by: %s." % (b, mj["property"], mj["what_it_breaks"].rstrip(".") + ".", mj["needs"].rstrip(".") + ".", mj.get("caught_by", mj["property"])))
open(dp, "w").write(d[:i] + "\n".join(rows) + "\n")
