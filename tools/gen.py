#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tools/spec.py and sa/rules"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
from spec import PROPS          # noqa
from sa.rules import RULES      # noqa

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
        }) + "\n")
# decided for every instance of the property, unless listed: those are decided for structures up to the bounds in their text
LEVEL = {"M03": "other", "M04": "other"}
checks, na = [], []
for p in PROPS:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    if p["id"] not in RULES:
        na.append({"property": p["id"], "reason": "not decided yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 -m sa.run %s --tier quick" % p["id"],
        "thorough_cmd": "python3 -m sa.run %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": RULES[p["id"]][1],
        "level": LEVEL.get(p["id"], "proof"),
        "level_note": p["note"],
    })
man = {
    "version": 1,
    "setup_cmd": "python3 -m sa.selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Static analysis of the LLVM IR of /repo's current sources by an abstract interpreter (sa/). "
             "Nothing of passgen is executed. Obligations that the analysis cannot decide are reported as "
             "UNDECIDED and never raise an alarm.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print("%d properties, %d claimed, %d not applicable" % (len(PROPS), len(checks), len(na)))


# ------------------------------------------------------------------ DESIGN.md
def wrap(t, indent=""):
    import textwrap
    return "\n".join(textwrap.wrap(t, 140, initial_indent=indent, subsequent_indent=indent, break_on_hyphens=False))


props, nas = [], []
for p in PROPS:
    if p["na"]:
        nas.append("**%s. %s.** %s\n\n%s" % (p["id"], p["title"], wrap(p["statement"]), wrap("Not applicable: " + p["na"])))
        continue
    props.append("### %s: %s\n\n%s\n\n%s\n%s\n%s" % (
        p["id"], p["title"], wrap(p["statement"]), wrap("* Bounds: " + p["text"] + "."),
        wrap("* How: " + p["note"]), wrap("* Beyond tests: " + p["why"]) + "\n" + wrap("* Anchored: " + "; ".join(
            "%s (%s)" % (a, b) for a, b in p["mech"]) + ".")))
import glob, re        # noqa
rows = ["| change | caught by | manifests with | breaks |", "|---|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))
mut = ["| list | mutants | checks |", "|---|---|---|"]
for f in sorted(glob.glob(os.path.join(HERE, "tools", "mutants", "*.py"))):
    ns = {}
    exec(open(f).read(), ns)
    mut.append("| %s | %d | %s |" % (os.path.basename(f), len(ns["MUTS"]), ", ".join(sorted({c for m in ns["MUTS"] for c in m[0].split(",")}))))
known = json.load(open(os.path.join(HERE, "known_findings.json")))
fixed = []
for x in known["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    fixed.append("* %s (`%s`): %s" % m.groups())
files = {}
t = open(os.path.join(HERE, "tools", "design.md.in")).read()
for k, v in (("PROPERTIES", "\n\n".join(props)), ("NA", "\n\n".join(nas)), ("SEEDS", "\n".join(rows)), ("MUTANTS", "\n".join(mut)),
             ("FIXED", "\n".join(fixed))):
    t = t.replace("@%s@" % k, v)
t = t.replace("@RULEFILES@\n", "")
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
