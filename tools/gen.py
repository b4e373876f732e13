#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from analyzer/texts.py and the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "analyzer"))
import texts, checks


def line(id, t):
    assert len(t["title"]) <= 80, (id, len(t["title"]))
    return {"id": id, "title": t["title"], "statement": t["statement"], "quantifier": {"over": t["over"], "text": t["qtext"]},
            "why_tests_cant": t["why"], "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]]}}


with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id, t in sorted({**texts.P, **texts.NA}.items()):
        f.write(json.dumps(line(id, t), ensure_ascii=False) + "\n")
cs = []
na = [{"property": i, "reason": t["reason"]} for i, t in sorted(texts.NA.items())]
for id, t in sorted(texts.P.items()):
    if id in checks.REG:
        cs.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                   "technique": "static analysis: " + t["technique"], "level": "other",
                   "level_note": t["explanation"] + " Assumes: " + "; ".join(t["assume"]) + "."})
    else:
        na.append({"property": id, "reason": "the rule is not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": cs, "not_applicable": na,
     "notes": "All checks decide from the resolved program (rustc MIR) of /repo's working tree, rebuilt on every run (cached by a hash of all sources); nothing of /repo is executed. Known findings: known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")

# ---- DESIGN.md ----------------------------------------------------------------------------------
D = os.path.join(HERE, "tools", "design")
part = lambda n: open(os.path.join(D, n)).read()
out = [part("1_approach.md"), "## 2. How each property is decided\n"]
for id, t in sorted(texts.P.items()):
    out.append("### %s %s\n\n%s\n\n* **Over**: %s.\n* **Decided by** (%s): %s\n* **Rule / oracle**: %s.\n* **Why tests cannot**: %s\n* **Anchored in**: %s.\n" % (
        id, t["title"], t["statement"], t["qtext"], t["technique"], t["explanation"].replace(texts.SIM, "*every path is explored as section 1 describes*"), t["rule"], t["why"],
        "; ".join("%s (`%s`)" % x for x in t["mech"])) + ("* %s\n" % t["design"] if t.get("design") else ""))
out.append("## 3. Not applicable\n")
for id, t in sorted(texts.NA.items()):
    out.append("* **%s %s.** %s" % (id, t["title"], t["reason"]))
out.append("")
fixed = []
for l in open(os.path.join(HERE, "known_findings.txt")):
    if l.startswith("fixed:"):
        _, p, c, what = l.strip().split(" ", 3)
        fixed.append("| %s | `%s` | %s |" % (p.split("=")[1], c, what))
out.append(part("3_findings.md").replace("@FIXED@", "\n".join(fixed)).replace("@FALSE@\n", ""))
rows = []
S = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(S)):
    j = json.load(open(os.path.join(S, d, "meta.json")))
    rows.append("| `%s` | %s | %s | %s |" % (d, j["property"], j["needs"].replace("|", "/"), j["property"]))
missed = open(os.path.join(D, "missed.md")).read().strip()
out.append(part("4_testing.md").replace("@SEEDS@", "\n".join(rows)).replace("@MISSED@", missed))
with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
    f.write("\n".join(out))
