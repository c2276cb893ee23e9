#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = getattr(meta, "NA", [])
with open(V + "/properties.jsonl", "w") as f:
    for p in meta.P + [q for q in NA if "statement" in q]:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]], hook_needed=None))
        if p.get("state"):
            d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]]
        f.write(json.dumps(d) + "\n")
checks = []
for p in meta.P:
    if not os.path.exists("%s/fvc/props/%s.py" % (V, p["id"].lower())):
        continue
    checks.append(dict(property=p["id"], quick_cmd="python3-vt /verif/check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt /verif/check.py %s --tier thorough" % p["id"],
                       technique=p["technique"] or meta.T1, level=p["level"], level_note=p["note"] or "see DESIGN.md", evidence_file="evidence/%s.json" % p["id"]))
m = dict(version=1, setup_cmd="python3-vt /verif/check.py --setup", checks=checks,
         not_applicable=[dict(property=q["id"], reason=q["reason"]) for q in NA],
         hooks=dict(guard="none", enable="no hooks are needed: the checks read the sources as they are"),
         notes="see DESIGN.md")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(meta.P), "properties", len(checks), "checks")

import how, glob
head = open(V + "/tools/design_head.md").read()
kf = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip()]
head = head.replace("@FIXED@", "\n" + "\n".join("- " + (k["line"] if k["status"] == "fixed" else "KNOWN-FINDING (open) %s: %s" % (k["property"], k["what"])) for k in kf) + "\n")
out = [head]
seeds = {}
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(f)); seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
try: caught = json.load(open(V + "/tools/caught.json"))
except Exception: caught = {}
for p in meta.P:
    h = how.HOW.get(p["id"], ("", ""))
    out.append("### %s %s (%s)\n\n%s\n" % (p["id"], p["title"], p["level"], p["statement"]))
    out.append("- Quantifier: %s" % p["text"])
    out.append("- How: %s" % h[0])
    out.append("- Assumed or bounded: %s" % h[1])
    out.append("- Why tests cannot: %s" % p["why"])
    for n, d in seeds.get(p["id"], []):
        out.append("- Planted bug `%s` (%s; needs %s): %s" % (n, d["what_it_breaks"], d["needs"], caught.get(n, "caught")))
    out.append("")
out.append("## Not applicable\n")
out += ["- %s: %s" % (q["id"], q["reason"]) for q in NA] or ["(none)"]
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
