"""Writes properties.jsonl and MANIFEST.json from propdefs.py (claimed = has a check in props.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib.propdefs import P
from vlib.props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
MISSED = {"s05","s23","s33","s46","s49"}   # planted bugs the checks first missed
with open(V + "/properties.jsonl", "w") as f:
    for pid in sorted(P):
        p = P[pid]
        assert len(p["title"]) <= 80, pid
        d = dict(id=pid, title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        f.write(json.dumps(d) + "\n")
checks = []
for pid in sorted(PROPS):
    if pid not in P:
        print("no definition for", pid); continue
    p = P[pid]
    checks.append(dict(property=pid, quick_cmd="python3 check.py %s --tier quick" % pid, thorough_cmd="python3 check.py %s --tier thorough" % pid,
                       technique=p["technique"], level="exploration", level_note=p["note"]))
m = dict(version=1, setup_cmd="python3 -m vlib.setup",
         hooks=dict(guard="CN24_VERIF_HOOKS", enable="no hooks were needed: checks compile /repo's sources unchanged and observe them through public interfaces, sanitizers and wrapped layers", source_commits=[]),
         checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(P), "properties")


# tables of DESIGN.md (from known_findings.jsonl and the planted bugs; no check reads either table)
def table(text, name, rows):
    a, b = "<!-- %s -->" % name, "<!-- /%s -->" % name
    i, j = text.index(a) + len(a), text.index(b)
    return text[:i] + "\n" + "\n".join(rows) + "\n" + text[j:]
d = open(V + "/DESIGN.md").read()
fixed = [json.loads(l) for l in open(V + "/known_findings.jsonl") if l.strip() and not l.startswith("#")]
rows = ["| property | commit | defect repaired |", "|---|---|---|"]
for e in sorted((e for e in fixed if e["kind"] == "fixed"), key=lambda e: e["property"]):
    rows.append("| %s | %s | %s |" % (e["property"], e["commit"], e["entry"].split(e["commit"], 1)[1].strip()))
d = table(d, "fixed", rows)
S = V + "/seeded" if os.path.isdir(V + "/seeded") else "/verif/seeded"
rows = ["| bug | caught by | what it breaks | needs | first missed |", "|---|---|---|---|---|"]
if os.path.isdir(S):
    for k in sorted(os.listdir(S)):
        m = json.load(open(S + "/" + k + "/meta.json"))
        rows.append("| %s | %s | %s | %s | %s |" % (k, m["property"], m["what_it_breaks"], m["needs"], "yes" if k.split("-")[0] in MISSED else ""))
    d = table(d, "seeded", rows)
open(V + "/DESIGN.md", "w").write(d)
