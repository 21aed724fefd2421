#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, claimed=True, note="", observe=None, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  note=note, observe=observe, state=state, na=na))

exec(open(__file__.replace("properties.py", "properties_list.py")).read())

with open("/verif/properties.jsonl", "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mech"]]}
        if q["state"]: a["state"] = q["state"]
        if q["observe"]: a["observe_at"] = q["observe"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                            "quantifier": {"over": q["over"], "text": q["qtext"]}, "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks extract functions from /repo's source and use public interfaces", "source_commits": []},
     "checks": [], "not_applicable": [],
     "notes": "Every check extracts the functions under contract from /repo's working tree, discharges their obligations with Verus, probes for vacuity, and runs the executable form of the contracts (bounded, for failing inputs)."}
for q in P:
    if q["na"]:
        m["not_applicable"].append({"property": q["id"], "reason": q["na"]})
    else:
        m["checks"].append({"property": q["id"], "quick_cmd": f"python3 check.py {q['id']} --tier quick", "thorough_cmd": f"python3 check.py {q['id']} --tier thorough",
            "evidence_file": f"evidence/{q['id']}.json",
            "technique": "contract-based deductive verification (Verus) of functions extracted from /repo on every run; bounded executable contracts supply failing inputs",
            "level": "proof", "level_note": q["note"]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
