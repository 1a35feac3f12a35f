#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  tech=tech, note=note, observe=observe or [], state=state or []))
NA = []
def na(id, title, statement, over, text, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, reason=reason, observe=[], state=[]))

exec(open(os.path.join(HERE, "tools", "prop_list.py")).read())

def line(p):
    return json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["text"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "state": p["state"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"], "hook_needed": None},
    }, ensure_ascii=False)

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + NA:
        f.write(line(p) + "\n")
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cargo feature vp_hooks of crates/licensing", "enable": "harness/lic/Cargo.toml depends on licensing with features = [\"vp_hooks\"]; everything else uses public interfaces only.", "source_commits": ["83f803e937096f42f0f66d0df0c46cc77f4b05d1"]},
    "checks": [{
        "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": "exploration", "level_note": p["note"],
    } for p in P],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": "Every check is generated-input search against an explicit oracle; see DESIGN.md.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
