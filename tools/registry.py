#!/usr/bin/env python3
"""Single source of the property list. Run from anywhere: rewrites properties.jsonl and MANIFEST.json."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, level_note=level_note, hook=hook))
exec(open(os.path.join(V, "tools", "properties.py")).read())

def built():
    src = open(os.path.join(V, "harness/src/props.rs")).read()
    return set(re.findall(r'"(P\d\d)" =>', src))

def main():
    b = built()
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
                "quantifier": {"over": p["over"], "text": " ".join(p["text"].split())},
                "why_tests_cant": " ".join(p["why"].split()),
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": p["hook"]},
            }) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in b:
            checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick",
                           "thorough_cmd": f"./check.sh {p['id']} thorough",
                           "technique": "property-based testing (proptest generators with shrinking) against independent oracles",
                           "level": "exploration", "level_note": " ".join(p["level_note"].split())})
        else:
            na.append({"property": p["id"], "reason": "check not built yet"})
    m = {"version": 1, "setup_cmd": "./check.sh --build-only", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "checks")
main()
