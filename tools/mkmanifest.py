#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below (run by hand, output committed)."""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, "tools", "levels.json")))


def main():
    checks = []
    for l in open(os.path.join(HERE, "properties.jsonl")):
        p = json.loads(l)
        pid = p["id"]
        if pid not in NOTES or not os.path.exists(os.path.join(HERE, "conc", pid + ".py")):
            continue
        level, note = NOTES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": "python3-vt check.py %s" % pid,
            "thorough_cmd": "python3-vt check.py %s --tier thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": "contract-based deductive verification of the current source" if level in ("proof", "other")
                         else "run-time contract checking (bounded stand-in)",
            "level": level, "level_note": note})
    m = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py", "checks": checks,
         "hooks": {"guard": "none", "enable": "no hooks: the checks read and import /repo as it is", "source_commits": []},
         "not_applicable": [],
         "notes": "Level 'proof': every generated obligation of the property's contract units is discharged; 'other': part of the "
                  "functions the property depends on is discharged and the rest is checked by a bounded stand-in; 'exploration': "
                  "bounded stand-in only. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
