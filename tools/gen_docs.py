#!/usr/bin/env python3
"""Writes ../properties.jsonl and ../MANIFEST.json from props.py (the one place they are edited)."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(__file__))
from props import PROPS, NA, HOOK_COMMITS, NOTES
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS + NA:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["quant"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
        if p.get("hook"):
            d["anchors"]["hook_needed"] = p["hook"]
        f.write(json.dumps(d) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash mc/run.sh --setup",
    "hooks": {"guard": "cfg(mc_hooks), cfg(mc_small_tasks)", "enable": "RUSTFLAGS='--cfg mc_hooks' (set by mc/run.py for its own builds in /verif/build; P25 adds --cfg mc_small_tasks)",
              "source_commits": HOOK_COMMITS},
    "checks": [{"property": p["id"], "quick_cmd": f"bash mc/run.sh {p['id']} quick",
                "thorough_cmd": f"bash mc/run.sh {p['id']} thorough",
                "technique": p["tech"], "level": "model_checking", "level_note": p["note"]} for p in PROPS],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA],
    "notes": NOTES,
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
