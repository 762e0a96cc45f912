#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and jobs.py."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import jobs
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], capture_output=True, text=True).stdout.split()
checks, na = [], []
for p in props:
    i = p["id"]
    if i in jobs.PROPS:
        s = jobs.PROPS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} quick",
            "thorough_cmd": f"python3 run.py {i} thorough",
            "technique": s.get("technique", "runtime monitoring: online reference-model oracle over randomized executions"),
            "level": "exploration",
            "level_note": s.get("note", "Every judged execution of the real code agreed with an independent reference model; "
                                "nothing is claimed for inputs and schedules which weren't executed. Trusts the model in "
                                "/verif/model and its rounding error bounds."),
        })
    else:
        na.append({"property": i, "reason": jobs.NA.get(i, "no check has been built yet")})
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "hooks": {
        "guard": "cfg(basic_dsp_verif)",
        "enable": "RUSTFLAGS=--cfg basic_dsp_verif (set by run.py for each build of the harness)",
        "source_commits": hook,
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "run.py builds the harness crate from /repo's working tree into /verif/build and runs the monitors; see DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
