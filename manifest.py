#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry and properties.jsonl"""
import json
import os
import subprocess

from lib.registry import NOT_APPLICABLE, NOTES, PROPERTIES

HERE = os.path.dirname(os.path.abspath(__file__))
HOOK_COMMITS = [line.split()[0] for line in subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%H %s", "--grep=^verification hooks"], capture_output=True, text=True).stdout.splitlines()]

properties = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, not_applicable = [], []
for p in properties:
    if p in PROPERTIES:
        spec = PROPERTIES[p]
        tools = " and ".join((["Kani"] if spec.get("kani") else []) + (["Verus"] if spec.get("verus") else []))
        checks.append({
            "property": p,
            "quick_cmd": f"python3 check.py {p} quick",
            "thorough_cmd": f"python3 check.py {p} thorough",
            "technique": f"contracts on the code of /repo, discharged by {tools}",
            "level": "proof",
            "level_note": NOTES[p],
        })
    else:
        not_applicable.append({"property": p, "reason": NOT_APPLICABLE[p]})

manifest = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "hooks": {
        "guard": "cfg barbarosa_verif",
        "enable": "RUSTFLAGS='--cfg barbarosa_verif' (lib/build.py)",
        "source_commits": HOOK_COMMITS,
    },
    "checks": checks,
    "not_applicable": not_applicable,
    "notes": "See DESIGN.md. lib/registry.py says which obligations decide which property; known-findings.txt lists the defects.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
