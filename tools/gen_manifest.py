#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the list of checks the harness knows."""
import json, subprocess, pathlib
root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (root / "properties.jsonl").read_text().splitlines() if l.strip()]
ids = subprocess.run([root / "harness/target/debug/hv", "ids"], capture_output=True, text=True).stdout.split()
MODEL = "property-based testing: random annotated items expanded by the real macro inside rustc, compared with a reference model, shrunk"
TECH = {
    "C01": "differential property-based testing: random programs compiled and run with and without the attribute, traces compared",
    "C07": "metamorphic property-based testing: erase the hooks from the real expansion and compare with the source (generated and real-world code)",
    "C14": "metamorphic property-based testing: the expansion must equal the source without the tool's attributes",
    "C15": "generated malformed and valid attributes, methods and configuration files with an accept/reject oracle",
    "C16": "metamorphic property-based testing: repeated expansion in several processes, tokens and diagnostics compared",
    "C17": "property-based testing of the printer at run time against a layout model of the generated source",
    "C18": "property-based testing of the printer at run time against a layout model of the generated source",
    "C19": "property-based testing of string truncation at run time against a character-level model",
    "C20": "property-based testing of the printer at run time against a layout model of the generated source",
    "C22": "property-based testing: random trait lists and flavors, the whole expansion compared with the expected import list",
    "C23": "metamorphic property-based testing: neighbours added, removed, changed, reordered",
    "C24": "property-based testing of compiled programs: generated error paths, reports compared with the expected ones",
    "C25": "property-based testing of compiled programs: generated variables and lookups compared with the expected values",
}
NOTE = ("Exploration: no failure among the generated cases, deterministic in VERIF_SEED. It trusts rustc 1.88.0, syn and the oracle in "
        "harness/src (see DESIGN.md, section on the property); it does not establish absence outside the generated grammar.")
checks = []
for p in props:
    if p["id"] in ids:
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} quick",
            "thorough_cmd": f"./check.sh {p['id']} thorough",
            "technique": TECH.get(p["id"], MODEL),
            "level": "exploration",
            "level_note": NOTE,
        })
na = [{"property": p["id"], "reason": "the check for this property is not built yet"} for p in props if p["id"] not in ids]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public macro inside rustc. replays/ holds the replay files (hv replay FILE)."}
(root / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
