#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the notes below."""
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
HOOKS = ["9d26ffc590884fc0cbac2f81b70ea4373e764ae8"]
MODEL = "runtime monitoring: random and directed histories on the real type, every observation compared with an independent flat model"
ENGINE = "runtime monitoring: hostile multi-client sessions on the real editor, a monitor judging every transition (state snapshot, responses, notifications with their addressees) against an independent model"
CHECKS = {
    "C01": (MODEL, "Held on the histories generated (counts in the evidence); the text, length and sub-ranges are compared after every step with a plain string. Trusts the flat model (std String)."),
    "C02": (MODEL, "As C01, with undo/redo through the guarded accessors; the expected stack of texts is kept by the model."),
    "C03": (MODEL, "As C01; every character of every state is queried both ways, plus coordinates outside the text. Trusts bstr's grapheme segmentation, which defines user-perceived characters."),
    "C17": (MODEL, "diff results are checked to tile both texts and applied to buffers with random histories."),
    "C28": (MODEL, "The map is compared with an association list with recency order after every operation."),
}
NA = {}
exec(open(os.path.join(ROOT, "tools", "manifest_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "manifest_more.py")) else None
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CHECKS:
        technique, note = CHECKS[i][:2]
        checks.append({
            "property": i,
            "quick_cmd": f"./check {i} --tier quick",
            "thorough_cmd": f"./check {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": technique,
            "level": "exploration",
            "level_note": note,
        })
na = [{"property": i, "reason": NA.get(i, "no check registered yet (work in progress)")} for i in ids if i not in CHECKS]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "--cfg ced_verif",
        "enable": "RUSTFLAGS=\"--cfg ced_verif\" cargo build --offline in /verif/harness (path dependencies on /repo), done by ./check",
        "source_commits": HOOKS,
    },
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
