#!/usr/bin/env python3
"""Write MANIFEST.json from the registry."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import registry  # noqa: E402

NOTE = ("Every rule is decided for all abstract inputs named in DESIGN.md by dataflow over MIR; nothing is executed. "
        "Trusts rustc's MIR and the analyser's transfer functions; assumes allocation succeeds and a 64-bit little-endian target.")
props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "bash tools/setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks are needed", "source_commits": []},
    "checks": [
        {
            "property": p,
            "quick_cmd": "python3 tools/check.py " + p,
            "technique": getattr(registry, "TECH", {}).get(p, "abstract interpretation of MIR (value, bit-provenance and memory domains)"),
            "level": "other",
            "level_note": getattr(registry, "NOTES", {}).get(p, NOTE),
        }
        for p in props if p in registry.CHECKS
    ],
    "not_applicable": [
        {"property": p, "reason": getattr(registry, "NA", {}).get(p, "Check not built yet.")}
        for p in props if p not in registry.CHECKS
    ],
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
