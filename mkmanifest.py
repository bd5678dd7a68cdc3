"""Writes MANIFEST.json."""
import json
LEVEL = json.load(open("levels.json"))
checks = []
for i in list(range(1, 21)) + [22]:
    p = "C%02d" % i
    l = LEVEL.get(p, {})
    checks.append({"property": p, "quick_cmd": "python3-vt check.py %s" % p, "thorough_cmd": "VERIF_TIER=thorough python3-vt check.py %s" % p,
                   "evidence_file": "evidence/%s.json" % p, "technique": l.get("technique", "contracts evaluated at run time on the real code (bounded)"),
                   "level": l.get("level", "exploration"), "level_note": l.get("note", "bounded run-time contract evaluation against an independent oracle")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
           "not_applicable": [{"property": "C21", "reason": "Alignment needs the genbmm CUDA extension (BandedMatrix), which is not installed and cannot be built offline; the module cannot run here, so neither contracts nor replays can be tied to running code."}],
           "notes": "See DESIGN.md."}, open("MANIFEST.json", "w"), indent=1)
