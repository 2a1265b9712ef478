"""writes MANIFEST.json; run after changing CLAIMED"""
import json
CLAIMED = json.load(open("/verif/claimed.json"))
IDS = ["C%02d" % i for i in range(1, 16)]
NOTE = CLAIMED["notes"]
checks = []
for p in IDS:
    if p in CLAIMED["claimed"]:
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "technique": CLAIMED["technique"].get(p, CLAIMED["technique"]["default"]), "level": "proof", "level_note": NOTE.get(p, NOTE["default"])})
json.dump({"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks,
           "not_applicable": [{"property": p, "reason": CLAIMED["na"].get(p, "machinery for this property is not finished yet")} for p in IDS if p not in CLAIMED["claimed"]],
           "hooks": {"guard": "DV_HOOKS", "enable": "no hooks are needed: the checks read /repo's sources as they are"}}, open("/verif/MANIFEST.json", "w"), indent=1)
