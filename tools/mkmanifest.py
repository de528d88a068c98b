"""writes MANIFEST.json from spec/claims.py"""
import json, subprocess, sys
sys.path.insert(0, "/verif")
from spec.claims import CLAIMS, NOT_APPLICABLE, NOTES
lg = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"]).decode().splitlines()
HOOKS = dict(guard="cfg(mirv_hooks)", enable="RUSTFLAGS=--cfg mirv_hooks (set by mirv/runner.py for the harness builds only)", source_commits=[l.split()[0] for l in lg if " hook:" in l])
checks = []
for pid, (tech, level, note) in sorted(CLAIMS.items()):
    checks.append(dict(property=pid, quick_cmd="./check %s quick" % pid, thorough_cmd="./check %s thorough" % pid, technique=tech, level=level, level_note=note))
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not yet built")) for i in ids if i not in CLAIMS]
json.dump(dict(version=1, setup_cmd="true", hooks=HOOKS, checks=checks, not_applicable=na, notes=NOTES), open("/verif/MANIFEST.json", "w"), indent=1)
