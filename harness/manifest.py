"""Regenerate MANIFEST.json from the registry (python3 -m harness.manifest)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    "est": "TLA+ specification of the estimator's state machine (spec/Estimators.tla); TLC validates recorded runs "
           "of the real code against it step by step, plus bounded model checks of the specification itself",
}


def main():
    from harness.registry import CHECKS, TECHNIQUE, NOTE, NOT_APPLICABLE
    ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
    checks = [{
        "property": i, "quick_cmd": f"/opt/venv/bin/python check.py {i} quick",
        "thorough_cmd": f"/opt/venv/bin/python check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json", "technique": TECHNIQUE[i], "level": "model_checking",
        "level_note": NOTE[i]} for i in ids if i in CHECKS]
    na = [{"property": i, "reason": NOT_APPLICABLE.get(i, "the check for this property is still being built")}
          for i in ids if i not in CHECKS]
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python check.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks: every observation goes through the public API, so /repo carries only fix: commits. "
                  "Known and repaired defects are listed in known_findings.txt."}
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
