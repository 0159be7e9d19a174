"""Writes MANIFEST.json and properties.jsonl from the entries in registry/."""

import glob
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    props, checks = [], []
    for p in sorted(glob.glob(os.path.join(VERIF, "registry", "*.json"))):
        with open(p) as f:
            e = json.load(f)
        pid = e["id"]
        props.append({k: e[k] for k in
                      ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")})
        if not glob.glob(os.path.join(VERIF, "checks", pid.lower() + "_*.py")):
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 run.py {pid}",
            "thorough_cmd": f"python3 run.py {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": "property-based testing (Hypothesis): " + e["technique"],
            "level": "exploration",
            "level_note": e["level_note"],
        })
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p) + "\n")
    claimed = {c["property"] for c in checks}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump({
            "version": 1,
            "setup_cmd": "python3 run.py --setup",
            "checks": checks,
            "not_applicable": [
                {"property": p["id"], "reason": "its check is not built yet"}
                for p in props if p["id"] not in claimed
            ],
            "notes": "Every check runs the real Python, the real binding sources and the real C++ of "
            "/repo's working tree; the empty pybind11 submodule is replaced by shim/ (see DESIGN.md).",
        }, f, indent=1)
        f.write("\n")
    print(len(props), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
