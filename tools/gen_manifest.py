"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
PROPS = [json.loads(line) for line in (ROOT / "properties.jsonl").read_text().splitlines()]
PYTHON = "/opt/venv/bin/python -B run.py"
TECHNIQUE = {
    "default": "property-based testing (Hypothesis) against an independent reference model",
    "stateful": "stateful model-based property testing (Hypothesis op histories) against a model",
    "schedule": "property-based testing over generated schedules of virtual processes",
    "process": "property-based testing over generated programs run in real process trees",
}
KIND = {
    "C01": "stateful", "C02": "stateful", "C03": "stateful", "C04": "stateful",
    "C05": "schedule", "C06": "stateful", "C07": "stateful", "C08": "stateful",
    "C09": "stateful", "C10": "process", "C12": "stateful", "C13": "stateful",
    "C14": "stateful", "C15": "stateful", "C16": "stateful", "C18": "stateful",
    "C27": "stateful", "C42": "process", "C44": "stateful",
}
NOTES = {}
checks, missing = [], []
for prop in PROPS:
    pid = prop["id"]
    if not (ROOT / "pbt" / "props" / f"{pid.lower()}.py").exists():
        missing.append({"property": pid, "reason": "its check is not built yet"})
        continue
    checks.append(
        {
            "property": pid,
            "quick_cmd": f"{PYTHON} {pid}",
            "thorough_cmd": f"{PYTHON} {pid} --tier thorough",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECHNIQUE[KIND.get(pid, "default")],
            "level": "exploration",
            "level_note": NOTES.get(
                pid,
                "seeded random search with shrinking over the generated domain described in "
                "DESIGN.md; no exhaustive bound",
            ),
        }
    )
manifest = {
    "version": 1,
    "setup_cmd": f"{PYTHON} --selfcheck",
    "checks": checks,
    "not_applicable": missing,
}
(ROOT / "MANIFEST.json").write_text(json.dumps(manifest, indent=1) + "\n")
print(len(checks), "checks;", len(missing), "not claimed")
