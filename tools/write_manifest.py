"""Writes /verif/MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
NOTE = (
    "Randomised and hostile workloads drive the real code through its public interface; an independent float64 monitor judges "
    "every execution. No claim beyond the executions observed, which the evidence file counts."
)
NOT_APPLICABLE = {}
checks, missing = [], []
for line in (ROOT / "properties.jsonl").read_text().splitlines():
    p = json.loads(line)
    if (ROOT / "checks" / f"{p['id'].lower()}.py").exists():
        checks.append(dict(
            property=p["id"], quick_cmd=f"checks/run {p['id']}", thorough_cmd=f"VERIF_TIER=thorough checks/run {p['id']}",
            technique="runtime monitoring with an independent reference oracle", level="exploration", level_note=NOTE))
    else:
        missing.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check has been built for this property yet")))
(ROOT / "MANIFEST.json").write_text(json.dumps(dict(
    version=1, setup_cmd="true",
    hooks=dict(guard="ARTIST_VERIF", enable="no hooks were needed: the checks observe the public interface", source_commits=[]),
    checks=checks, not_applicable=missing), indent=1) + "\n")
print(len(checks), "checks;", len(missing), "not claimed")
