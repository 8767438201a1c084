"""Writes /verif/MANIFEST.json: a property is claimed when harness/checks/<id>.py exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = {
    "C01": "PublisherLog", "C02": "DataSetReach", "C03": "DataDesign", "C04": "Overlap",
    "C05": "Synthetic", "C06": "ReachHistogram", "C07": "PrivacyLog", "C08": "BudgetLedger",
    "C09": "VennDiagram", "C10": "SimulatedReach", "C11": "ReachCurve", "C12": "QuantileSearch",
    "C13": "ReachSurface", "C14": "FrequencyDistribution", "C15": "ResultTable", "C16": "Experiment",
    "C17": "Reproducible", "C18": "TrialFailure", "C19": "TestPoints", "C20": "Metrics",
    "C21": "TrialIdentity", "C22": "FileSystem", "C23": "NoiseSource", "C24": "ShippedDesigns",
}
NOTES = {}
exec(open(os.path.join(ROOT, "tools", "level_notes.py")).read())
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "harness", "checks", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick ./run.sh " + i,
            "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification %s.tla checked with TLC; its behaviours are replayed into the real code and "
                         "the recorded traces are validated by TLC against the specification" % SPECS[i],
            "level": "model_checking",
            "level_note": NOTES.get(i, "Exhaustive within the specification's small bounds; seeded larger inputs beyond them. "
                          "Trusts TLC, the drivers' encoding and, where named, the stand-ins in shims/."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+ with TLC for every property; see DESIGN.md. No hooks in /repo are needed: the drivers use its public API.",
}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
