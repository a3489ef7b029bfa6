"""Writes MANIFEST.json from properties.jsonl and the modules in props/."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python -W ignore check.py %s"

TECH = {
    "C01": "property-based testing: generated models and load histories against a reference mechanics model",
    "C02": "property-based testing: recorded results recomputed from recorded displacements",
    "C03": "property-based testing: stiffness against reference tangent and finite differences",
    "C04": "property-based testing: recorded history replayed through a reference return mapping",
    "C05": "property-based testing: balance invariants and differential against fully defined models",
    "C06": "property-based testing: invariant over all recorded increments",
    "C07": "property-based testing: result-list invariants, stop-condition model and evaluation budget",
    "C08": "property-based testing: load-history model and split-step metamorphic relation",
    "C09": "property-based testing: differential against an independent path-continuation",
    "C10": "metamorphic property-based testing: relabelling, reordering, reorientation",
    "C11": "metamorphic property-based testing: symmetry and unit transformations",
    "C12": "differential property-based testing: equivalent definitions of one model",
    "C13": "stateful model-based testing against dictionaries",
    "C14": "stateful testing: interleaved builds, runs and plots of several models",
    "C15": "differential property-based testing over log settings, with injected faults",
    "C16": "property-based testing: drawn line data against recorded results",
    "C17": "property-based testing: drawn artists against recorded results",
    "C18": "property-based testing: written frames and animation against requested increments",
    "C19": "property-based testing: Newton iteration against a reference iteration",
    "C20": "property-based testing: step-width sequence against the documented rules",
    "C22": "property-based testing: path following of generated systems against invariants and the linear solution",
    "C23": "stateful property-based testing: contradictions put into and taken out of generated models",
    "C21": "property-based testing: printed report parsed and compared with model, settings and results",
}
NOTE = (
    "No violation in the generated cases (counts and classes in the evidence file); "
    "says nothing about cases not generated. %s"
)

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "props", i + ".py")):
        checks.append(
            {
                "property": i,
                "quick_cmd": PY % i,
                "thorough_cmd": PY % i + " --thorough",
                "evidence_file": "evidence/%s.json" % i,
                "technique": TECH[i],
                "level": "exploration",
                "level_note": NOTE
                % "Trusts numpy, Hypothesis and the oracle described in DESIGN.md.",
            }
        )
    else:
        na.append({"property": i, "reason": "check not built yet"})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(
        {
            "version": 1,
            "setup_cmd": "/opt/venv/bin/python -W ignore -c \"import vf.shard\"",
            "checks": checks,
            "not_applicable": na,
            "notes": "No hooks: every check drives the public API of the working tree in /repo/src.",
        },
        fh,
        indent=1,
    )
    fh.write("\n")
