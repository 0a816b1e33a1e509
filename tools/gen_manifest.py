"""Writes MANIFEST.json from the checks present under mc/checks and the property list."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TECH = {
    "hist": "explicit enumeration of operation histories and generator answers on the real code, invariants/reference after every step",
    "law": "exhaustive enumeration of every generator answer with its probability (exact laws) against a reference model",
    "grid": "exhaustive enumeration of a bounded input lattice through the real code against a reference model",
    "diff": "enumeration of operation histories, differential against a fresh object under the same generator answers",
}
KIND = {"W01": "hist", "W02": "hist", "W03": "hist", "W04": "law", "W05": "law", "W06": "law", "W07": "law", "W08": "law", "W09": "hist", "W10": "diff",
        "V01": "grid", "V02": "grid", "V03": "hist", "V04": "grid", "V05": "grid", "V06": "hist",
        "G01": "hist", "G02": "hist", "G03": "law", "G04": "hist", "G05": "grid", "G06": "hist", "G07": "diff", "G08": "diff", "G09": "hist",
        "G10": "diff", "G11": "diff", "G12": "grid", "U01": "grid", "U02": "grid", "U03": "law", "U04": "grid", "U05": "grid"}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mc", "checks", i + ".py")):
        checks.append({"property": i, "quick_cmd": "bash check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + i,
                       "technique": "model checking: " + TECH[KIND[i]], "level": "model_checking",
                       "level_note": "Exhaustive within the bounds stated in DESIGN.md section %s and in the evidence file; executions are of the real code in /repo "
                                     "under a controlled random generator. Trusts the reference programs in /verif/mc, numpy and scipy." % i})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the random generator is controlled through the public rng parameter."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
