"""Writes MANIFEST.json (run from /verif: python3 tools/mkmanifest.py)."""
import json
from pathlib import Path

V = Path(__file__).resolve().parent.parent
SESS = ("recorded executions of the real code (driven along TLC-generated histories over generated data sets and "
        "models with exact integer tables) are accepted or rejected by the TLA+ specification %s")
TRUST = ("Trusts TLC, the harness's recording (number encoding, feature names to indices) and the tolerance 2e-7 + 1e-7|v|; "
         "exploration of inputs is bounded and seeded, the specification itself is evaluated exactly.")
T = {
    "C01": ("TLA+ model of the calculator (PDCalc, exhaustive) + TLC trace validation of real calculators (Session)",
            "PDCalc is model checked exhaustively for all histories within its bounds, including failing queries; " + SESS % "Session" + ". " + TRUST),
    "C02": ("TLA+ Session/PDCalc: TLC-generated sharing histories replayed, traces validated", SESS % "Session" + ", which also decides which calculators must be rejected. " + TRUST),
    "C03": ("TLA+ batching contract checked on the model (PDCalc) and on recorded model queries (Session)",
            "The query contract is an invariant of PDCalc (exhaustive within bounds) and is checked on the recorded queries of the real code. " + TRUST),
    "C04": ("TLA+ definition of the H statistic (Explain), TLC trace validation", SESS % "Session/Explain" + ". " + TRUST),
    "C05": ("TLA+ definition of the one-vs-all H statistic (Explain), TLC trace validation", SESS % "Session/Explain" + ". " + TRUST),
    "C06": ("TLA+ definition of Greenwell's measure (Explain), TLC trace validation", SESS % "Session/Explain" + ". " + TRUST),
    "C07": ("TLA+ definition of PD importance (Explain), TLC trace validation", SESS % "Session/Explain" + ". " + TRUST),
    "C08": ("TLA+ definition of the additivity index (Explain), TLC trace validation", SESS % "Session/Explain" + ". " + TRUST),
    "C22": ("TLA+ Session: prediction source as specification state, TLC trace validation", SESS % "Session" + ". " + TRUST),
}
extra = V / "tools" / "claims.json"
if extra.exists():
    for k, v in json.loads(extra.read_text()).items():
        T[k] = (v["technique"], v["note"].replace("$TRUST", TRUST))
props = [json.loads(l)["id"] for l in (V / "properties.jsonl").read_text().splitlines()]
checks, na = [], []
for p in props:
    if p in T:
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p, "technique": T[p][0], "level": "model_checking",
                       "level_note": T[p][1]})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC); harness in harness/; known and fixed defects in known-findings.txt."}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks", len(na), "not claimed")
