"""Writes MANIFEST.json from the table below. Run after adding a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ("runtime monitoring: executions on generated documents, outcome monitored against an independently written "
       "reference model")
NOTE = ("Randomised exploration, reproducible from VERIF_SEED; evidence lists what the monitors saw. Trusts the "
        "reference model in svdmon/ (written from the CMSIS-SVD rules and the documentation, not from the code's "
        "structure).")
T = {
    "C01": ("runtime monitoring: differential oracle over random documents in random spellings", NOTE),
    "C02": ("runtime monitoring: round-trip monitor (serialize, parse) over random models and options", NOTE),
    "C03": ("runtime monitoring: schema and content monitor over serializer output", NOTE),
    "C04": ("runtime monitoring: reprocessing monitor (convert, serialize, parse, process again)", NOTE),
    "C05": (REF + " plus its derivation-free expansion (ablation)", NOTE),
    "C06": ("runtime monitoring: metamorphic monitor over sibling permutations", NOTE),
    "C07": (REF + " plus the manually unrolled document", NOTE),
    "C08": (REF, NOTE), "C09": (REF, NOTE), "C10": (REF, NOTE), "C11": (REF + " and set invariants", NOTE),
    "C12": (REF + " and address invariants", NOTE), "C13": (REF + " over warnings", NOTE),
    "C14": (REF + " as an element census", NOTE),
    "C15": ("runtime monitoring: planted unresolvable derivations under an executed-line budget", NOTE),
    "C16": ("runtime monitoring: fault injection into documents, outcome monitor", NOTE),
    "C17": ("runtime monitoring: snapshots, repetition, concurrent threads and hash-seed replicas compared", NOTE),
    "C18": ("runtime monitoring: map entries checked against the processed tree and across builders", NOTE),
    "C19": ("runtime monitoring: verdicts compared with an independent schema validation", NOTE),
    "C20": ("runtime monitoring: outcomes compared across encodings and entry points", NOTE),
    "C21": ("runtime monitoring: fault injection into writes with file-system and audit-hook monitors", NOTE),
    "C22": ("runtime monitoring: twin runs with and without log, file monitor", NOTE),
    "C23": ("runtime monitoring: recorded warnings checked against the faults planted and the faults the reference finds", NOTE),
}
have = [p for p in T if os.path.exists(os.path.join(HERE, "svdmon", "checks", p.lower() + ".py"))]
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": [{"property": p, "quick_cmd": f"./check {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p}",
                "technique": T[p][0], "level": "exploration", "level_note": T[p][1]} for p in have],
    "not_applicable": [{"property": p, "reason": "check under construction"} for p in T if p not in have],
}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
