"""Regenerates known-findings.json from the fix commits of /repo (development helper)."""
import json
import subprocess
from pathlib import Path

PROP = {  # subject fragment -> property
    "lost its first claim race": "P01", "claimed by another worker": "P01", "half-created trials": "P05",
    "crash while updating the run directory": "P02", "starting workers concurrently": "P10",
    "interrupted evaluation made": "P18", "invalid evaluation result ended": "P08",
    "status never reported": "P20", "summary csv failed": "P20", "overwrite the summary csv": "P21", "outdated summary csv made": "P21",
    "multi-fidelity searchers could not handle failed": "P16", "bayesian optimization failed if there was no": "P16",
    "on-error values did not suppress": "P22", "fidelity of None": "P17", "grid of a search space": "P19",
    "grid search without a seed": "P19", "0-d arrays": "P13", "once their model was fitted": "P16", "infinite losses": "P16",
    "more than 20 categorical": "P17", "miss the lowest fidelity": "P15", "early stopping rate": "P15", "whole rung was pending": "P15",
    "rounding errors led": "P17", "density of a prior": "P17", "initial design only covered": "P17", "priors were applied to the wrong": "P17",
    "prior of a categorical": "P17", "influence of the prior": "P17", "cost-aware bayesian": "P16", "PriorBand failed with integers": "P17", "huge losses": "P16",
    "get_initial_directory returned": "P18", "changing the working directory": "P18",
    "searcher class could not be used": "P22", "arguments of a searcher in a YAML": "P22",
    "neps info-config failed": "P23", "neps results failed": "P23", "learning curve as an array": "P12", "learning curve was removed": "P12", "scientific notation with a plus": "P24",
    "log scale were merged": "P25", "cast to its logarithms": "P25", "whole numbers were cut off": "P25", "whole numbers lost precision": "P25", "ifBO": "P26",
    "lost the confidence": "P27", "loaded integers": "P27", "defaults of integers": "P27", "choices were kept": "P27", "simple mutation": "P27",
    "mutated from a parent": "P27", "categoricals kept their default": "P27", "with and without a value": "P27", "overwritten constants": "P27",
    "constants of different values": "P27",
    "only the first column counted": "P28", "low confidence in the default": "P28", "confidence of a searcher": "P28",
    "model of PriorBand ignored": "P29", "with priors and costs failed": "P29", "if a cost was zero": "P29",
    "neps.plot": "P30", "tblogger": "P30",
}
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
out = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix:"):
        continue
    p = next((v for k, v in PROP.items() if k in s), "?")
    out.append({"status": "fixed", "property": p, "commit": h, "what": s[5:],
                "line": f"fixed: property={p} {h} {s[5:]}"})
f = Path(__file__).resolve().parent.parent / "known-findings.json"
old = json.loads(f.read_text())["findings"] if f.exists() else []
f.write_text(json.dumps({"findings": [x for x in old if x["status"] == "known"] + out}, indent=1) + "\n")
