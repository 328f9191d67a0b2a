"""Development helper: python3 tools/revert.py — reverts each fix of /repo in a copy and shows whether its property's check reports it."""
import json, os, shutil, subprocess, sys, time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
props = {json.loads(x)["id"] for x in (V / "properties.jsonl").read_text().splitlines()}
for f in json.loads((V / "known-findings.json").read_text())["findings"]:
    if f["status"] != "fixed" or (len(sys.argv) > 1 and f["property"] not in sys.argv[1].split(",") and f["commit"] not in sys.argv[1]):
        continue
    if f["property"] not in props:
        print(f["commit"], f["property"], "no check yet", f["what"])
        continue
    wt = Path(f"/tmp/revert_{f['commit']}")
    shutil.rmtree(wt, ignore_errors=True)
    try:
        subprocess.run(["cp", "-a", "/repo", wt], check=True)
        r = subprocess.run(["git", "revert", "--no-commit", f["commit"]], cwd=wt, capture_output=True, text=True)
        if r.returncode:
            print(f["commit"], f["property"], "does not revert", f["what"], flush=True)
            continue
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", f["property"]], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=str(wt), VERIF_SEED="1", VERIF_TIER="quick"))
        print(f["commit"], f["property"], f"rc={r.returncode} {time.time() - t:.0f}s", f["what"], [x[:200] for x in r.stdout.splitlines()][:1] if r.returncode == 1 else "", flush=True)
    finally:
        shutil.rmtree(wt, ignore_errors=True)
