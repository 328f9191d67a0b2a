"""Development helper: python3 tools/bug.py ID [--notest] [--checks P01,P02]
Confirms seeded/ID (applies, tests pass, demo) in a scratch copy of /repo and shows which checks report it."""
import json
import os
import shutil
import subprocess
import sys
import time
from pathlib import Path

V = Path(__file__).resolve().parent.parent
bid = sys.argv[1]
d = V / "seeded" / bid
checks = sys.argv[sys.argv.index("--checks") + 1].split(",") if "--checks" in sys.argv else [json.loads((d / "meta.json").read_text())["property"]]
wt = Path(f"/tmp/bug_{bid}")
shutil.rmtree(wt, ignore_errors=True)
demo = Path(f"/tmp/demo_{bid}")
shutil.rmtree(demo, ignore_errors=True)
shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
try:
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    r = subprocess.run(["bash", demo / "demo.sh"], cwd=wt, capture_output=True, text=True, timeout=300, env=env)
    print("demo unchanged:", r.returncode, "" if r.returncode == 0 else r.stdout[-1500:] + r.stderr[-1500:])
    subprocess.run(["git", "apply", d / "patch.diff"], cwd=wt, check=True)
    r = subprocess.run(["bash", demo / "demo.sh"], cwd=wt, capture_output=True, text=True, timeout=300, env=env)
    print("demo patched:", r.returncode, (r.stdout + r.stderr)[-300:])
    added = subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout
    if "--notest" not in sys.argv:
        s = Path("/opt/vp/test.sh").read_text().replace("cd /repo", f"cd {wt}").replace("/opt/vp/reports", f"/tmp/rep_{bid}")
        s = s.replace("export PYTHONHASHSEED=0", f"export PYTHONPATH={wt} PYTHONHASHSEED=0")
        p = Path(f"/tmp/test_{bid}.sh")
        p.write_text(s)
        out = Path(f"/tmp/out_{bid}.json")
        subprocess.run(["bash", p, out], capture_output=True, text=True)
        o = json.loads(out.read_text())
        b = json.load(open("/opt/vp/BASELINE.json"))
        base = list(b.values())[0] if "passed" not in b else b["passed"]
        base = b.get("tests") or base
        miss = [x for x in base if x not in set(o["passed"])]
        print("tests: passed", len(o["passed"]), "lost", miss[:5])
        p.unlink(), out.unlink(), shutil.rmtree(f"/tmp/rep_{bid}", ignore_errors=True)
    for c in checks:
        t = time.time()
        r = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd=V, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=str(wt), VERIF_SEED="1", VERIF_TIER="quick"))
        v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        print(f"check {c}: rc={r.returncode} {time.time() - t:.0f}s", v[:1], "" if r.returncode in (0, 1) else r.stderr[-800:])
finally:
    shutil.rmtree(wt, ignore_errors=True)
    shutil.rmtree(demo, ignore_errors=True)
