"""Development helper: makes seeded/<id>/patch.diff + meta.json from a replacement.
mk(id, property, file, old, new, needs, breaks, demo)"""
import json
import shutil
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent.parent
DEMO = """#!/bin/bash
# exit 0: behaves as promised, nonzero: broken. Runs in the root of the repository.
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py" "$PWD"
"""
HEAD = '''import sys, os, tempfile, shutil
sys.path.insert(0, sys.argv[1])
import logging; logging.disable(50)
import warnings; warnings.filterwarnings("ignore")
from pathlib import Path
import neps
TMP = Path(tempfile.mkdtemp())
import atexit; atexit.register(shutil.rmtree, TMP, True)
'''


def mk(bid, prop, edits, needs, breaks, demo):
    d = V / "seeded" / bid
    d.mkdir(parents=True, exist_ok=True)
    wt = Path("/tmp/mkbug")
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(["git", "-C", __import__("os").environ.get("VERIF_REPO", "/repo"), "worktree", "add", "-q", "--detach", wt], check=True)
    try:
        for f, a, b in edits:
            p = wt / f
            s = p.read_text()
            assert s.count(a) == 1, (bid, f, s.count(a))
            p.write_text(s.replace(a, b))
        (d / "patch.diff").write_text(subprocess.run(["git", "diff"], cwd=wt, capture_output=True, text=True).stdout)
    finally:
        subprocess.run(["git", "-C", __import__("os").environ.get("VERIF_REPO", "/repo"), "worktree", "remove", "--force", wt])
    (d / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    (d / "demo.sh").write_text(DEMO)
    (d / "demo.py").write_text(HEAD + demo.strip() + "\n")
