#!/opt/venv/bin/python
"""check.py <property id> | --replay <file>: decides one property (see MANIFEST.json)."""
import importlib
import json
import os
import sys
import traceback
from pathlib import Path

HERE = Path(__file__).resolve().parent
sys.path.insert(0, str(HERE / "harness"))
import vlib  # noqa: E402
from registry import CHECKS, REPLAY  # noqa: E402


def main(argv):
    vlib.bootstrap()
    vlib.import_neps()
    if argv[0] == "--replay":
        d = json.loads(Path(argv[1]).read_text())
        mod = REPLAY[d["replay"]["kind"]]
        mod, _, fn = mod.partition(":")
        return getattr(importlib.import_module(mod), fn or "replay")(d["replay"])
    pid = argv[0]
    mod, fn = CHECKS[pid].split(":")
    rep = vlib.Report(pid)
    getattr(importlib.import_module(mod), fn)(rep)
    return rep.finish()


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except vlib.CheckError as e:
        print(f"check error: {e}")
        rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
