"""Shared machinery of the checks: environment, scratch space, TLC, evidence, findings."""

from __future__ import annotations

import atexit
import hashlib
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
JARS = "/opt/veriftools/tla/tla2tools.jar"
NCPU = min(8, os.cpu_count() or 1)

_ENV = {
    "PYTHONHASHSEED": "0",
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MPLBACKEND": "Agg",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONWARNINGS": "ignore",
}


class CheckError(Exception):
    """The machinery itself failed."""


def _scratch_base() -> str:
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


SCRATCH: Path = Path(os.environ["VERIF_SCRATCH"]) if "VERIF_SCRATCH" in os.environ else None


def bootstrap() -> None:
    """Create the scratch directory, compile the shim and re-execute with it preloaded."""
    global SCRATCH
    if "VERIF_SCRATCH" not in os.environ:
        d = Path(tempfile.mkdtemp(prefix="verif-", dir=_scratch_base()))
        so = d / "vshim.so"
        subprocess.run(
            ["gcc", "-O1", "-shared", "-fPIC", "-w", "-o", str(so), str(HARNESS / "vshim.c"),
             "-ldl", "-lpthread"], check=True)
        env = dict(os.environ)
        env.update(_ENV)
        env["VERIF_SCRATCH"] = str(d)
        env["MPLCONFIGDIR"] = str(d / "mpl")
        env["TMPDIR"] = str(d / "tmp")
        env["HOME"] = str(d / "home")
        for s in ("mpl", "tmp", "home"):
            (d / s).mkdir()
        env["LD_PRELOAD"] = str(so)
        env["PYTHONPATH"] = f"{REPO}:{HARNESS}"
        # the child does the work; the parent only cleans up, so nothing stays behind
        p = subprocess.Popen([sys.executable, *sys.argv], env=env)
        try:
            rc = p.wait()
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
            shutil.rmtree(d, ignore_errors=True)
        sys.stdout.flush()
        os._exit(rc if rc in (0, 1) else 2)
    SCRATCH = Path(os.environ["VERIF_SCRATCH"])
    sys.path.insert(0, str(HARNESS))
    sys.path.insert(0, str(REPO))


def import_neps():
    import logging
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    import neps

    f = Path(neps.__file__).resolve()
    if REPO.resolve() not in f.parents:
        raise CheckError(f"neps is imported from {f}, not from {REPO}")
    return neps


def seed() -> int:
    return int(os.environ.get("VERIF_SEED", "1") or 1)


def tier() -> str:
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def thorough() -> bool:
    return tier() == "thorough"


_n = 0


def tmpdir(prefix="d") -> Path:
    return Path(tempfile.mkdtemp(prefix=prefix + "-", dir=SCRATCH))


_PFN = None


def _pcall(x):
    return _PFN(x)


def pmap(fn, items, nproc: int | None = None, chunk: int = 0):
    """Ordered parallel map with forked processes."""
    global _PFN
    items = list(items)
    if not items:
        return []
    n = min(nproc or NCPU, len(items))
    if n <= 1:
        return [fn(x) for x in items]
    ctx = mp.get_context("fork")
    _PFN = fn
    with ctx.Pool(n) as pool:
        return pool.map(_pcall, items, chunksize=chunk or max(1, min(16, len(items) // (4 * n) or 1)))


# ------------------------------------------------------------------------------ TLC
class TLC:
    """One run of TLC and what it reported."""

    def __init__(self, out: str, rc: int, secs: float):
        self.out, self.rc, self.secs = out, rc, secs
        m = re.findall(r"(\d+) states generated.*?, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.completed = "Model checking completed. No error has been found" in out
        m = re.search(r"Error: (?:Invariant|Action property|Temporal property)?\s*(\S+) (?:is|was|were) violated", out)
        self.violated = m.group(1) if m else None
        if self.violated is None and re.search(r"Error: Temporal properties were violated", out):
            self.violated = "temporal"
        if self.violated is None and "Deadlock reached" in out:
            self.violated = "deadlock"


def tlc(module: str, cfg: str, *, env: dict | None = None, workers: int | str = 1, args=(),
        timeout: float = 800, mem: str = "2g", cwd: Path | None = None, dfs: bool = False) -> TLC:
    meta = tmpdir("tlc")
    e = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    spec = cwd or SPEC
    jars = JARS
    for extra in sorted(Path("/opt/veriftools/tla").glob("*.jar")):
        if str(extra) != JARS:
            jars += ":" + str(extra)
    cmd = ["java", f"-Xmx{mem}", "-Xss32m",
           *(["-XX:+UseSerialGC"] if workers == 1 else ["-XX:+UseParallelGC", "-XX:ParallelGCThreads=4"]),
           *(["-Dtlc2.tool.queue.IStateQueue=StateDeque"] if dfs else []), "-cp", jars, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", str(meta),
           "-workers", str(workers), "-config", str(spec / cfg), *args, str(spec / (module + ".tla"))]
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as x:
        out = (x.stdout or b"").decode() if isinstance(x.stdout, bytes) else (x.stdout or "")
        rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    return TLC(out, rc, time.time() - t)


CAP = 20000


def judge(module: str, cfg: str, traces: list[dict], *, env: dict | None = None, timeout: float = 600,
          mem: str = "2g", batch: int = 60, cap: int = CAP) -> tuple[list[dict], dict]:
    """Let TLC judge every trace; returns one verdict per trace and statistics.

    A verdict is {"ok": bool, "reached": n, "len": n, "judged": bool}.  Identical traces are
    judged once.  After a rejection the batches that have not been started are left out.
    """
    st = {"states": 0, "transitions": 0, "distinct_traces": 0, "judge_s": 0.0}
    if not traces:
        return [], st
    keys = [hashlib.sha1(json.dumps(t, sort_keys=True).encode()).hexdigest() for t in traces]
    first: dict[str, int] = {}
    for i, k in enumerate(keys):
        first.setdefault(k, i)
    uniq = sorted(first.values(), key=lambda i: -len(traces[i].get("ev", ())))
    n = max(min(NCPU, len(uniq) // 10 + 1), -(-len(uniq) // batch))
    chunks = [uniq[j::n] for j in range(n)]
    d = tmpdir("judge")
    stop = []

    def one(j, idx=None, cap=cap):
        if stop and idx is None:
            return None
        idx = chunks[j] if idx is None else idx
        f, v = d / f"t{j}.ndjson", d / f"v{j}.json"
        with open(f, "w") as fh:
            for i in idx:
                fh.write(json.dumps(traces[i]) + "\n")
        r = tlc(module, cfg, env={"TRACES": str(f), "VERDICTS": str(v), "CAP": str(cap), **(env or {})},
                timeout=timeout, mem=mem, dfs=True)
        if not v.exists():
            raise CheckError(f"TLC did not judge the traces ({module}):\n{r.out[-3000:]}")
        vs = json.loads(v.read_text())
        v.unlink()
        if len(vs) != len(idx):
            raise CheckError("TLC judged a different number of traces")
        for x in vs:
            x["judged"] = True
            x["ok"] = x["reached"] == x["len"] and not x.get("bad", 0)
            x["capped"] = bool(x.get("capped")) and not x["ok"]
            if not x["ok"] and not x["capped"]:
                stop.append(j)
        return r, idx, vs

    by_key: dict[str, dict] = {}

    def take(res):
        if res is None:
            return
        r, idx, vs = res
        st["states"] += r.distinct
        st["transitions"] += r.generated
        st["judge_s"] = max(st["judge_s"], r.secs)
        for i, v in zip(idx, vs):
            by_key[keys[i]] = v

    with ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(one, range(n)):
            take(res)
    capped = [i for i in uniq if by_key.get(keys[i], {}).get("capped")]
    if capped and not stop:
        # look harder at a few of them; what is still undecided is an error of the check
        for i in capped[:3]:
            take(one("x", [i], 2000000))
            if by_key[keys[i]]["capped"]:
                raise CheckError("a trace could be neither explained nor rejected")
    for i in capped:
        if by_key[keys[i]]["capped"]:
            by_key[keys[i]].update(ok=True, judged=False)
    st["distinct_traces"] = sum(v["judged"] for v in by_key.values())
    shutil.rmtree(d, ignore_errors=True)
    skipped = {"ok": True, "judged": False, "reached": 0, "len": 0}
    return [by_key.get(k, skipped) for k in keys], st


def generate(rep, module: str, cfg: str, *, env: dict | None = None, timeout=600, mem="4g") -> list:
    """Let TLC write the cases or behaviours of a specification, with the outcome it demands."""
    out = tmpdir("gen") / "out.json"
    r = tlc(module, cfg, env={"OUT": str(out), **(env or {})}, timeout=timeout, mem=mem)
    if not out.exists() or "Error:" in r.out:
        raise CheckError(f"TLC generated nothing ({module}/{cfg}):\n{r.out[-3000:]}")
    d = json.loads(out.read_text())
    shutil.rmtree(out.parent, ignore_errors=True)
    if rep is not None:
        rep.add(states=r.distinct or len(d), transitions=r.generated)
        rep.cov.setdefault("generated", []).append({"module": module, "config": cfg, "cases": len(d)})
    return d


def table(rep, module: str, cfg: str, records: list, *, env: dict | None = None, timeout=600, mem="3g",
          batch=4000) -> list[list[str]]:
    """Let TLC judge observations one by one; returns the names of the clauses each one breaks."""
    if not records:
        return []
    keys = [json.dumps(r, sort_keys=True) for r in records]
    uniq = list(dict.fromkeys(keys))
    n = max(min(NCPU, len(uniq) // 50 + 1), -(-len(uniq) // batch))
    d = tmpdir("table")

    def one(j):
        f, v = d / f"t{j}.ndjson", d / f"v{j}.json"
        f.write_text("\n".join(uniq[j::n]) + "\n")
        r = tlc(module, cfg, env={"TRACES": str(f), "VERDICTS": str(v), **(env or {})}, timeout=timeout, mem=mem)
        if not v.exists():
            raise CheckError(f"TLC did not judge the records ({module}):\n{r.out[-3000:]}")
        return list(zip(uniq[j::n], json.loads(v.read_text())))

    got = {}
    with ThreadPoolExecutor(NCPU) as ex:
        for res in ex.map(one, range(n)):
            got.update(res)
    shutil.rmtree(d, ignore_errors=True)
    if len(got) != len(uniq):
        raise CheckError("TLC judged a different number of records")
    if rep is not None:
        rep.add(states=len(uniq), records_judged=len(records), distinct_records=len(uniq))
    return [got[k] for k in keys]


# -------------------------------------------------------------------- findings etc.
def known_findings(pid: str) -> list[dict]:
    f = VERIF / "known-findings.json"
    if not f.exists():
        return []
    return [x for x in json.loads(f.read_text())["findings"] if x["property"] == pid and x["status"] == "known"]


class Report:
    """Collects what one check covered, and its violations."""

    def __init__(self, pid: str, level: str = "model_checking"):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.cov: dict = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions: list[str] = []
        self.violations: list[dict] = []
        self.known: list[str] = []
        self.notes: list[str] = []

    def add(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.cov[k] = self.cov.get(k, 0) + v
            else:
                self.cov[k] = v

    def sample(self, x, limit=4):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(x)

    def model(self, module: str, cfg: str, *, expect: str | None = None, workers=4, timeout=600, mem="6g", args=()):
        """Model check a specification; anything unexpected is an error of the machinery
        (the specification does not depend on the code under test)."""
        r = tlc(module, cfg, workers=workers, timeout=timeout, mem=mem, args=args)
        if expect is None:
            if not r.completed:
                raise CheckError(f"{module}/{cfg}: the specification does not satisfy its properties\n{r.out[-3000:]}")
        elif r.violated is None or (expect != "*" and expect != r.violated):
            raise CheckError(f"{module}/{cfg}: expected violation of {expect}, got {r.violated}\n{r.out[-2000:]}")
        self.add(states=r.distinct, transitions=r.generated)
        self.cov.setdefault("models", []).append(
            {"module": module, "config": cfg, "distinct_states": r.distinct, "generated": r.generated,
             "verdict": "holds" if expect is None else f"violates {r.violated} (expected)"})
        return r

    def violation(self, what: str, replay: dict):
        for k in known_findings(self.pid):
            if re.search(k["match"], what):
                msg = f"{k['what']}"
                if msg not in self.known:
                    self.known.append(msg)
                return
        self.violations.append({"what": what, "replay": replay})

    def finish(self) -> int:
        ev = VERIF / "evidence"
        ev.mkdir(exist_ok=True)
        paths = []
        rd = ev / "replay"
        if rd.exists():
            for old in rd.glob(f"{self.pid}-*.json"):
                old.unlink()
        for i, v in enumerate(self.violations[:5]):
            rd.mkdir(exist_ok=True)
            p = rd / f"{self.pid}-{i}.json"
            p.write_text(json.dumps({"property": self.pid, **v}, indent=1, default=str))
            paths.append(p)
        out = {
            "property": self.pid, "tier": tier(), "seed": seed(), "level": self.level,
            "coverage": self.cov, "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
        }
        (ev / f"{self.pid}.json").write_text(json.dumps(out, indent=1, default=str))
        for k in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {k}")
        for p, v in zip(paths, self.violations):
            print(f"  {v['what'][:1500]}")
            print(f"VIOLATION property={self.pid} replay={p}")
        c = {k: v for k, v in self.cov.items() if isinstance(v, (int, bool)) or k == "seconds"}
        print(f"{self.pid} {'FAILED' if self.violations else 'ok'} {out['wall_s']}s {c}")
        sys.stdout.flush()
        return 1 if self.violations else 0
