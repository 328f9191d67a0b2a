"""P21: the csv summary of workers that end at the same time or are killed, judged by Csv.tla."""

from __future__ import annotations

import csv
import json
import os
import random
import shutil

import protocol as P
import proto_checks as C
import vlib
from protocol import settings

NOTHING = {"rows": [], "run": {k: -1 for k in ("ev", "pend", "prog", "err", "best")}}
TORN = {"rows": [], "run": {k: -3 for k in ("ev", "pend", "prog", "err", "best")}}


def code(loss) -> int:
    return 10 + P.num(loss) if loss not in (None, "") else 2


class CsvObserver(P.Observer):
    def codes(self, o) -> list[int]:
        return [{"p": 0, "e": 1, "c": 2}.get(t["st"], -5) if t["st"] != "s" else 10 + t["loss"] for t in o["t"]]

    def table(self) -> dict:
        d = self.root / "summary_csv"
        a, b = d / "config_data.csv", d / "run_status.csv"
        if not a.exists() and not b.exists():
            return NOTHING
        try:
            run = {r["description"]: r["value"] for r in csv.DictReader(b.open())}
            rows = {}
            for r in csv.DictReader(a.open()):
                if r["status"] == "complete":
                    rows[r["config_id"]] = code(r["result.loss"])
                elif r["status"] == "pending":
                    rows[r["config_id"]] = 0
                else:
                    return TORN
            order = [t for t in self.order if t in rows]
            if len(order) != len(rows) or order != self.order[:len(order)]:
                return {"rows": [rows[k] for k in order] + [-6], "run": TORN["run"]}
            best = run["best_loss"]
            n = lambda k: int(float(run[k]))  # noqa: E731
            return {"rows": [rows[t] for t in order],
                    "run": {"ev": n("num_evaluated_configs"), "pend": n("num_pending_configs"),
                            "prog": n("num_pending_configs_with_worker"), "err": n("num_error"),
                            "best": 0 if best == "inf" else code(best)}}
        except Exception:  # noqa: BLE001 - unreadable
            return TORN

    def observe(self, actor, held, releasing):
        o, fx = super().observe(actor, held, releasing)
        busy = any(os.path.basename(p) == ".csv_lock" for p in held if p != releasing)
        return {"t": self.codes(o), "c": self.table()}, {"c": busy}


class Ending(P.Execution):
    keep_fx = True

    def __init__(self, template, scenario, schedule):
        super().__init__(template, scenario, schedule)
        self.ob = CsvObserver(self.root)

    def initial(self):
        o, _ = self.ob.observe(900, {}, None)
        return o

    def _event(self, w):
        self.record(w.idx + 1, "obs", force=False)

    def _ended(self, w, killed=False):
        a = w.idx + 1
        if killed or w.exit == "killed":
            self.record(a, "crash", how="")
            return
        self.record(a, "obs", force=False)
        self.record(a, "exit", how=w.exit if w.exit != "raised" else "failed: " + ": ".join(w.info["chain"][0])[:300])

    def trace(self, init):
        return {"n": len(self.sc["workers"]), "init": init, "obs": self.obs, "ev": [{"how": "", **r} for r in self.recs]}


def run_job(job):
    sc, sd = job
    try:
        x = Ending(C.template(sc["tpl"], sc["searcher"]), sc, sd)
        try:
            return x.run()
        finally:
            x.close()
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r}\n{traceback.format_exc()}"}


def phase(sc, who=0):
    """The operations (global step numbers and kinds) of the first worker, and where its csv phase begins."""
    x = Ending(C.template(sc["tpl"], sc["searcher"]), {**sc, "workers": [sc["workers"][who]]}, {"kind": "list"})
    marks = []
    step = x.step

    def st(w, reply=b"g"):
        if w.req[0] == "lock" and w.req[1].endswith(".csv_lock"):
            marks.append(x.steps)
        step(w, reply)
    x.step = st
    try:
        r = x.run()
    finally:
        x.close()
    return r["kinds"], (marks or [len(r["kinds"]) - 60])[0]


def explain(sc, res, v):
    tr = res["trace"]
    k = min(v["reached"], len(tr["ev"]) - 1)
    r = tr["ev"][k]
    return (f"scenario {sc['name']}: record {k + 1} of {len(tr['ev'])} is no step of Csv: {json.dumps(r)} "
            f"observed {json.dumps(tr['obs'][r['o'] - 1])}")


def csvsum(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCCsv", "MC_csv.cfg")
    rep.model("MCCsv", "MC_csv_outside.cfg", expect="*")
    if T:
        rep.model("MCCsv", "MC_csv_deep.cfg")

    def wk(n, plan=({},), **kw):
        return {"set": settings(maxTotal=kw.pop("total", 50), maxW=n), "plan": list(plan), **kw}

    f = {"ok": False}
    late = lambda w: {**w, "late": True}  # noqa: E731
    scs = {
        "two workers": ("", [wk(1), wk(1)]),
        "two workers, older results": ("s", [wk(1), wk(1)]),
        "two workers, one left behind": ("se", [wk(1), wk(1)]),
        "two workers, failures": ("c", [wk(1, [f]), wk(1, [f])]),
        "a long and a short worker": ("", [wk(1), wk(2)]),
        "a worker without evaluations": ("sp", [wk(1), wk(0)]),
        "killed while writing": ("", [wk(1), late(wk(1))]),
        "killed while writing, one left behind": ("e", [wk(1), late(wk(1))]),
        "killed while writing, a new worker with nothing to do": ("e", [wk(1), late(wk(1, total=1))]),
        "killed while writing, older summary": ("se", [late(wk(1)), late(wk(1)), late(wk(1))]),
        "killed while a summary exists": ("", [late(wk(1)), late(wk(3)), late(wk(0))]),
        "killed after sampling, then a worker with nothing to do": ("s", [late(wk(1)), late(wk(2)), late(wk(1, total=1))]),
    }
    scs = {n: C.scen(n, w, t, summary=True) for n, (t, w) in scs.items()}
    C.templates(sorted({sc["tpl"] for sc in scs.values()}))
    ph = dict(zip(scs, vlib.pmap(phase, list(scs.values()))))
    jobs = []
    for n, sc in scs.items():
        kinds, m = ph[n]
        N = len(kinds)
        if "killed" not in n:
            # interrupted once inside the csv phase; the other one runs to its end (or comes in between)
            for i in range(max(0, m - 6), N + 1):
                if T or (i + s) % 3 == 0:
                    jobs.append((sc, {"kind": "list", "first": 0, "points": [[i, 1]]}))
            for _ in range(120 if T else 14):
                i = rng.randrange(max(0, m - 12), N + 1)
                jobs.append((sc, {"kind": "list", "first": 0, "points": [[i, 1], [i + rng.randrange(1, 220), 0], [i + rng.randrange(220, 300), 1]]}))
            for i in range(60 if T else 8):
                jobs.append((sc, {"kind": "rand", "seed": s * 1000 + i, "p": (0.02, 0.1, 0.4)[i % 3]}))
        else:
            w0 = 0 if "older" not in n and "exists" not in n and "sampling" not in n else 1
            for i in range(max(0, m - 4) if w0 == 0 else 0, N + (0 if w0 == 0 else 260)):
                if w0 == 0:
                    if T or kinds[i].endswith("write") or (i + s) % 3 == 0:
                        jobs.append((sc, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, False]]}))
                    if kinds[i].endswith("write"):
                        jobs.append((sc, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, True]]}))
                elif T or (i + s) % 8 == 0:
                    jobs.append((sc, {"kind": "list", "crash_w": 1, "crash": [[i, bool(rng.random() < 0.3)]]}))
    res = vlib.pmap(run_job, jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceCsv", "TraceCsv.cfg", [r["trace"] for r in res])
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), implementation_steps=sum(r["steps"] for r in res))
    for sc, _ in jobs:
        e = rep.cov.setdefault("scenarios", {})
        e[sc["name"]] = e.get(sc["name"], 0) + 1
    seen = {}
    for (sc, sd), r, v in zip(jobs, res, verd):
        if not v["ok"]:
            seen[sc["name"]] = seen.get(sc["name"], 0) + 1
            if seen[sc["name"]] <= 1:
                rep.violation(explain(sc, r, v), {"kind": "csv", "scenario": sc, "schedule": sd})
    rep.sample({"scenario": jobs[0][0]["name"], "records": [(x["a"], x["k"], x["how"]) for x in res[0]["trace"]["ev"]]})


def replay(d):
    r = run_job((d["scenario"], d["schedule"]))
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceCsv", "TraceCsv.cfg", [r["trace"]])
    for x in r["trace"]["ev"]:
        print(json.dumps(x), json.dumps(r["trace"]["obs"][x["o"] - 1]))
    print(v)
    if not v[0]["ok"]:
        print(explain(d["scenario"], r, v[0]))
    return 0 if v[0]["ok"] else 1
