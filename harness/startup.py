"""P10: concurrent starts, kills during the start, and who may join, judged by Startup.tla."""

from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
from pathlib import Path

import protocol as P
import vlib
import vsched as S

SEARCHERS = ["random_search", "bayesian_optimization", "hyperband", "successive_halving", "asha", "priorband",
             "mobster", "pibo", "asha_prior", "successive_halving_prior", "priorband_bo", "ifbo"]
FID = {"hyperband", "successive_halving", "asha", "priorband", "mobster", "asha_prior", "successive_halving_prior",
       "priorband_bo", "ifbo"}
DIRS = {"info": (".optimizer_info", ".version"), "seed": (".seed_state", ".version"),
        "err": (".errors", ".all.version"), "opt": (".optimizer_state", ".version")}


def start_main(root: Path, cfg: dict, widx: int) -> str:
    import numpy as np
    import torch

    import neps

    random.seed(widx)  # every process brings its own random state
    np.random.seed(widx)
    torch.manual_seed(widx)
    se, kw = cfg["searcher"], dict(cfg.get("kw", {}))
    space = {"x": neps.Float(0, 1, default=0.5)}
    if se in FID or cfg.get("fid"):
        space["e"] = neps.Integer(1, 9, is_fidelity=True)
    args = {}
    if "cost" in cfg:
        args["max_cost_total"] = cfg["cost"]
    if cfg.get("yaml"):
        # a settings file instead of arguments
        f = root.parent / "mysearcher.yaml"
        f.write_text("strategy: " + se + "\n" + "".join(f"{k}: {v}\n" for k, v in kw.items()))
        se, kw = f, {}
    if cfg.get("dict"):
        se, kw = {"strategy": se, **kw}, {}
    if se == "custom":
        se = custom()
    neps.run(run_pipeline=lambda **c: 1.0, root_directory=root, pipeline_space=space, searcher=se,
             max_evaluations_total=1, max_evaluations_per_run=cfg.get("n", 0), post_run_summary=False, **args, **kw)
    return "ok"


def custom():
    from neps.optimizers.base_optimizer import BaseOptimizer
    from neps.optimizers.random_search.optimizer import RandomSearch

    class Mine(BaseOptimizer):
        def __init__(self, pipeline_space, **kw):
            super().__init__(pipeline_space=pipeline_space)
            self.inner = RandomSearch(pipeline_space=pipeline_space)

        def ask(self, trials, budget_info):
            return self.inner.ask(trials, budget_info)

    return Mine


class StartObserver:
    def __init__(self, root: Path):
        self.root = root
        self.ids: dict[str, int] = {}
        self.order: list = []

    def content(self, part: str) -> str | None:
        d, v = DIRS[part]
        if not (self.root / d / v).exists():
            return None
        h = hashlib.sha1()
        for f in sorted((self.root / d).iterdir()):
            if f.name.startswith(".") or ".tmp" in f.name or not f.is_file():
                continue
            h.update(f.name.encode() + b"\0" + f.read_bytes() + b"\0")
        return h.hexdigest()

    def num(self, part: str, c: str | None) -> int:
        return 0 if c is None else self.ids.setdefault(part + c, len(self.ids) + 1)

    def observe(self, actor, held, releasing):
        fx = set()
        for p in held:
            if p == releasing:
                continue
            top = os.path.relpath(p, self.root).split("/")[0]
            fx |= {k for k, (d, _) in DIRS.items() if d == top}
        c = {k: self.num(k, self.content(k)) for k in DIRS}
        return {"i": c["info"], "p": {k: c[k] for k in ("seed", "err", "opt")}}, sorted(fx)


class Start(P.Execution):
    def __init__(self, template, scenario, schedule):
        super().__init__(None, scenario, schedule)
        if template is not None:
            shutil.copytree(template, self.root)
        elif scenario.get("empty"):
            self.root.mkdir()
        self.ob = StartObserver(self.root)

    def initial(self):
        o, _ = self.ob.observe(0, {}, None)
        return o

    def worker_fn(self, i):
        cfg = self.sc["workers"][i]
        return lambda idx: start_main(self.root, cfg, i + 1)

    def _event(self, w):
        pass

    def _ended(self, w, killed=False):
        a = w.idx + 1
        if not ((killed or w.exit == "killed") and self.keep_fx):  # a dead worker holds no locks
            self.record(a, "obs", force=False)
        if killed or w.exit == "killed":
            self.record(a, "crash", how="")
        elif w.exit == "done":
            self.record(a, "exit", how="done")
        elif w.exit == "raised" and w.info["chain"][0][0] == "NePSError" and "does not match" in w.info["chain"][0][1]:
            self.record(a, "exit", how="refused")
        elif w.exit == "raised":
            self.record(a, "exit", how="failed: " + ": ".join(w.info["chain"][0])[:300])
        else:
            self.record(a, "exit", how=str(w.exit))

    def trace(self, init):
        # identities: what a worker with these arguments writes when it is alone
        ids = [self.ob.num("info", identity(w)) for w in self.sc["workers"]]
        return {"ids": ids, "init": init, "obs": self.obs, "ev": [{"how": "", **r} for r in self.recs]}


_IDENT: dict[str, str] = {}


def alone(w: dict) -> tuple[str | None, str, Path]:
    """A fresh directory, started by this worker alone: its identity, how it ended, the directory."""
    x = Start(None, {"workers": [w]}, {"kind": "list"})
    sp = x.worker_fn(0)
    x.sched.spawn(sp)
    while x.sched.workers[0].alive:
        x.sched.step(x.sched.workers[0])
    ww = x.sched.workers[0]
    x.sched.close()
    return x.ob.content("info"), (ww.exit if ww.exit != "raised" else str(ww.info["chain"][0])), x.root


def identity(w: dict) -> str:
    k = json.dumps({a: b for a, b in w.items() if a != "late"}, sort_keys=True)
    if k not in _IDENT:
        c, how, root = alone(w)
        shutil.rmtree(root.parent, ignore_errors=True)
        _IDENT[k] = c if c is not None else f"none:{how}"
    return _IDENT[k]


def run_job(job):
    sc, sd = job
    try:
        tpl = None
        if "tpl" in sc:
            c, how, tpl = alone(sc["tpl"])
            if c is None:  # reported as such below
                shutil.rmtree(tpl.parent, ignore_errors=True)
                return {"skip": how, "tpl": sc["tpl"]}
        x = Start(tpl, sc, sd)
        try:
            return {**x.run(), "job": job}
        finally:
            x.close()
            if tpl is not None:
                shutil.rmtree(tpl.parent, ignore_errors=True)
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r}\n{traceback.format_exc()}"}


def explain(sc, res, v):
    tr = res["trace"]
    k = min(v["reached"], len(tr["ev"]) - 1)
    r = tr["ev"][k]
    return (f"scenario {sc['name']}: record {k + 1} of {len(tr['ev'])} is no step of Startup: "
            f"{json.dumps(r)} observed {json.dumps(tr['obs'][r['o'] - 1])} identities {tr['ids']}")


def startup(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCStartup", "MC_startup.cfg")
    rs = {"searcher": "random_search"}
    rs2 = {"searcher": "random_search", "cost": 10}
    bo = {"searcher": "bayesian_optimization"}
    jobs = []

    def late(w):
        return {**w, "late": True}

    def points(sc):
        x = Start(None, {**sc, "workers": sc["workers"][:1]}, {"kind": "list"})
        try:
            return x.run()["kinds"]
        finally:
            x.close()

    for name, empty in (("no directory", False), ("empty directory", True)):
        sc = {"name": f"two workers start, {name}", "workers": [rs, rs2], "empty": empty}
        n = len(points(sc))
        jobs += [(sc, {"kind": "list", "first": 0, "points": [[i, 1]]}) for i in range(n + 1) if T or i % 2 == s % 2]
        jobs += [(sc, {"kind": "list", "first": 0, "points": [[i, 1], [i + j, 0]]})
                 for i, j in ((rng.randrange(n), rng.randrange(1, n)) for _ in range(400 if T else 30))]
        cr = {"name": f"first worker killed, {name}", "workers": [rs, late(rs2)], "empty": empty}
        for i, k in enumerate(points(cr)):
            if T or i % 2 == (s + empty) % 2:
                jobs.append((cr, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, False]]}))
            if k == "0write":
                jobs.append((cr, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, True]]}))
    three = {"name": "three workers start", "workers": [rs, rs2, rs]}
    mix = {"name": "workers with different searchers start", "workers": [rs, bo, rs]}
    jobs += [(sc, {"kind": "rand", "seed": s * 100 + i, "p": (0.02, 0.1, 0.4)[i % 3]}) for sc in (three, mix) for i in range(150 if T else 20)]
    jobs += [({**sc, "name": sc["name"] + ", one killed"}, {"kind": "rand", "seed": s * 100 + i, "p": 0.1, "crash": [[rng.randrange(1, 200), rng.random() < .3]]})
             for sc in (three, mix) for i in range(150 if T else 15)]
    # joining an existing run: same settings are accepted, different ones refused
    same = [{"searcher": n} for n in SEARCHERS] + [
        {"searcher": "bayesian_optimization", "kw": {"initial_design_size": 3}}, {"searcher": "bayesian_optimization", "yaml": True, "kw": {"initial_design_size": 3}},
        {"searcher": "hyperband", "kw": {"eta": 2}}, {"searcher": "asha", "kw": {"eta": 2, "early_stopping_rate": 1}}, {"searcher": "random_search", "kw": {"ignore_fidelity": False}},
        {"searcher": "custom"}, {"searcher": "custom", "kw": {"alpha": 0.1, "beta": [1, "x"]}}, {"searcher": "hyperband", "dict": True, "kw": {"eta": 2}}]
    if T:
        same += [{"searcher": n, "yaml": True} for n in SEARCHERS]
    for w in same:
        jobs.append(({"name": f"join with the same settings {w}", "tpl": w, "workers": [w, late(w)]}, {"kind": "list"}))
    diff = [(a, b) for a in SEARCHERS for b in SEARCHERS if a != b and T] or [
        ("random_search", "bayesian_optimization"), ("hyperband", "asha"), ("pibo", "bayesian_optimization"), ("priorband", "hyperband")]
    nofid = {"bayesian_optimization", "pibo"}  # these reject spaces with a fidelity
    for a, b in diff:
        if not ({a, b} & nofid and {a, b} & FID):
            fid = a in FID or b in FID
            jobs.append(({"name": f"join {a} with {b}", "tpl": {"searcher": a, "fid": fid}, "workers": [{"searcher": b, "fid": fid}]}, {"kind": "list"}))
    for se, k1, k2 in (("bayesian_optimization", {"initial_design_size": 3}, {"initial_design_size": 4}), ("hyperband", {"eta": 2}, {"eta": 3}),
                       ("asha", {"early_stopping_rate": 0}, {"early_stopping_rate": 1})):
        for a, b in ((k1, k2), (k2, k1)):
            jobs.append(({"name": f"join {se} {a} with {b}", "tpl": {"searcher": se, "kw": a}, "workers": [{"searcher": se, "kw": b}]}, {"kind": "list"}))
    # a setting that only one of the two gives
    for w in ({"searcher": "custom", "kw": {"alpha": 0.1}}, {"searcher": "bayesian_optimization", "yaml": True, "kw": {"initial_design_size": 3}},
              {"searcher": "hyperband", "dict": True, "kw": {"eta": 2}}, {"searcher": "random_search", "dict": True, "kw": {"use_priors": True}}):
        o = {k: v for k, v in w.items() if k != "kw"}
        for a, b in ((w, o), (o, w)):
            jobs.append(({"name": f"join {a} with {b}", "tpl": a, "workers": [b]}, {"kind": "list"}))
    cfgs = {json.dumps({k: v for k, v in w.items() if k != "late"}, sort_keys=True) for sc, _ in jobs for w in sc["workers"]}
    cfgs = sorted(cfgs)
    for k, r in zip(cfgs, vlib.pmap(lambda k: identity(json.loads(k)), cfgs)):
        _IDENT[k] = r
    res = vlib.pmap(run_job, jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
        if "skip" in r:
            _IDENT.setdefault(json.dumps(r["tpl"], sort_keys=True), "none:" + r["skip"])
    jobs = [j for j, r in zip(jobs, res) if "skip" not in r]
    res = [r for r in res if "skip" not in r]
    verd, st = vlib.judge("TraceStartup", "TraceStartup.cfg", [r["trace"] for r in res])
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), implementation_steps=sum(r["steps"] for r in res))
    for (sc, sd), r in zip(jobs, res):
        e = rep.cov.setdefault("scenarios", {})
        e[sc["name"]] = e.get(sc["name"], 0) + 1
    rep.sample({"scenario": jobs[5][0]["name"], "records": [(x["a"], x["k"], x["how"]) for x in res[5]["trace"]["ev"]]})
    seen = {}
    for (sc, sd), r, v in zip(jobs, res, verd):
        if not v["ok"]:
            seen[sc["name"]] = seen.get(sc["name"], 0) + 1
            if seen[sc["name"]] <= 1:
                rep.violation(explain(sc, r, v), {"kind": "startup", "scenario": sc, "schedule": sd})
    # settings that must lead to different identities do so (otherwise nobody would ever be refused)
    for (sc, _), r in zip(jobs, res):
        if sc["name"].startswith("join") and "same" not in sc["name"] and r["exits"][0][0] == "done":
            rep.violation(f"{sc['name']}: a worker with a different searcher joined the run",
                          {"kind": "startup", "scenario": sc, "schedule": {"kind": "list"}})
    # an identity must be producible at all
    for k, i in _IDENT.items():
        if i.startswith("none:"):
            rep.violation(f"a run cannot be started with {k}: {i[5:]}", {"kind": "startup", "scenario": {"name": "start", "workers": [json.loads(k)]}, "schedule": {"kind": "list"}})


def replay(d):
    r = run_job((d["scenario"], d["schedule"]))
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceStartup", "TraceStartup.cfg", [r["trace"]])
    for x in r["trace"]["ev"]:
        print(json.dumps(x), json.dumps(r["trace"]["obs"][x["o"] - 1]))
    print("identities", r["trace"]["ids"], v)
    if not v[0]["ok"]:
        print(explain(d["scenario"], r, v[0]))
    return 0 if v[0]["ok"] else 1
