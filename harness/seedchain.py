"""P14: what is proposed does not depend on which process asks; executions judged by SeedChain.tla."""

from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
from pathlib import Path

import startup as U
import vlib
import vsched as S

FULL = ["random_search", "grid", "hyperband", "successive_halving", "asha", "priorband", "asha_prior", "successive_halving_prior",
        "mobster", "priorband_bo", "mine"]


def mine(space):
    """A searcher of the user, which uses all random number generators (also the normal numbers they keep for later) and continues configurations."""
    import math

    import numpy as np
    import torch

    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

    class Mine(BaseOptimizer):
        def ask(self, trials, budget_info):
            n = len(trials)
            z = (random.gauss(0, 1), float(np.random.randn()), float(torch.randn(1)))[n % 3] + 0.1 * float(np.random.standard_normal())
            prev = random.choice(sorted(trials, key=int)) if n % 2 and n else None
            return SampledConfig(id=str(n + 1), config={"x": 1 / (1 + math.exp(-z)), "c": "abc"[np.random.randint(3)]}, previous_config_id=prev)

    return Mine(pipeline_space=space)


def run_main(root: Path, cfg: dict, widx: int) -> str:
    import numpy as np
    import torch

    import neps

    torch.set_num_threads(1)
    random.seed(widx)  # every process brings its own random state
    np.random.seed(widx)
    torch.manual_seed(widx)
    se = cfg["searcher"]
    space = {"x": neps.Float(0, 1, default=0.3), "c": neps.Categorical(["a", "b", "c"], default="a")}
    if se in U.FID:
        space["e"] = neps.Integer(1, 9, is_fidelity=True)
    if se == "grid":
        from neps.optimizers.grid_search.optimizer import GridSearch
        from neps.search_spaces.search_space import SearchSpace

        se = GridSearch(pipeline_space=SearchSpace(**space), grid_step_size=7)

    if se == "mine":
        from neps.search_spaces.search_space import SearchSpace

        se = mine(SearchSpace(**space))

    def fn(**c):
        random.random(), np.random.rand(), torch.rand(1)  # evaluations use up random numbers
        if cfg.get("noise"):
            random.seed(widx * 7 + 1), np.random.seed(widx), torch.manual_seed(5)
        v = (c["x"] - 0.4) ** 2 + (0.1 if c["c"] == "b" else 0.0)
        if cfg.get("fail") and int(c["x"] * 1000) % 5 == 0:
            raise RuntimeError("planned")
        return v / c.get("e", 1)

    neps.run(run_pipeline=fn, root_directory=root, pipeline_space=space, searcher=se, ignore_errors=True,
             max_evaluations_total=cfg.get("total", 1000), max_evaluations_per_run=cfg.get("n"), post_run_summary=False)
    return "ok"


class ChainObserver:
    def __init__(self, root: Path):
        self.root = root
        self.order: list = []
        self.cfg: dict = {}

    def seed(self) -> str:
        h = hashlib.sha1()
        d = self.root / ".seed_state"
        if not (d / ".version").exists():
            return "none"
        for f in sorted(d.iterdir()):
            if not f.name.startswith(".") and ".tmp" not in f.name and f.is_file():
                h.update(f.name.encode() + b"\0" + f.read_bytes() + b"\0")
        return h.hexdigest()

    def configs(self) -> list:
        import yaml

        d = self.root / "configs"
        new = []
        for p in d.glob("config_*") if d.exists() else []:
            if p.name in self.cfg or not (p / ".version").exists():
                continue
            try:
                m = yaml.safe_load((p / "metadata.yaml").read_text())
                c = yaml.safe_load((p / "config.yaml").read_text())
                new.append((m["time_sampled"], p.name, json.dumps([p.name, c, m["previous_trial_id"]], sort_keys=True)))
            except Exception:  # noqa: BLE001  being rewritten right now
                continue
        for _, n, c in sorted(new):
            self.order.append(n)
            self.cfg[n] = c
        return [self.cfg[n] for n in self.order]

    def observe(self, actor, held, releasing):
        fx = set()
        for p in held:
            if p != releasing and os.path.relpath(p, self.root).split("/")[0] in (".seed_state", ".optimizer_state"):
                fx |= {"seed", "cfg"}
        return {"c": self.configs(), "p": self.seed()}, sorted(fx)


class Chain(U.Start):
    keep_fx = True

    def __init__(self, template, scenario, schedule):
        super().__init__(template, scenario, schedule)
        self.ob = ChainObserver(self.root)

    def worker_fn(self, i):
        cfg = {"searcher": self.sc["searcher"], **self.sc["workers"][i]}
        return lambda idx: run_main(self.root, cfg, 100 * self.sc.get("salt", 1) + i + 1)

    def trace(self, init):
        return {"init": init, "obs": self.obs, "ev": [{"how": "", **r} for r in self.recs]}


def template(se: str, fail: bool) -> Path:
    """A run that has been created, with its random state, but nothing sampled."""
    x = Chain(None, {"searcher": se, "salt": 9, "workers": [{"total": 1, "n": 0}]}, {"kind": "list"})
    r = x.run()
    if r["exits"][0][0] != "done":
        raise vlib.CheckError(f"cannot start {se}: {r['exits']}")
    return x.root


def reference(key):
    """The undisturbed run: one process does everything."""
    se, n, fail = key
    tpl = template(se, fail)
    x = Chain(tpl, {"searcher": se, "salt": 5, "workers": [{"n": n, "fail": fail}]}, {"kind": "list"})
    r = x.run()
    x.close()
    how = r["exits"][0]
    quiet = [r["trace"]["obs"][rec["o"] - 1] for rec in r["trace"]["ev"] if not rec["fx"]]
    cfgs = quiet[-1]["c"]
    at = {len(o["c"]): o["p"] for o in quiet}
    seeds = [at.get(k, "?") for k in range(len(cfgs) + 1)]
    return {"tpl": tpl, "cfgs": cfgs, "seeds": seeds, "how": how[0] if how[0] != "raised" else f"raised {how[1]['chain'][0]}"}


def translate(trace: dict, ref: dict) -> dict:
    ci = {c: i + 1 for i, c in enumerate(ref["cfgs"])}
    bare = {}  # the identity of a configuration depends on how many there are: compare content where it repeats
    for i, c in enumerate(ref["cfgs"]):
        bare.setdefault(json.dumps(json.loads(c)[1:], sort_keys=True), i + 1)
    si: dict = {}
    for i, h in enumerate(ref["seeds"]):
        si.setdefault(h, i)

    def one(o):
        k = len(o["c"])
        p = k if k < len(ref["seeds"]) and ref["seeds"][k] == o["p"] else si.get(o["p"], -1)
        return {"c": [ci.get(c) or bare.get(json.dumps(json.loads(c)[1:], sort_keys=True), 0) for c in o["c"]], "p": p}

    init = one(trace["init"])
    return {**trace, "init": init, "obs": [one(o) for o in trace["obs"]]}


_REF: dict = {}


def run_job(job):
    key, sc, sd = job
    try:
        x = Chain(Path(_REF[key]["tpl"]), sc, sd)
        try:
            r = x.run()
        finally:
            x.close()
        r["trace"] = translate(r["trace"], _REF[key])
        return r
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r}\n{traceback.format_exc()}"}


def get_refs(keys):
    for k, r in zip(keys, vlib.pmap(reference, keys, chunk=1)):
        _REF[k] = r


def explain(sc, sd, r, v):
    tr = r["trace"]
    k = min(v["reached"], len(tr["ev"]) - 1)
    x = tr["ev"][k]
    return (f"{sc['name']}: record {k + 1} of {len(tr['ev'])} is no step of SeedChain: worker {x['a']} {x['k']} {x['how']}; "
            f"draws so far {tr['obs'][x['o'] - 1]['c']}, stored position {tr['obs'][x['o'] - 1]['p']}")


def chain(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCSeedChain", "MC_seedchain.cfg")
    N = 20 if T else 14
    keys = [("random_search", 8, False)] + [(se, N if se not in ("mobster", "priorband_bo") or T else 11, f) for se in FULL
                                            for f in ((False, True) if T or se in ("hyperband", "asha") else (False,))]
    get_refs(keys)
    jobs = []
    for k in keys:
        ref = _REF[k]
        se, n, fail = k
        if ref["how"] != "done":
            rep.violation(f"{se}: an undisturbed run of {n} evaluations ended with {ref['how']}",
                          {"kind": "chain", "key": k, "scenario": {"name": "undisturbed", "searcher": se, "workers": [{"n": n, "fail": fail}]}, "schedule": {"kind": "list"}})
            continue
        if se in ("random_search", "mine") and len(set(ref["seeds"])) != len(ref["cfgs"]) + 1:
            rep.violation(f"{se}: {len(ref['cfgs'])} configurations were sampled but the stored random state took {len(set(ref['seeds']))} values",
                          {"kind": "chain", "key": k, "scenario": {"name": "undisturbed", "searcher": se, "workers": [{"n": n, "fail": fail}]}, "schedule": {"kind": "list"}})
        if n == 8:
            continue
        # the same run, divided between processes
        for parts in ([1] * n, [n - 5, 1, 4], [5, n - 5]):
            jobs.append((k, {"name": f"{se} in processes of {parts} evaluations", "searcher": se, "salt": rng.randrange(1, 99),
                             "workers": [{"n": p, "fail": fail, "noise": j % 2 == 1, "late": j > 0} for j, p in enumerate(parts)]}, {"kind": "list"}))
    # random search: concurrent processes, interrupted and killed anywhere
    k = ("random_search", 8, False)
    two = {"name": "two processes", "searcher": "random_search", "workers": [{"n": 4}, {"n": 4, "noise": True}]}
    three = {"name": "three processes", "searcher": "random_search", "workers": [{"n": 3}, {"n": 3, "noise": True}, {"n": 2}]}
    for i in range(300 if T else 40):
        for sc in (two, three):
            jobs.append((k, sc, {"kind": "rand", "seed": s * 1000 + i, "p": (0.02, 0.1, 0.3)[i % 3]}))
    solo = {"name": "killed, then continued", "searcher": "random_search", "workers": [{"n": 3}, {"n": 4, "late": True}]}
    x = Chain(Path(_REF[k]["tpl"]), {**solo, "workers": solo["workers"][:1]}, {"kind": "list"})
    kinds = x.run()["kinds"]
    x.close()
    for i, kd in enumerate(kinds):
        if T or i % 3 == s % 3:
            jobs.append((k, solo, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, False]]}))
        if kd == "0write" and (T or i % 2 == s % 2):
            jobs.append((k, solo, {"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, True]]}))
    for i in range(200 if T else 25):
        jobs.append((k, {**two, "name": "two processes, one killed"},
                     {"kind": "rand", "seed": s * 1000 + i, "p": 0.1, "crash": [[rng.randrange(20, 500), rng.random() < 0.3]]}))
    res = vlib.pmap(run_job, jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceSeedChain", "TraceSeedChain.cfg", [r["trace"] for r in res])
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), implementation_steps=sum(r["steps"] for r in res))
    e = rep.cov.setdefault("scenarios", {})
    for (_, sc, _), r in zip(jobs, res):
        e[sc["name"]] = e.get(sc["name"], 0) + 1
    rep.sample({"scenario": jobs[0][1]["name"], "draws": res[0]["trace"]["obs"][-1]})
    rep.sample({"scenario": jobs[-1][1]["name"], "draws": res[-1]["trace"]["obs"][-1]})
    seen = {}
    for (key, sc, sd), r, v in zip(jobs, res, verd):
        if not v["ok"]:
            seen[sc["name"]] = seen.get(sc["name"], 0) + 1
            if seen[sc["name"]] <= 1:
                rep.violation(explain(sc, sd, r, v), {"kind": "chain", "key": key, "scenario": sc, "schedule": sd})
    for r in _REF.values():
        shutil.rmtree(r["tpl"].parent, ignore_errors=True)


def replay(d):
    key = tuple(d["key"])
    _REF[key] = reference(key)
    print("undisturbed:", _REF[key]["how"], len(_REF[key]["seeds"]), "positions,", len(set(_REF[key]["seeds"])), "different")
    r = run_job((key, d["scenario"], d["schedule"]))
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceSeedChain", "TraceSeedChain.cfg", [r["trace"]])
    for x in r["trace"]["ev"]:
        print(json.dumps(x), json.dumps(r["trace"]["obs"][x["o"] - 1]))
    if not v[0]["ok"]:
        print(explain(d["scenario"], d["schedule"], r, v[0]))
    bad = _REF[key]["how"] != "done" or (key[0] == "random_search" and len(set(_REF[key]["seeds"])) != len(_REF[key]["cfgs"]) + 1)
    return 0 if v[0]["ok"] and not bad else 1
