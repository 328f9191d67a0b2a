"""P15: the fidelity ladder.  The real searchers' answers, for random loss orders, failures and completion orders, judged by Rungs.tla."""

from __future__ import annotations

import json
import math
import random
import shutil

import vlib

INF = 1000000
MODE = {  # searcher -> (mode, all brackets)
    "SuccessiveHalving": ("sync", False), "SuccessiveHalvingWithPriors": ("sync", False),
    "AsynchronousSuccessiveHalving": ("async", False), "AsynchronousSuccessiveHalvingWithPriors": ("async", False),
    "Hyperband": ("sync", True), "HyperbandWithPriors": ("sync", True), "HyperbandCustomDefault": ("sync", True),
    "PriorBand": ("sync", True), "PriorBandBO": ("sync", True),
    "AsynchronousHyperband": ("async", True), "AsynchronousHyperbandWithPriors": ("async", True), "MOBSTER": ("async", True),
    "PriorBandAsha": ("async", False), "PriorBandAshaHB": ("async", True),
}
STRATEGY = {"successive_halving": "SuccessiveHalving", "successive_halving_prior": "SuccessiveHalvingWithPriors",
            "asha": "AsynchronousSuccessiveHalving", "asha_prior": "AsynchronousSuccessiveHalvingWithPriors",
            "hyperband": "Hyperband", "priorband": "PriorBand", "priorband_bo": "PriorBandBO", "mobster": "MOBSTER"}
PRIOR = {n for n in MODE if "Prior" in n or "CustomDefault" in n}
MODEL = {"PriorBandBO", "MOBSTER"}
NOES = {n for n, (_, a) in MODE.items() if a}  # no early stopping rate of their own


def classes():
    from neps.optimizers.multi_fidelity import hyperband as H
    from neps.optimizers.multi_fidelity import successive_halving as SH
    from neps.optimizers.multi_fidelity_prior import async_priorband as A
    from neps.optimizers.multi_fidelity_prior import priorband as P

    out = {}
    for m in (SH, H, A, P):
        for n in MODE:
            if hasattr(m, n):
                out[n] = getattr(m, n)
    out["PriorBandBO"] = lambda **k: P.PriorBand(**k, model_based=True)
    return out


def top(p):
    k = 0
    while p["lo"] * p["eta"] ** (k + 1) <= p["hi"]:
        k += 1
    return k


UNIT = 1000  # of a real fidelity


def make_par(name, rng):
    mode, al = MODE[name]
    eta = rng.choice((2, 2, 3, 3, 4, 6))
    real = rng.random() < 0.3
    lo = rng.choice((1, 1, 2, 3, 10))
    if rng.random() < 0.5:
        hi = lo * eta ** rng.choice((1, 2, 2, 3))
    else:
        hi = lo + rng.randrange(1, lo * eta ** 3)
    hi = min(hi, 300) if hi > lo else lo + 1
    p = {"mode": mode, "eta": eta, "lo": lo, "hi": hi, "s": 0, "all": al, "skip": 0, "real": real}
    if eta ** top(p) > 40:
        p["hi"] = lo * eta ** 2 if eta > 2 else lo * 16
    if top(p) == 0 and (name in MODEL or name == "PriorBandAsha"):
        p["hi"] = lo * eta
    if name not in NOES and rng.random() < 0.4:
        p["s"] = rng.randrange(0, top(p) + 1)
    if name in PRIOR and rng.random() < 0.5:
        p["skip"] = 1
    return p


def space(p, rng):
    import neps
    from neps.search_spaces.search_space import SearchSpace

    f = neps.Float(p["lo"] / UNIT, p["hi"] / UNIT, is_fidelity=True) if p["real"] else neps.Integer(p["lo"], p["hi"], is_fidelity=True)
    d = {"x": neps.Float(0, 1, default=0.3, default_confidence="medium"), "c": neps.Categorical(["a", "b"], default="a")}
    if rng.random() < 0.5:
        d["k"] = neps.Constant(3)
    if rng.random() < 0.5:
        d["y"] = neps.Integer(1, 1000, log=True, default=10)
    return SearchSpace(**{**d, "e": f} if rng.random() < 0.5 else {"e": f, **d})


def fid_in(p, v):
    """The fidelity as Rungs.tla counts it."""
    if not p["real"]:
        return v if isinstance(v, int) and not isinstance(v, bool) else -1
    x = v * UNIT * p["eta"] ** top(p)
    return round(x) if math.isclose(x, round(x), rel_tol=1e-9) else -1


def answer(p, s, known):
    """One answer of a searcher as an event; known: the configurations so far by (number, rung)."""
    try:
        c, r = (int(x) for x in s.id.split("_"))
        pc, prev = (-1, -1) if s.previous_config_id is None else (int(x) for x in s.previous_config_id.split("_"))
    except ValueError:
        return {"k": "ask", "c": -9, "r": -9, "prev": -9, "pc": -9, "fid": -1, "same": False}, (-9, -9)
    rest = {k: v for k, v in s.config.items() if k != "e"}
    same = s.previous_config_id is None or json.dumps(known.get((pc, prev)), sort_keys=True) == json.dumps(rest, sort_keys=True)
    return {"k": "ask", "c": c, "r": r, "prev": prev, "pc": pc, "fid": fid_in(p, s.config.get("e")), "same": same and (c, r) not in known}, (c, r)


def drive(job):
    """Ask and tell one searcher."""
    name, p, o = job
    import numpy as np
    import torch

    from neps.state.trial import Trial

    rng = random.Random(o["seed"])
    random.seed(o["seed"]), np.random.seed(o["seed"]), torch.manual_seed(o["seed"])
    sp = space(p, rng)
    kw = {"pipeline_space": sp, "budget": 1, "eta": p["eta"]}
    if o["onerr"] is None:
        kw["ignore_errors"] = True
    else:
        kw["loss_value_on_error"], kw["cost_value_on_error"] = float(o["onerr"]), 1.0
    if name not in NOES:
        kw["early_stopping_rate"] = p["s"]
    if name in PRIOR:
        kw["sample_default_first"] = True if p["skip"] else rng.random() < 0.5
        kw["sample_default_at_target"] = bool(p["skip"])
    cls = classes()[name]
    ev, trials, known, running = [], {}, {}, []
    how = "ok"
    opt = None
    for n in range(o["n"]):
        # some evaluations end before the next request
        while running and (len(running) >= o["w"] or rng.random() < o["end"]):
            t = running.pop(rng.randrange(len(running)))
            c = int(t.id.split("_")[0])
            u = rng.random()
            if u < o["fail"]:
                t.report = t.set_complete(report_as="crashed", time_end=1.0, loss=o["onerr"], cost=None if o["onerr"] is None else 1.0,
                                          learning_curve=None, err=RuntimeError("x"), tb=None, extra=None, evaluation_duration=1.0)
                loss = INF if o["onerr"] is None else o["onerr"]
            else:
                v = rng.randrange(1, o["levels"])
                loss = v
                if rng.random() < o["weird"]:
                    v, loss = rng.choice(((float("nan"), INF), (float("inf"), INF), (-v, -v), (0, 0)))
                t.report = t.set_complete(report_as="success", time_end=1.0, loss=v, cost=1.0, learning_curve=None, err=None, tb=None,
                                          extra={"info_dict": {"z": 1}}, evaluation_duration=1.0)
            ev.append({"k": "done", "c": c, "loss": loss})
        items = list(trials.items())
        rng.shuffle(items)  # directories have no order
        try:
            if opt is None or rng.random() < o["fresh"]:
                opt = cls(**kw)
            s = opt.ask(dict(items), None)
        except Exception as e:  # noqa: BLE001
            how = f"{type(e).__name__}: {e}"
            ev.append({"k": "failed", "c": -1})
            break
        e, key = answer(p, s, known)
        ev.append(e)
        known[key] = {k: v for k, v in s.config.items() if k != "e"}
        t = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=s.previous_config_id, previous_trial_location=None,
                      time_sampled=float(n), worker_id="w")
        if rng.random() < 0.7:
            t.set_evaluating(time_started=1.0, worker_id="w")
        trials[s.id] = t
        if rng.random() >= o["lost"]:  # otherwise its worker dies: it stays under evaluation for ever
            running.append(t)
    return {"par": p, "ev": ev, "how": how}


def run_real(job):
    """A run of the whole program, from its searcher's name and arguments, read back from its directory."""
    strategy, p, o = job
    import numpy as np
    import torch
    import yaml

    import neps

    rng = random.Random(o["seed"])
    random.seed(o["seed"]), np.random.seed(o["seed"]), torch.manual_seed(o["seed"])
    d = vlib.tmpdir("rung")
    sp = dict(space(p, rng).hyperparameters)
    args = {"strategy": strategy, "eta": p["eta"]}
    if STRATEGY[strategy] not in NOES:
        args["early_stopping_rate"] = p["s"]
    if STRATEGY[strategy] in PRIOR:
        args["sample_default_first"] = bool(p["skip"]) or rng.random() < 0.5
        args["sample_default_at_target"] = bool(p["skip"])
    losses = []

    def fn(pipeline_directory, **c):
        if rng.random() < o["fail"]:
            losses.append(INF)
            raise RuntimeError("planned")
        losses.append(rng.randrange(1, o["levels"]))
        return losses[-1]

    how = "ok"
    try:
        neps.run(run_pipeline=fn, root_directory=d / "r", pipeline_space=sp, searcher=args, max_evaluations_total=o["n"], ignore_errors=True,
                 post_run_summary=False)
    except Exception as e:  # noqa: BLE001
        how = f"{type(e).__name__}: {e}"
    rows = []
    for q in (d / "r" / "configs").glob("config_*"):
        m = yaml.safe_load((q / "metadata.yaml").read_text())
        rows.append((m["time_sampled"], m, yaml.safe_load((q / "config.yaml").read_text())))
    ev, known = [], {}

    class S:
        pass

    for i, (_, m, c) in enumerate(sorted(rows, key=lambda r: r[0])):
        s = S()
        s.id, s.config, s.previous_config_id = m["id"], c, m["previous_trial_id"]
        e, key = answer(p, s, known)
        ev.append(e)
        known[key] = {k: v for k, v in c.items() if k != "e"}
        if i < len(losses):
            ev.append({"k": "done", "c": key[0], "loss": losses[i]})
    if how != "ok":
        ev.append({"k": "failed", "c": -1})
    shutil.rmtree(d, ignore_errors=True)
    return {"par": p, "ev": ev, "how": how}


def jobs_for(s, T):
    rng = random.Random(s * 7919)
    out = []
    for name in MODE:
        n = (600 if T else 24) if name not in MODEL else (40 if T else 2)
        for i in range(n):
            p = make_par(name, rng)
            o = {"seed": rng.randrange(1 << 30), "n": rng.choice((20, 30, 50)) if name not in MODEL else 25, "w": rng.choice((1, 2, 4, 9)),
                 "end": rng.choice((0.3, 0.6, 0.9)), "fail": rng.choice((0, 0, 0.2, 1.0)), "levels": rng.choice((3, 12, 5000)),
                 "weird": rng.choice((0, 0, 0.3)), "onerr": rng.choice((None, None, 7)), "fresh": rng.choice((0, 0.2, 1.0)),
                 "lost": rng.choice((0, 0, 0, 0.15))}
            out.append(("drive", (name, p, o)))
    for strat in STRATEGY:
        for i in range((12 if T else 1) if STRATEGY[strat] not in MODEL else (4 if T else 1)):
            p = make_par(STRATEGY[strat], rng)
            o = {"seed": rng.randrange(1 << 30), "n": 18 if STRATEGY[strat] in MODEL else 40, "fail": rng.choice((0, 0.2)), "levels": rng.choice((5, 5000))}
            out.append(("real", (strat, p, o)))
    return out


def run_job(j):
    try:
        return (drive if j[0] == "drive" else run_real)(j[1])
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r}\n{traceback.format_exc()}"}


def explain(j, r, v):
    k = min(v["reached"], len(r["ev"]) - 1)
    runs = {}
    for x in r["ev"][:k]:
        if x["k"] == "ask":
            runs[x["c"]] = [x["r"], "?"]
        else:
            runs[x["c"]][1] = x["loss"]
    x = r["ev"][k]
    what = r["how"] if x["k"] == "failed" else json.dumps(x)
    return (f"{j[1][0]} {json.dumps(r['par'])}: answer {k + 1} is not one that Rungs allows: {what}; "
            f"configurations so far [rung, loss]: {json.dumps(runs)[:600]}")


def rungs(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    for i in range(1, 6):
        rep.model("MCRungs", f"MC_rungs{i}{'_deep' if T else ''}.cfg")
    jobs = jobs_for(s, T)
    res = vlib.pmap(run_job, jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceRungs", "TraceRungs.cfg", [{"par": r["par"], "ev": r["ev"]} for r in res], batch=200)
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), answers=sum(x["k"] == "ask" for r in res for x in r["ev"]),
            promotions=sum(x["k"] == "ask" and x["prev"] >= 0 for r in res for x in r["ev"]))
    per = rep.cov.setdefault("searchers", {})
    for j in jobs:
        per[j[1][0]] = per.get(j[1][0], 0) + 1
    rep.sample({"searcher": jobs[0][1][0], "par": res[0]["par"], "events": res[0]["ev"][:8]})
    rep.sample({"searcher": jobs[-1][1][0], "par": res[-1]["par"], "events": res[-1]["ev"][:8]})
    seen = {}
    for j, r, v in zip(jobs, res, verd):
        if not v["ok"]:
            seen[j[1][0]] = seen.get(j[1][0], 0) + 1
            if seen[j[1][0]] <= 1:
                rep.violation(explain(j, r, v), {"kind": "rungs", "job": j})


def replay(d):
    j = (d["job"][0], tuple(d["job"][1]))
    r = run_job(j)
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceRungs", "TraceRungs.cfg", [{"par": r["par"], "ev": r["ev"]}])
    for x in r["ev"]:
        print(json.dumps(x))
    if not v[0]["ok"]:
        print(explain(j, r, v[0]))
    return 0 if v[0]["ok"] else 1
