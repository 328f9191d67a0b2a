"""P20: the status of a run, in every form, agrees with its configurations.  Judged by Summary.tla."""

from __future__ import annotations

import contextlib
import io
import math
import random
import re
import shutil

import vlib

INF, NAN = 9, 10


def rank(x, losses):
    """The rank of a loss in the specification."""
    if x is None or (isinstance(x, float) and math.isnan(x)):
        return NAN
    x = float(x)
    if x == math.inf:
        return INF
    return next((k for k, v in losses.items() if v == x), 99)


def build(root, cs, rng, losses=None, info=None):
    """A run directory with these configurations, made by the code that makes them in runs."""
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    from neps.state.trial import Trial

    st = create_or_load_filebased_neps_state(directory=root, optimizer_info=OptimizerInfo(info or {"a": 1}),
                                             optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=None, used_cost_budget=0), shared_state={}))
    pos = rng.random() < 0.5
    losses = losses or ({1: 0.25, 2: 0.5, 3: 7.0, -1: -math.inf} if pos else {1: -3.0, 2: 0.0, 3: 1e-9, -1: -math.inf})
    names = [str(i + 1) for i in range(len(cs))] if rng.random() < 0.5 else [f"{i}_{rng.randrange(3)}" for i in range(8, 8 + len(cs))]
    cfg = {}
    trials = []
    for i, c in enumerate(cs):
        cfg[names[i]] = {"x": rng.random(), "n": rng.randrange(9), "c": rng.choice(("a", "b c", ""))}
        if i and rng.random() < 0.3:  # the same values once more
            cfg[names[i]] = dict(cfg[names[rng.randrange(i)]])
        t = Trial.new(trial_id=names[i], config=dict(cfg[names[i]]), location="", previous_trial=None, previous_trial_location=None, time_sampled=float(i), worker_id="w")
        st._trials.put_new(t)
        trials.append(t)
    order = list(range(len(cs)))
    rng.shuffle(order)
    for i in order:
        c, t = cs[i], trials[i]
        if c["st"] == "pending":
            continue
        t.set_evaluating(time_started=1.0, worker_id="w")
        st.put_updated_trial(t)
        if c["st"] == "evaluating":
            continue
        bad = c["st"].startswith("fail")
        loss = (None if c["st"] == "failed" else losses[1] - 1) if bad else math.nan if c["l"] == NAN else math.inf if c["l"] == INF else losses[c["l"]]
        extra = {} if bad else rng.choice(({}, {"info_dict": {"acc": 0.5}}, {"info_dict": {}}))
        r = t.set_complete(report_as=rng.choice(("crashed", "failed")) if bad else "success", time_end=2.0, loss=loss, cost=rng.choice((None, 1.0)), learning_curve=None if bad else rng.choice((None, [1.0])),
                           err=RuntimeError("x") if bad else None, tb="tb" if bad else None, extra=extra, evaluation_duration=1.0)
        at = root / "configs" / f"config_{t.id}"
        before = {f.name: f.read_bytes() for f in at.iterdir()}
        st.report_trial_evaluation(t, r, worker_id="w")
        if c["st"] == "half":  # all but the result itself as it was
            for n, b in before.items():
                (at / n).write_bytes(b)
    return names, cfg, losses


def number(text):
    return math.nan if text in ("", "nan", "None") else float(text)


def observe(root, cs, names, cfg, losses, rng):
    import pandas as pd

    import neps
    from neps.status.status import post_run_csv

    ix = {n: i + 1 for i, n in enumerate(names)}
    arg = root if rng.random() < 0.5 else str(root)
    s = neps.get_summary_dict(arg, add_details=True)
    plain = neps.get_summary_dict(arg)

    def bad(what):
        return {"k": "failed", "what": what}

    if any(plain[k] != s[k] and plain[k] == plain[k] for k in plain):
        return bad("summary with details differs from the one without")

    def nums(g):
        b = g["best_config_id"]
        return {"evaluated": int(float(g["num_evaluated_configs"])), "pending": int(float(g["num_pending_configs"])), "worker": int(float(g["num_pending_configs_with_worker"])),
                "errors": int(float(g["num_error"])), "best": 0 if b is None or b != b or b in ("", "None") else ix.get(str(b), 77), "loss": rank(float(g["best_loss"]), losses)}

    sm = nums(s)
    if sm["best"] in range(1, len(cs) + 1):
        b = s["best_config_id"]
        if dict(s["best_config"]) != cfg[b] or s["best_config_metadata"]["id"] != b:
            return bad("best configuration does not belong to its number")
    for k, v in s["previous_results"].items():
        c = cs[ix[k] - 1] if k in ix else None
        if c is None or dict(v.config) != cfg[k] or (rank(v.loss, losses) != c["l"] if c["st"] in ("success", "half") else v.result != "error"):
            return bad(f"details of {k}")
    if any(dict(v) != cfg.get(k) for k, v in s["pending_configs"].items()):
        return bad("details of pending configurations")
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        done, open_ = neps.status(arg)
    if list(done) != list(s["previous_results"]) or dict(open_) != s["pending_configs"]:
        return bad("status returns something else than the summary")
    text = out.getvalue()

    def line(label):
        m = re.search(rf"^{re.escape(label)}: (.*)$", text, re.M)
        return m.group(1) if m else None

    printed = {"num_evaluated_configs": line("#Evaluated configs"), "num_pending_configs": line("#Pending configs"), "num_pending_configs_with_worker": line("#Pending configs with worker"),
               "num_error": line("#Crashed configs"), "best_loss": line("Best loss") or "inf", "best_config_id": line("Best config id")}
    with contextlib.redirect_stdout(out):
        quiet = neps.status(arg, print_summary=False)
    if list(quiet[0]) != list(done):
        return bad("quiet status")
    f, g = post_run_csv(arg)
    run = {a: b for a, b in pd.read_csv(g, dtype=str).fillna("").itertuples(index=False)}
    df = pd.read_csv(f, dtype={"config_id": str, "config.c": str}, keep_default_na=False, na_values={"result.loss": ["", "nan"]}, float_precision="round_trip")
    rows = []
    for _, r in df.iterrows():
        i = r["config_id"]
        c = cfg.get(i)
        ok = c is not None and float(r["config.x"]) == c["x"] and int(float(r["config.n"])) == c["n"] and r["config.c"] == c["c"] and r["status"] in ("complete", "pending")
        rows.append({"i": ix.get(i, 99), "done": r["status"] == "complete", "l": rank(float(r["result.loss"]), losses), "config": bool(ok)})
    return {"k": "ok", "cs": cs, "sum": sm, "printed": nums(printed), "csv": nums({k: (v if v != "" else None) for k, v in run.items()}),
            "done": [ix.get(k, 99) for k in done], "open": [ix.get(k, 99) for k in open_], "free": [ix.get(k, 99) for k in s["pending_configs_free"]], "rows": rows}


def job(j):
    cs, sd = j
    rng = random.Random(sd)
    d = vlib.tmpdir("sum")
    try:
        names, cfg, losses = build(d / "r", cs, rng)
        try:
            return observe(d / "r", cs, names, cfg, losses, rng)
        except Exception as e:  # noqa: BLE001
            import traceback

            return {"k": "failed", "what": f"{type(e).__name__}: {e} in {traceback.extract_tb(e.__traceback__)[-1].name}"}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def trajectories(rep):
    """The options of status that show trajectories."""
    import neps

    d = vlib.tmpdir("sum")
    build(d / "r", [{"st": "success", "l": 1}], random.Random(1))
    for opt in ("best_losses", "best_configs", "all_configs"):
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                neps.status(d / "r", **{opt: True})
        except Exception as e:  # noqa: BLE001
            rep.violation(f"status({opt}=True) of a run with one successful evaluation: {type(e).__name__}", {"kind": "summary", "job": [opt]})
    shutil.rmtree(d, ignore_errors=True)


def summary(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "MCSummary", "MCSummary.cfg")
    rng = random.Random(s * 31337)
    jobs = []
    for cs in cases:
        for _ in range(12 if T else 1):
            c = list(cs)
            rng.shuffle(c)
            jobs.append((c, rng.randrange(1 << 30)))
    for _ in range(3000 if T else 150):
        c = [rng.choice(rng.choice(cases) or [{"st": "pending", "l": 0}]) for _ in range(rng.randrange(5, 14))]
        jobs.append((c, rng.randrange(1 << 30)))
    res = vlib.pmap(job, jobs)
    verd = vlib.table(rep, "TableSummary", "Table.cfg", res)
    rep.add(traces_validated_against_impl=len(jobs))
    rep.sample(res[-1])
    for j, x, v in zip(jobs, res, verd):
        if v and len(rep.violations) < 4:
            rep.violation(f"configurations {[(c['st'], c['l']) for c in j[0]]}: wrong {sorted(v)}: {x}", {"kind": "summary", "job": j})
    trajectories(rep)


def replay(d):
    if len(d["job"]) == 1:
        rep = vlib.Report("P20")
        trajectories(rep)
        print(*rep.known, *[v["what"] for v in rep.violations], sep="\n")
        return 1 if rep.violations else 0
    x = job(tuple(d["job"]))
    v = vlib.table(None, "TableSummary", "Table.cfg", [x])
    if v[0]:
        print(sorted(v[0]), x)
    return 1 if v[0] else 0
