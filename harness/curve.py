"""P30: what plots and TensorBoard show of runs.  Judged by Curve.tla."""

from __future__ import annotations

import contextlib
import io
import logging
import math
import os
import random
import runpy
import shutil
import sys
import warnings

import clireads
import vlib

NONE = 1000000000
AXES = ("evaluations", "key", "more", "time")
NAMES = ("cost", "epochs", "fidelity")


def milli(x):
    x = float(x)
    return int(round(1000 * x)) if math.isfinite(x) else NONE


@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            logging.disable(logging.NOTSET)


# ------------------------------------------------------------------------------- plots
def invent(fates, rng, axis):
    """Evaluations with these fates, in the order in which they are started."""
    out, lines = [], rng.random() < 0.5
    for i, f in enumerate(fates):
        e = {"fate": f, "ok": f == "ok", "crash": f in ("crash", "valued"), "loss": rng.randrange(-3000, 9000), "cost": rng.randrange(1, 9) * 500, "prev": 0, "id": str(i + 1)}
        old = [j for j, o in enumerate(out) if o["ok"] and not any(x["prev"] == j + 1 for x in out)]
        if lines:
            e["id"] = f"{i}_0"
            if old and rng.random() < 0.6:
                j = rng.choice(old)
                a, b = out[j]["id"].split("_")
                e.update(prev=j + 1, id=f"{a}_{int(b) + 1}", cost=out[j]["cost"] + rng.randrange(1, 9) * 500)
        e["start"] = 1000 * i + rng.randrange(1, 400)
        out.append(e)
    ends = rng.sample(range(1, 200), len(out))
    for e, k in zip(out, ends):
        e["stop"] = e["start"] + 500 + 50 * k  # (all different: starts differ by less than 50 in their last digits)
    seen = set()
    for e in out:
        while e["stop"] in seen:
            e["stop"] += 1
        seen.add(e["stop"])
    return out


def write(root, run, key, rng):
    """The run directory, made by the code that makes them in runs."""
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    from neps.state.trial import Trial

    st = create_or_load_filebased_neps_state(directory=root, optimizer_info=OptimizerInfo({"searcher_alg": "a"}),
                                             optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=None, used_cost_budget=0), shared_state={}))
    order = list(range(len(run)))
    rng.shuffle(order)
    for i in order:
        e = run[i]
        prev = run[e["prev"] - 1]["id"] if e["prev"] else None
        t = Trial.new(trial_id=e["id"], config={"x": rng.random()}, location=str(root / "configs" / f"config_{e['id']}"), previous_trial=prev,
                      previous_trial_location=None if prev is None else str(root / "configs" / f"config_{prev}"), time_sampled=1e6 + e["start"] / 1000, worker_id="w")
        st._trials.put_new(t)
        if e["fate"] == "open" and rng.random() < 0.5:
            continue
        t.set_evaluating(time_started=1e6 + e["start"] / 1000, worker_id="w")
        st.put_updated_trial(t)
        if e["fate"] == "open":
            continue
        bad = e["crash"]
        loss = e["loss"] / 1000 if e["ok"] else rng.choice((math.nan, math.inf)) if not bad else None if e["fate"] == "crash" else -99.0
        r = t.set_complete(report_as=rng.choice(("crashed", "failed")) if bad else "success", time_end=1e6 + e["stop"] / 1000, loss=loss, cost=rng.choice((None, 1.0)), learning_curve=None,
                           err=RuntimeError("x") if bad else None, tb="tb" if bad else None, extra={} if bad else {"info_dict": {k: e["cost"] / 1000 for k in NAMES}}, evaluation_duration=1.0)
        st.report_trial_evaluation(t, r, worker_id="w")


@contextlib.contextmanager
def figures():
    """The lines of every figure that is saved."""
    import matplotlib

    matplotlib.use("Agg")
    from matplotlib.figure import Figure

    orig, got = Figure.savefig, []

    def savefig(self, *a, **kw):
        got.append([(ax.get_title(), ln.get_label(), list(map(float, ln.get_xdata())), list(map(float, ln.get_ydata()))) for ax in self.axes for ln in ax.lines])
        return orig(self, *a, **kw)

    Figure.savefig = savefig
    try:
        yield got
    finally:
        Figure.savefig = orig
        import matplotlib.pyplot as plt

        plt.close("all")


def told(run, axis):
    """The evaluations as the specification knows them."""
    fin = [i for i, e in enumerate(run) if e["fate"] != "open"]
    ix = {i: k + 1 for k, i in enumerate(fin)}
    t0 = min(run[i]["start"] for i in fin)
    return [{"ok": run[i]["ok"], "crash": run[i]["crash"], "loss": run[i]["loss"], "cost": run[i]["cost"], "prev": ix.get(run[i]["prev"] - 1, 0), "end": run[i]["stop"] - t0} for i in fin]


def curve(job):
    fates, axis, sd = job
    rng = random.Random(sd)
    key = rng.choice(NAMES) if axis in ("key", "more") else None
    science = rng.random() < 0.6
    bench = rng.sample(("b", "other", "third"), rng.choice((1, 1, 2, 3))) if science else ["example"]
    algos = rng.sample(("rs", "bo"), rng.choice((1, 2))) if science else ["neps"]
    seeds = rng.choice((1, 2, 3)) if science else 1
    rang = None if rng.random() < 0.6 else (lambda a: (a, a + rng.randrange(2, 12)))(rng.randrange(0, 3))
    how = f"neps.plot axis={axis} key={key} seeds={seeds} benchmarks={len(bench)} x_range={rang}"
    d = vlib.tmpdir("curve")
    recs = []
    try:
        with quiet(), figures() as figs:
            runs = {}
            for b in bench:
                for a in algos:
                    for s in range(seeds):
                        fs = list(fates) * rng.choice((1, 1, 2, 3))
                        rng.shuffle(fs)
                        if all(f == "open" for f in fs) or (key and not any(f in ("ok", "odd") for f in fs)):
                            fs.append("ok")
                        run = invent(fs, rng, axis)
                        write(d / f"benchmark={b}" / f"algorithm={a}" / f"seed={s}" / "neps_root_directory" if science else d, run, key, rng)
                        runs.setdefault((b, a), []).append(run)
            kw = {"scientific_mode": science, "key_to_extract": key, "consider_continuations": axis in ("more", "time"), "n_workers": 2 if axis == "time" else 1, "x_range": rang, "log_x": rng.random() < 0.2 and "ok" in fates}
            if science:
                kw.update(benchmarks=bench, algorithms=algos)
            if rng.random() < 0.7:
                from neps.plot.plot import plot

                plot(d if rng.random() < 0.5 else str(d), filename="f", **kw)
            else:
                argv = sys.argv
                sys.argv = ["neps.plot", str(d), "--filename", "f", "--n_workers", str(kw["n_workers"])]
                for k in ("scientific_mode", "consider_continuations", "log_x"):
                    sys.argv += [f"--{k}"] if kw[k] else []
                for k in ("key_to_extract",):
                    sys.argv += [f"--{k}", kw[k]] if kw[k] else []
                for k in ("benchmarks", "algorithms", "x_range"):
                    sys.argv += [f"--{k}", *map(str, kw[k])] if kw.get(k) else []
                how += " (command line)"
                try:
                    runpy.run_module("neps.plot", run_name="__main__", alter_sys=False)
                finally:
                    sys.argv = argv
            if len(figs) != 1 or (d / "f.png").read_bytes()[:4] != b"\x89PNG":
                return [{"kind": "failed", "what": f"{len(figs)} figures", "how": how}]
            want = {(b if science else "", a) for b, a in runs}
            if len(figs[0]) != len(want) or {(t, lb) for t, lb, _, _ in figs[0]} != want:
                return [{"kind": "failed", "what": f"curves {sorted((t, lb) for t, lb, _, _ in figs[0])} instead of {sorted(want)}", "how": how}]
            for (b, a), rs in runs.items():
                _, _, xs, ys = next(x for x in figs[0] if x[:2] == ((b if science else ""), a))
                top = 1.0
                rs = [told(r, axis) for r in rs]
                if key == "fidelity":  # shown as multiples of the largest
                    top = max(e["cost"] for r in rs for e in r if not e["crash"]) / 1000
                line = [{"x": milli(x * top), "y": milli(y)} for x, y in zip(xs, ys) if math.isfinite(x)]
                recs.append({"kind": "curve", "runs": rs, "axis": axis, "from": -NONE if rang is None else int(1000 * rang[0] * top) + 3, "to": NONE if rang is None else int(1000 * rang[1] * top) - 3, "tol": 2, "line": line, "how": how})
    except (Exception, SystemExit) as e:  # noqa: BLE001
        recs = [{"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": how}]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return recs


def incumbents(job):
    fates, sd = job
    rng = random.Random(sd)
    how = "neps results --plot"
    d = vlib.tmpdir("curve")
    try:
        with quiet(), figures() as figs:
            fs = list(fates) * rng.choice((1, 2, 6))
            rng.shuffle(fs)
            run = invent(fs, rng, "evaluations")
            write(d / "r", run, None, rng)
            clireads.command("results", "--root-directory", str(d / "r"), "--plot")
            if len(figs) != 1 or not (d / "r" / "incumbents_evolution.png").exists():
                return [{"kind": "failed", "what": f"{len(figs)} figures", "how": how}]
            pts = [{"x": milli(x), "y": milli(y)} for _, _, xs, ys in figs[0] for x, y in zip(xs, ys)]
        return [{"kind": "incumbents", "run": [{"ok": e["ok"], "loss": e["loss"]} for e in run], "line": pts, "how": how}]
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return [{"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": how}]
    finally:
        shutil.rmtree(d, ignore_errors=True)


# -------------------------------------------------------------------------- TensorBoard
_START = {}


def afresh():
    """The logger as in a new process."""
    import neps.runtime as rt
    from neps.plot.tensorboard_eval import tblogger

    if not _START:
        _START.update({k: v for k, v in vars(tblogger).items() if not k.startswith("__") and not isinstance(v, staticmethod) and not callable(v)})
    for k, v in _START.items():
        setattr(tblogger, k, v)
    getattr(rt, "_TRIAL_END_CALLBACKS", {}).clear()


def board(job):
    """Runs in one process; what is logged, and what is found in the event files afterwards."""
    plan, fid, sd = job
    rng = random.Random(sd)
    how = f"tblogger {'successive_halving' if fid else 'random_search'} {[(r, len(p)) for r, p in plan]}"
    d = vlib.tmpdir("board")
    ev, trouble = [], []
    cwd = os.getcwd()
    try:
        import numpy as np
        import torch

        random.seed(sd), np.random.seed(sd % 2**32), torch.manual_seed(sd)
        with quiet():
            import neps
            from neps.plot.tensorboard_eval import tblogger
            from neps.runtime import get_in_progress_trial, get_workers_neps_state

            afresh()
            n = [0]
            for r, deeds in plan:
                left = list(deeds)
                last = []
                ev.append({"k": "run", "r": r})

                def close(last=last):
                    if last:
                        ev.append({"k": "end", "how": last[0][0], "loss": last[0][1]})
                        last.clear()

                def f(x, e=1, left=left, last=last, close=close):
                    close()
                    t = get_in_progress_trial()
                    first = t
                    while first.metadata.previous_trial_id is not None:
                        first = get_workers_neps_state().get_trial_by_id(first.metadata.previous_trial_id)
                    ev.append({"k": "begin", "id": t.id, "first": first.id})
                    deed = left.pop(0)
                    loss = rng.randrange(-2000, 5000)
                    if deed["off"]:
                        ev.append({"k": "off"})
                        tblogger.disable()
                    for step in range(deed["logs"]):
                        n[0] += 1
                        v, x2 = rng.randrange(1, 900) * 1000 + n[0], rng.choice((NONE, rng.randrange(9000)))
                        sc, hp = rng.random() < 0.8, rng.random() < 0.5
                        ev.append({"k": "log", "step": step, "v": v, "extra": x2, "scalar": sc, "hparam": hp, "inc": deed["inc"]})
                        try:
                            tblogger.log(loss=v / 1000, current_epoch=step, writer_config_scalar=sc, writer_config_hparam=hp, write_summary_incumbent=deed["inc"],
                                         extra_data=None if x2 == NONE else {"mine": tblogger.scalar_logging(x2 / 1000)})
                        except Exception as e:  # noqa: BLE001
                            trouble.append(f"log: {type(e).__name__}: {e}")
                    if tblogger.get_status() != (not deed["off"]):
                        trouble.append("get_status")
                    if deed["off"]:
                        ev.append({"k": "on"})
                        tblogger.enable()
                    last.append((deed["end"], loss))
                    if deed["end"] == "interrupted":
                        close()
                        raise KeyboardInterrupt
                    if deed["end"] == "failed":
                        raise RuntimeError("planned")
                    return loss / 1000

                space = {"x": neps.Float(0, 1)}
                if fid:
                    space["e"] = neps.Integer(1, 9, is_fidelity=True)
                while left:
                    try:
                        neps.run(f, root_directory=d / f"run{r}", pipeline_space=space, searcher="successive_halving" if fid else "random_search", ignore_errors=True,
                                 max_evaluations_per_run=len(left), max_evaluations_total=1000, post_run_summary=False)
                    except KeyboardInterrupt:
                        pass
                    close()
            settle()
            recs = [{"kind": "board", "events": ev, **read(d), "how": how}]
        if trouble:
            recs = [{"kind": "failed", "what": trouble[0], "how": how}]
        return recs
    except (Exception, SystemExit) as e:  # noqa: BLE001
        return [{"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": how}]
    finally:
        os.chdir(cwd)
        afresh()
        shutil.rmtree(d, ignore_errors=True)


def settle():
    """What was logged by an interrupted evaluation may wait to be written until the process ends."""
    import gc

    from torch.utils.tensorboard.writer import SummaryWriter

    for o in gc.get_objects():
        if isinstance(o, SummaryWriter):
            o.close()


def read(d):
    from tensorboard.backend.event_processing.event_file_loader import EventFileLoader
    from tensorboard.util import tensor_util

    shown, graph = [], [[], []]
    for f in sorted(d.rglob("*tfevents*")):
        rel = f.relative_to(d).parts
        r = int(rel[0].removeprefix("run"))
        for e in EventFileLoader(str(f)).Load():
            for v in e.summary.value if e.HasField("summary") else ():
                if v.metadata.plugin_data.plugin_name == "hparams" or v.tag.startswith("_hparams_"):
                    continue
                x = float(v.simple_value if v.HasField("simple_value") else tensor_util.make_ndarray(v.tensor).item())
                if rel[1] == "summary" and v.tag == "Summary/Incumbent_graph":
                    graph[r - 1].append({"step": e.step, "v": milli(x)})
                    continue
                at = rel[2].removeprefix("config_") if rel[1] == "configs" and rel[3] == "tbevents" else "/".join(rel[1:-1])
                tag = {f"config_{at}/Loss": "loss", "Summary/Loss": "summary", f"config_{at}/mine": "extra"}.get(v.tag, v.tag)
                shown.append({"r": r, "dir": at, "tag": tag, "step": e.step, "v": milli(x)})
    return {"shown": shown, "graph": graph}


# ------------------------------------------------------------------------------ check
KINDS = {"curve": curve, "incumbents": incumbents, "board": board}


def run_job(j):
    import torch

    torch.set_num_threads(1)
    return KINDS[j[0]](j[1])


def jobs_for(cases, s, T):
    rng = random.Random(s * 15485863)
    jobs = []
    hs = sorted(tuple(h) for h in cases["histories"])
    for h in rng.sample(hs, len(hs) if T else 120):
        for axis in AXES if T else (rng.choice(AXES),):
            jobs.append(("curve", (h, axis, rng.randrange(1 << 30))))
    for h in rng.sample(hs, len(hs) if T else 40):
        jobs.append(("incumbents", (h, rng.randrange(1 << 30))))
    ds = sorted(cases["deeds"], key=str)
    bag = []
    for k in range(400 if T else 60):
        plan = []
        for _ in range(rng.choice((1, 2, 2, 3))):
            if len(bag) < 8:
                bag = rng.sample(ds, len(ds)) + bag
            plan.append((rng.choice((1, 2)), [bag.pop() for _ in range(rng.choice((1, 2, 4, 7)))]))
        jobs.append(("board", (plan, bool(k % 2), rng.randrange(1 << 30))))
    return jobs


def strip(r):
    return {k: v for k, v in r.items() if k != "how"}


def curves(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "MCCurve", "MCCurve_deep.cfg" if T else "MCCurve.cfg", timeout=1500)
    for f in ("writer", "graph", "wish"):
        rep.model("MCCurve", f"MCCurve_{f}.cfg", expect="Faithful")
    jobs = jobs_for(cases, s, T)
    random.Random(s).shuffle(jobs)
    res = vlib.pmap(run_job, jobs, chunk=2)
    flat = [(j, r) for j, rs in zip(jobs, res) for r in rs]
    verd = vlib.table(rep, "TableCurve", "Table.cfg", [strip(r) for _, r in flat])
    rep.add(traces_validated_against_impl=len(flat))
    rep.cov["kinds"] = {k: sum(r["kind"] == k for _, r in flat) for k in sorted({r["kind"] for _, r in flat})}
    rep.cov["axes"] = {a: sum(r.get("axis") == a for _, r in flat) for a in AXES}
    rep.cov["points"] = sum(len(r.get("line", ())) + len(r.get("shown", ())) for _, r in flat)
    rep.sample(flat[0][1])
    rep.sample(flat[-1][1])
    seen = {}
    for (j, r), v in zip(flat, verd):
        if v:
            k = (j[0], tuple(sorted(v)))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1:
                rep.violation(f"{r['how']}: wrong {sorted(v)}: {str(strip(r))[:900]}", {"kind": "curve", "job": j})
    if seen:
        rep.cov["wrong"] = {str(k): n for k, n in seen.items()}


def replay(d):
    k, x = d["job"]
    rs = run_job((k, tuple(x) if isinstance(x, list) else x))
    v = vlib.table(None, "TableCurve", "Table.cfg", [strip(r) for r in rs])
    for r, b in zip(rs, v):
        if b:
            print(sorted(b), r)
    return 1 if any(v) else 0
