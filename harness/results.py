"""P12 (meaning of results) and P13 (what is stored is what is read), from Result.tla and TrialLife.tla."""

from __future__ import annotations

import dataclasses
import enum
import json
import math
import random
import shutil
from pathlib import Path

import vlib

# ------------------------------------------------------------------- values
def values(rng):
    """Different numbers for the result's loss and cost, the default cost, and loss and cost for errors; one of them may be zero."""
    v = rng.sample([7.25, 3.5, 11.0, 90.5, 17.0, -2.5, 1024.0, -1.0, 0.125, 1.0, 2.0**-20], 5)
    if rng.random() < 0.8:
        v[rng.randrange(5)] = 0.0
    return dict(zip(range(1, 6), v))


def flavour(v: float, rng):
    import numpy as np
    import torch

    opts = [lambda: v, lambda: np.float64(v), lambda: np.float32(v), lambda: torch.tensor(v), lambda: np.array(v)]
    if v == int(v):
        opts += [lambda: int(v), lambda: np.int64(v), lambda: torch.tensor(int(v))]
    return rng.choice(opts)()


def shape(c, rng):
    import numpy as np
    import torch

    return rng.choice((list, list, tuple, lambda c: np.array([float(x) for x in c]), lambda c: torch.tensor([float(x) for x in c])))(c)


def bad(rng):
    return rng.choice(["abc", None, [1, 2], {"x": 1}, object()])


def new_state(d: Path):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import OptimizationState, OptimizerInfo

    return create_or_load_filebased_neps_state(
        d, optimizer_info=OptimizerInfo({"a": 1}), optimizer_state=OptimizationState(budget=None, shared_state={}))


class Fixed:
    """An optimizer that proposes one given configuration."""

    def __init__(self, config, prev=None):
        self.config, self.prev = config, prev

    def ask(self, trials, budget_info):
        from neps.optimizers.base_optimizer import SampledConfig

        return SampledConfig(id=str(len(trials) + 1), config=self.config, previous_config_id=self.prev)


def one_result(job):
    """Evaluate a case of Result.tla with the real code; returns the difference, if any."""
    cases, seed = job
    import neps  # noqa: F401
    from neps.state._eval import evaluate_trial
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues

    d = vlib.tmpdir("res")
    out = []
    st = None
    for n, c in enumerate(cases):
        if n % 40 == 0:
            if st is not None:
                shutil.rmtree(d / "r", ignore_errors=True)
            st = new_state(d / "r")
        i, e = c["in"], c["exp"]
        rng = random.Random(f"{seed}-{json.dumps(i, sort_keys=True)}")
        VALS = values(rng)
        curve = shape([5.0, flavour(4.0, rng), 3], rng)
        kept = {}  # the function may return the same object again
        extra = {"note": "x", "nested": {"k": [1, 2.5, None, True]}}

        class Boom(RuntimeError):
            pass

        def fn(a, pipeline_directory=None):
            if "result" not in kept:
                kept["result"] = result()
            return kept["result"]

        def result():
            f = i["form"]
            if f == "raise":
                raise Boom("planned")
            if f == "nothing":
                return None
            if f == "text":
                return "abc"
            if f == "list":
                return [1.0, 2.0]
            if f == "number":
                return flavour(VALS[1], rng)
            r = {}
            if i["loss"] != "absent":
                r["loss"] = flavour(VALS[1], rng) if i["loss"] == "number" else bad(rng)
            if i["cost"] != "absent":
                b = bad(rng)
                r["cost"] = flavour(VALS[2], rng) if i["cost"] == "number" else ("abc" if b is None else b)
            if i["info"]:
                r["info_dict"] = {"acc": 0.5}
            if i["curve"] == "top":
                r["learning_curve"] = curve
            elif i["curve"] == "info":
                r["info_dict"]["learning_curve"] = curve
            elif i["curve"] == "bad":
                r["learning_curve"] = rng.choice([["abc"], 3.0, [None]])
            if i["extra"]:
                r.update(extra)
            return r

        for again in (0, 1) if i["form"] == "dict" and i["curve"] in ("info", "top") else (0,):
          try:
            trial = st.sample_trial(Fixed({"a": 1.5}), worker_id="w1")
            trial.set_evaluating(time_started=1.0, worker_id="w2")
            st.put_updated_trial(trial)
            trial, report = evaluate_trial(trial, evaluation_fn=fn, default_report_values=DefaultReportValues(
                loss_value_on_error=VALS.get(i["eloss"]), cost_value_on_error=VALS.get(i["ecost"]),
                cost_if_not_provided=VALS.get(i["dcost"]), learning_curve_on_error=[9.0, 9.5] if i["ecurve"] else None,
                learning_curve_if_not_provided=None if i["dcurve"] == "none" else "loss"))
            st.report_trial_evaluation(trial, report, worker_id="w2")
            got = load_filebased_neps_state(d / "r").get_trial_by_id(trial.id)
            errs = [x for x in st.get_errors().errs if x.trial_id == trial.id]
            for where, t, r in (("in memory", trial, report), ("on disk", got, got.report)):
                want = {
                    "as": e["as"], "state": e["state"], "loss": VALS.get(e["loss"]), "cost": VALS.get(e["cost"]),
                    "curve": {"none": None, "given": [5.0, 4.0, 3.0], "loss": [VALS[1]], "error": [9.0, 9.5]}[e["curve"]],
                    "err": e["err"], "tb": e["err"], "log": int(e["err"]), "by": "w2", "smp": "w1", "cfg": {"a": 1.5},
                    "extra": {**({"info_dict": {"acc": 0.5}} if e["info"] else {}), **(extra if e["extra"] else {})},
                }
                have = {
                    "as": r.reported_as, "state": t.state.value, "loss": r.loss, "cost": r.cost, "curve": r.learning_curve,
                    "err": r.err is not None, "tb": bool(r.tb), "log": len(errs), "by": t.metadata.evaluating_worker_id,
                    "smp": t.metadata.sampling_worker_id, "cfg": dict(t.config), "extra": dict(r.extra),
                }
                if i["form"] == "raise" and ("planned" not in str(r.err) or "Boom" not in r.tb):
                    have["err"] = f"the original error is lost: {r.err} {r.tb}"
                if have != want:
                    k = [x for x in want if want[x] != have[x]]
                    out.append((i, f"{where}: {', '.join(f'{x} is {have[x]!r}, not {want[x]!r}' for x in k)}"))
                    break
            if not (t.metadata.evaluation_duration is not None and t.metadata.evaluation_duration >= 0 and r.evaluation_duration == t.metadata.evaluation_duration):
                out.append((i, "the duration of the evaluation is not recorded"))
          except Exception as x:  # noqa: BLE001
            out.append((i, f"fails with {x!r}"))
    shutil.rmtree(d, ignore_errors=True)
    return out


def meaning(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "Result", "Result.cfg")
    random.Random(s).shuffle(cases)
    if not T:
        cases = cases[:2000]
    jobs = [(cases[j::32], s + k) for j in range(32) for k in range(3 if T else 1)]
    res = vlib.pmap(one_result, jobs, chunk=1)
    rep.add(traces_validated_against_impl=sum(len(j[0]) for j in jobs))
    rep.sample(cases[0])
    n = 0
    for (cs, sd), r in zip(jobs, res):
        for i, what in r:
            n += 1
            if n <= 3:
                rep.violation(f"result {json.dumps(i)}: {what}", {"kind": "result", "cases": [c for c in cs if c["in"] == i], "seed": sd})


# ------------------------------------------------------------ storing and reading
def tricky():
    import numpy as np

    return [
        0.1 + 0.2, 1e-300, 1.7976931348623157e308, 5e-324, -0.0, 1e22, 123456789.123456789, float("inf"), float("nan"),
        0, -1, 10**15, 2**63, True, False, None, "", "1", "1.0", "1e5", "1.0e+5", "yes", "no", "on", "null", "~", "true", "None",
        "2024-01-01", "12:30:00", "0x10", "0o7", "a: b", "- x", "#c", "'q'", '"dq"', " lead", "trail ", "tab\there", "new\nline",
        "ümläut", "日本語", "emoji 🎉", "back\\slash", "%", "@x", "!tag", "&a", "*a", "[1]", "{a}", "x" * 300, "(A (B c) (D e))", "\x07bell",
        [1, 2.5, "x"], [], {}, {"k": {"n": [None, True]}}, {"1": 1}, np.float64(0.1), np.int64(3), np.float32(0.5), np.bool_(True), np.str_("s"),
    ]


class Colour(enum.Enum):
    RED = "red"


@dataclasses.dataclass
class Point:
    x: float
    names: tuple


def tricky_results():
    """What an evaluation may add to its result."""
    import numpy as np
    import torch

    return tricky() + [np.array(2.5), np.array([1, 2]), np.array([[0.5, 1e-20]]), np.array("s"), torch.tensor(3), torch.tensor(0.25, dtype=torch.float64),
                       torch.tensor([1.0, 2.5], dtype=torch.float64), torch.ones(2, 1, requires_grad=True), (1, "x"), {"a": np.array([True]), "b": (torch.tensor(1),)},
                       Colour.RED, Point(0.5, ("a", "b"))]


def plain(x):
    import numpy as np
    import torch

    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, (np.ndarray, torch.Tensor)):
        return x.tolist()
    if isinstance(x, enum.Enum):
        return x.value
    if dataclasses.is_dataclass(x):
        return plain(dataclasses.asdict(x))
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def same(a, b) -> bool:
    """Equal in value and type."""
    if isinstance(a, float) and isinstance(b, float):
        return (math.isnan(a) and math.isnan(b)) or (a == b and math.copysign(1, a) == math.copysign(1, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(sorted(a)) == list(sorted(b)) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def rec_of(t) -> dict:
    m = t.metadata
    return {"st": t.state.value, "sub": m.time_submitted is not None, "beg": m.time_started is not None,
            "by": 0 if m.evaluating_worker_id is None else int(m.evaluating_worker_id.rsplit("@", 1)[1]),
            "fin": m.time_end is not None, "rep": "none" if t.report is None else t.report.reported_as}


def one_life(job):
    behs, seed = job
    from neps.state import Trial
    from neps.state.filebased import TrialRepoInDirectory

    d = vlib.tmpdir("life")
    out = []
    vals, more = tricky(), tricky_results()
    for n, beh in enumerate(behs):
        rng = random.Random(f"{seed}-{n}-{len(behs)}")
        root = d / str(n)
        root.mkdir()
        cfg = {f"p{j}": rng.choice(vals) for j in range(3)}
        cfg[rng.choice(["name with space", "ünicode", "yes", "1", "a.b", "x:y"])] = rng.choice(vals)
        prev = rng.choice([None, "3_0", "12"])
        # a repeated sampling time etc. must survive exactly as well
        times = [rng.random() * 1e9 for _ in range(6)]
        tid = rng.choice(["1", "10", "0_2", "007", "a b", "x-y.z"])
        t = Trial.new(trial_id=tid, config=cfg, location="", previous_trial=prev,
                      previous_trial_location=None if prev is None else str(root / f"config_{prev}"),
                      time_sampled=times[0], worker_id=rng.choice(["w@1", "host:1234@1", "1@1"]))
        want_rep, saved = None, None
        seq = []
        try:
            for st in beh:
                op, w = st["op"], st["arg"]
                seq.append(op)
                if op == "submit":
                    t.set_submitted(time_submitted=times[1])
                elif op == "evaluate":
                    t.set_evaluating(time_started=times[2], worker_id=f"host:99@{w}")
                elif op in ("success", "failed", "crashed"):
                    loss, cost = rng.choice([1.5, 2, float("nan"), float("inf"), -0.0, None]), rng.choice([None, 0, 2.25, 1e-17])
                    extra = {"info_dict": rng.choice([{}, {"v": rng.choice(more)}]), "k": rng.choice(more)}
                    err = None if op == "success" else ValueError(rng.choice(["boom", "multi\nline: x", "ünicode 🎉", ""]))
                    curve = rng.choice([None, [1, 2.5], [], [float("nan"), 1e-20]])
                    t.report = t.set_complete(report_as=op, time_end=times[3], loss=loss, cost=cost, learning_curve=curve, err=err,
                                              tb=None if err is None else "Traceback\n  x: 'y'\n", extra=extra, evaluation_duration=times[4])
                    want_rep = {"loss": None if loss is None else float(loss), "cost": None if cost is None else float(cost),
                                "curve": None if curve is None else [float(c) for c in curve], "extra": plain(extra),
                                "err": None if err is None else str(err), "dur": times[4], "tb": None if err is None else "Traceback\n  x: 'y'\n",
                                "id": tid}
                elif op == "reset":
                    t.reset()
                elif op == "corrupt":
                    t.set_corrupted()
                elif op == "save":
                    repo = TrialRepoInDirectory(root)
                    if saved is None:
                        repo.put_new(t)
                    else:
                        repo.get_by_id(tid).put(t)
                    saved = True
                obs = t
                if op == "load":
                    repo = TrialRepoInDirectory(root)
                    ids = repo.all_trial_ids()
                    if saved is None:
                        have = {"st": "missing", "sub": False, "beg": False, "by": 0, "fin": False, "rep": "none"} if not ids else {"st": f"there are {ids}"}
                        obs = None
                    elif ids != {tid}:
                        have, obs = {"st": f"there are {ids}"}, None
                    else:
                        obs = repo.get_by_id(tid).synced()
                if obs is not None:
                    have = rec_of(obs)
                if have != st["seen"]:
                    out.append((beh, cfg, f"after {seq} there is {have}, not {st['seen']}"))
                    break
                if op == "load" and obs is not None:
                    m, r = obs.metadata, obs.report
                    fixed = {"id": tid, "previous_trial_id": prev, "time_sampled": times[0], "location": str(root / f"config_{tid}"),
                             "sampling_worker_id": t.metadata.sampling_worker_id,
                             "previous_trial_location": None if prev is None else str(root / f"config_{prev}")}
                    fixed.update(time_submitted=times[1] if st["seen"]["sub"] else None, time_started=times[2] if st["seen"]["beg"] else None,
                                 time_end=times[3] if st["seen"]["fin"] else None, evaluation_duration=times[4] if st["seen"]["fin"] else None)
                    diff = [f"{k} is {getattr(m, k)!r}, not {v!r}" for k, v in fixed.items() if not same(getattr(m, k), v)]
                    if not same(plain(dict(obs.config)), plain(cfg)) or any(type(v).__module__ == "numpy" for v in obs.config.values()):
                        diff.append(f"config is {obs.config!r}, not {cfg!r}")
                    if r is not None:
                        hr = {"loss": r.loss, "cost": r.cost, "curve": r.learning_curve, "extra": plain(dict(r.extra)),
                              "err": None if r.err is None else str(r.err), "dur": r.evaluation_duration, "tb": r.tb, "id": r.trial_id}
                        diff += [f"report {k} is {hr[k]!r}, not {want_rep[k]!r}" for k in hr if not same(hr[k], want_rep[k])]
                    if diff:
                        out.append((beh, cfg, f"after {seq}: {'; '.join(diff)}"))
                        break
        except Exception as x:  # noqa: BLE001
            out.append((beh, cfg, f"after {seq}: fails with {x!r}"))
        shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(d, ignore_errors=True)
    return out


def roundtrip(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    behs = vlib.generate(rep, "TrialLife", "TrialLife6.cfg" if T else "TrialLife.cfg")
    loaded = [b for b in behs if any(x["op"] == "save" for x in b)]
    loaded += [b for b in behs if b not in loaded][:50] if not T else []
    reps = 4
    jobs = [(loaded[j::32], s * 100 + k * 32 + j) for j in range(32) for k in range(reps)]
    res = vlib.pmap(one_life, jobs, chunk=1)
    rep.add(traces_validated_against_impl=reps * len(loaded))
    rep.sample(loaded[-1])
    n = 0
    for (bs, sd), r in zip(jobs, res):
        for beh, cfg, what in r:
            n += 1
            if n <= 3:
                rep.violation(what, {"kind": "life", "behaviours": bs, "seed": sd})
    # the random state: every value that is stored is the value that is restored
    for what in vlib.pmap(seed_life, range(s * 1000, s * 1000 + (400 if T else 80))):
        rep.add(seed_states=1)
        if what:
            rep.violation(what[0], {"kind": "seed", "n": what[1]})


def seed_life(n):
    """Save the random state, disturb it, restore it from disk: the streams continue identically."""
    import numpy as np
    import torch

    from neps.state import SeedSnapshot
    from neps.state.filebased import ReaderWriterSeedSnapshot

    rng = random.Random(n)
    d = vlib.tmpdir("seed")

    def use(k):
        out = []
        for c in k:
            out.append({"r": random.random, "g": lambda: random.gauss(0, 1), "i": lambda: random.randrange(1000), "n": np.random.rand,
                        "s": np.random.standard_normal, "t": lambda: torch.rand(1).item(), "z": lambda: torch.randn(1).item()}[c]())
        return out

    random.seed(n), np.random.seed(n % 2**32), torch.manual_seed(n)
    try:
        for w in range(4):  # stored over and over in the same place
            use([rng.choice("rginstz") for _ in range(rng.randrange(0, 12))])
            ReaderWriterSeedSnapshot.write(SeedSnapshot.new_capture(), d)
            k = [rng.choice("rginstz") for _ in range(12)] + list("rgnstz")
            a = use(k)
            use("rgnstz" * 3)
            ReaderWriterSeedSnapshot.read(d).set_as_global_seed_state()
            b = use(k)
            if a != b:
                return (f"the random state that was stored is not the one restored (state {n}, write {w + 1}, first difference at draw "
                        f"{[x == y for x, y in zip(a, b)].index(False)} of {''.join(k)})", n)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None


def replay(d):
    if d["kind"] == "result":
        r = one_result((d["cases"], d["seed"]))
    elif d["kind"] == "life":
        r = one_life((d["behaviours"], d["seed"]))
    else:
        r = [x for x in [seed_life(d["n"])] if x]
    for x in r:
        print(x)
    return 1 if r else 0
