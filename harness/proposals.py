"""P17: what is proposed is a point of the declared space, and every part of the space can be.  Judged by Space.tla."""

from __future__ import annotations

import random
import shutil

import vlib
from rungs import MODE, MODEL, NOES, PRIOR, classes

PLAIN = ("RandomSearch", "RandomSearchPriors", "GridSearch", "BayesianOptimization", "PiBO", "PiBODefault")
GP = {"BayesianOptimization", "PiBO", "PiBODefault"}


# ------------------------------------------------------------------ declared spaces
def concrete(cls, rng, default):
    """A parameter of a class and how it was declared."""
    import neps

    conf = rng.choice(("low", "medium", "high"))
    kw = {"default_confidence": conf}
    if cls == "const":
        v = rng.choice((3, 0, "x", 2.5, True, ""))
        return neps.Constant(v), {"k": "const", "vals": [v], "d": None}
    if cls.startswith("cat"):
        ch = {"cat2": ["a", "b"], "cat5": [1, 2, 4, 8, 16], "catmixed": ["1", 1, 2.5, "off", ""], "catbool": [True, False]}[cls]
        ch = rng.sample(ch, len(ch))
        d = rng.choice(ch) if default else None
        return neps.Categorical(ch, default=d, **kw), {"k": "cat", "vals": ch, "d": d}
    if cls.startswith("float"):
        lo, hi = {"float": (0.0, rng.choice((1.0, 0.3, 10.0))), "floatlog": rng.choice(((1e-6, 10.0), (0.1, 1000.0), (1e-3, 0.3), (3e-5, 7e-2))),
                  "floatwide": (-1e7, 3e7), "floattiny": (0.7, 0.7000001), "floatneg": (-5.3, -0.1)}[cls]
        log = cls == "floatlog"
        d = rng.choice((lo, hi, lo + (hi - lo) * rng.random())) if default else None
        return neps.Float(lo, hi, log=log, default=d, **kw), {"k": "float", "lo": lo, "hi": hi, "d": d, "log": log}
    lo, hi = {"int2": (0, 1), "int": (-3, rng.choice((4, 60))), "intlog": rng.choice(((1, 1000), (10, 20000), (1, 4))), "intbig": (7, 10**9 - 1)}[cls]
    log = cls == "intlog"
    d = rng.choice((lo, hi, rng.randint(lo, hi))) if default else None
    return neps.Integer(lo, hi, log=log, default=d, **kw), {"k": "int", "lo": lo, "hi": hi, "d": d, "log": log}


def declare(case, rng):
    """The space of a case; names are chosen so that their order is arbitrary."""
    import neps

    names = rng.sample(["a", "b", "B", "lr", "x_1", "z"], 2)
    hps, decl = {}, {}
    for n, c, i in ((names[0], case["a"], 0), (names[1], case["b"], 1)):
        hps[n], decl[n] = concrete(c, rng, case["prior"] == "all" or (case["prior"] == "some" and i == 0))
    if case["fid"] != "none":
        n = rng.choice(("e", "Z", "budget"))
        log = case["fid"] == "intlog"
        lo, hi = (0.5, 9.0) if case["fid"] == "float" else (1, 9)
        hps[n] = (neps.Float if case["fid"] == "float" else neps.Integer)(lo, hi, log=log, is_fidelity=True)
        decl[n] = {"k": "float" if case["fid"] == "float" else "int", "lo": lo, "hi": hi, "d": None, "fid": True}
    return hps, decl


def build(name, hps, rng):
    """An optimizer on the space, or None if it is not made for such a space."""
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
    from neps.optimizers.grid_search.optimizer import GridSearch
    from neps.optimizers.random_search.optimizer import RandomSearch
    from neps.search_spaces.search_space import SearchSpace

    sp = SearchSpace(**hps)
    if name == "RandomSearch":
        return RandomSearch(pipeline_space=sp)
    if name == "RandomSearchPriors":
        return RandomSearch(pipeline_space=sp, use_priors=True)
    if name == "GridSearch":
        return GridSearch(sp, grid_step_size=3)
    if name in GP:
        return BayesianOptimization(sp, initial_design_size=rng.choice((1, 2, None)), use_priors=name != "BayesianOptimization",
                                    sample_default_first=name == "PiBODefault")
    kw = {"pipeline_space": sp, "budget": 1, "eta": 3, "ignore_errors": True}
    if name in PRIOR:
        kw["sample_default_first"] = rng.random() < 0.5
    o = classes()[name](**kw)
    if name in MODEL:
        o.init_size = rng.choice((2, o.init_size))
    return o


def suits(name, case):
    fid = case["fid"] != "none"
    dims = [c for c in (case["a"], case["b"]) if c != "const"]
    if name in GP:
        return not fid and bool(dims)
    if name == "GridSearch":
        return True
    if name in MODE:
        if not fid:
            return False
        if name in PRIOR and case["prior"] != "all":
            return False
        return bool(dims)
    return True


def same(a, b):
    return type(a) is type(b) and a == b


def rank(x, xs):
    return sorted(set(xs)).index(x)


TYPES = {float: "float", int: "int", str: "str", bool: "bool"}


def record(decl, config, rule, first, fresh, prev):
    ps, vs = [], []
    for n, d in decl.items():
        p = {"n": n, "k": d["k"], "fid": bool(d.get("fid")), "lo": 0, "hi": 0, "d": -1}
        if d["k"] in ("cat", "const"):
            p["hi"] = len(d["vals"]) - 1
            if d["d"] is not None:
                p["d"] = next(i for i, v in enumerate(d["vals"]) if same(v, d["d"]))
        else:
            xs = [d["lo"], d["hi"]] + ([d["d"]] if d["d"] is not None else [])
            v = config.get(n)
            if isinstance(v, (int, float)) and v == v:
                xs.append(v)
            p["lo"], p["hi"] = rank(d["lo"], xs), rank(d["hi"], xs)
            p["d"] = -1 if d["d"] is None else rank(d["d"], xs)
        ps.append(p)
    for n, v in config.items():
        t, r = TYPES.get(type(v), "other"), -1
        d = decl.get(n)
        if d and d["k"] in ("cat", "const"):
            r = next((i for i, c in enumerate(d["vals"]) if same(c, v)), -1)
        elif d and isinstance(v, (int, float)) and v == v:
            r = rank(v, [d["lo"], d["hi"], v] + ([d["d"]] if d["d"] is not None else []))
        vs.append({"n": n, "t": t, "r": r})
    return {"kind": "config", "answered": True, "ps": ps, "vs": vs, "rule": rule, "first": first, "fresh": fresh, "prev": prev}


LOST = {"kind": "config", "answered": False, "ps": [], "vs": [], "rule": "any", "first": False, "fresh": True, "prev": True}


def seed_all(s):
    import numpy as np
    import torch

    random.seed(s), np.random.seed(s % 2**32), torch.manual_seed(s)
    return random.Random(s)


def outcome(t, o, rng):
    """What became of an evaluation; o: ok, good, bad, tie, zero, neg, nan, inf, ninf, huge, fail, failval."""
    loss = {"ok": rng.random(), "good": rng.random() / 100, "bad": 1 + rng.random() * 9, "tie": 0.5, "zero": 0.0, "neg": -rng.random(), "nan": float("nan"),
            "inf": float("inf"), "ninf": float("-inf"), "huge": 1e300, "fail": None, "failval": 7.0}[o]
    bad = o in ("fail", "failval")
    t.report = t.set_complete(report_as="crashed" if bad else "success", time_end=1.0, loss=loss, cost=None if bad else 1.0, learning_curve=None,
                              err=RuntimeError("x") if bad else None, tb=None, extra=None, evaluation_duration=1.0)


def converse(name, opt, decl, n, mix, o, rng, grid_end=None):
    """Ask n times; mix: the outcomes of the evaluations ("run": never finished).  Yields the records."""
    from neps.state.trial import Trial

    recs, trials, how = [], {}, "ok"
    rule = "max" if name not in MODE and name != "GridSearch" else "any"
    first = name == "PiBODefault"
    for i in range(n):
        items = list(trials.items())
        rng.shuffle(items)
        try:
            s = opt.ask(dict(items), None)
        except Exception as e:  # noqa: BLE001
            import traceback

            if name == "GridSearch" and "exhausted" in str(e) and trials:
                break
            recs.append(dict(LOST))
            how = f"{type(e).__name__}: {e} @ {traceback.extract_tb(e.__traceback__)[-1].name}"
            break
        prev = s.previous_config_id
        recs.append(record(decl, dict(s.config), rule, first and i == 0, s.id not in trials, prev is None or prev in trials))
        t = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=prev, previous_trial_location=None, time_sampled=float(i), worker_id="w")
        t.set_evaluating(time_started=1.0, worker_id="w")
        trials[s.id] = t
        w = mix[i % len(mix)]
        if w != "run":
            outcome(t, w, rng)
    return recs, how, [dict(t.config) for t in trials.values()]


def ask_job(job):
    name, case, sd, n = job
    rng = seed_all(sd)
    hps, decl = declare(case, rng)
    try:
        opt = build(name, hps, rng)
    except Exception as e:  # noqa: BLE001
        return {"recs": [dict(LOST)], "how": f"refused: {type(e).__name__}: {e}", "configs": []}
    mix = [rng.choice(("ok", "ok", "ok", "fail", "run", "inf")) for _ in range(7)]
    recs, how, cfgs = converse(name, opt, decl, n, mix, None, rng)
    return {"recs": recs, "how": how, "configs": cfgs, "decl": {k: {a: b for a, b in d.items() if a != "vals"} for k, d in decl.items()}}


# --------------------------------------------------------- which parts are reached
def cell(d, v, k):
    import math

    if d["k"] == "cat":
        return next(i for i, c in enumerate(d["vals"]) if same(c, v))
    if d["k"] == "int" and d["hi"] - d["lo"] + 1 <= 12 and not d.get("log"):
        return v - d["lo"]
    lo, hi = d["lo"], d["hi"]
    if d["k"] == "int":
        lo, hi = lo - 0.5, hi + 0.5
    if d.get("log"):
        lo, hi, v = math.log(lo), math.log(hi), math.log(v)
    return min(k - 1, max(0, int((v - lo) / (hi - lo) * k)))


def cells_of(d, k):
    if d["k"] == "cat":
        return len(d["vals"])
    if d["k"] == "int" and d["hi"] - d["lo"] + 1 <= 12 and not d.get("log"):
        return d["hi"] - d["lo"] + 1
    return k


def draws(name, hps, n, rng, confidence=None):
    """n draws of a searcher's first proposals."""
    if name in GP:
        from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
        from neps.search_spaces.search_space import SearchSpace
        from neps.state.trial import Trial

        o = BayesianOptimization(SearchSpace(**hps), initial_design_size=n, use_priors=name != "BayesianOptimization")
        out, trials = [], {}
        for i in range(n):
            s = o.ask(trials, None)
            out.append(dict(s.config))
            trials[s.id] = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=None, previous_trial_location=None, time_sampled=float(i), worker_id="w")
        return out
    if name in MODE:
        from neps.search_spaces.search_space import SearchSpace

        import neps

        kw = {"pipeline_space": SearchSpace(**hps, ep=neps.Integer(1, 9, is_fidelity=True)), "budget": 1, "eta": 3}
        if name in PRIOR:
            kw["sample_default_first"] = False
        o = classes()[name](**kw)
    else:
        o = build(name, hps, rng)
    return [dict(o.ask({}, None).config) for _ in range(n)]


def draw_space(way, rng, conf="high"):
    """One parameter of every class whose range can be divided evenly; the default in the middle of a part."""
    import neps

    hps, decl, at = {}, {}, {}
    names = rng.sample("abcdefghij", 6)
    dft = way != "uniform"
    kw = {"default_confidence": conf}

    def d(i, vals):
        return vals[i] if dft else None

    i = rng.randrange(5)
    v = [1 + 0.2 * j + 0.1 for j in range(5)]
    hps[names[0]], decl[names[0]] = neps.Float(1.0, 2.0, default=d(i, v), **kw), {"k": "float", "lo": 1.0, "hi": 2.0}
    at[names[0]] = i
    i = rng.randrange(5)
    v = [10 ** (-4 + j * 0.8 + 0.4) for j in range(5)]
    hps[names[1]], decl[names[1]] = neps.Float(1e-4, 1.0, log=True, default=d(i, v), **kw), {"k": "float", "lo": 1e-4, "hi": 1.0, "log": True}
    at[names[1]] = i
    i = rng.randrange(5)
    hps[names[2]], decl[names[2]] = neps.Integer(-2, 2, default=d(i, [-2, -1, 0, 1, 2]), **kw), {"k": "int", "lo": -2, "hi": 2}
    at[names[2]] = i
    i = rng.randrange(5)
    v = [100 * j + 50 for j in range(5)]
    hps[names[3]], decl[names[3]] = neps.Integer(1, 500, default=d(i, v), **kw), {"k": "int", "lo": 1, "hi": 500}
    at[names[3]] = i
    i = rng.randrange(5)
    ch = ["p", "q", "r", 4, 0.5]
    hps[names[4]], decl[names[4]] = neps.Categorical(ch, default=d(i, ch), **kw), {"k": "cat", "vals": ch}
    at[names[4]] = i
    i = rng.randrange(2)
    ch = ["on", "off"]
    hps[names[5]], decl[names[5]] = neps.Categorical(ch, default=d(i, ch), **kw), {"k": "cat", "vals": ch}
    at[names[5]] = i
    return hps, decl, at


def draw_job(job):
    name, way, n, sd = job
    rng = seed_all(sd)
    hps, decl, at = draw_space(way, rng)
    out = []
    try:
        got = draws(name, hps, n, rng)
    except Exception as e:  # noqa: BLE001
        return {"recs": [dict(LOST)], "how": f"{type(e).__name__}: {e}", "names": ["-"]}
    names = []
    for p, d in decl.items():
        k = cells_of(d, 5)
        c = [0] * k
        for g in got:
            c[cell(d, g[p], k)] += 1
        names.append(f"{p} {d}")
        out.append({"kind": "drawn", "way": way, "n": n, "cells": c, "at": at[p] + 1})
        if way == "prior" and d["k"] == "cat" and k > 2:
            names.append(f"{p} {d}, choices other than the default")
            rest = c[:at[p]] + c[at[p] + 1:]
            out.append({"kind": "drawn", "way": "uniform", "n": sum(rest), "cells": rest, "at": 1})
    return {"recs": out, "how": "ok", "names": names}


def conf_job(job):
    """More confidence in the default draws more of it."""
    name, n, sd = job
    recs, names, counts = [], [], {}
    for conf in ("low", "medium", "high"):
        rng = seed_all(sd)
        hps, decl, at = draw_space("prior", rng, conf)
        for p, d in decl.items():
            counts.setdefault(p, [])
        got = draws(name, hps, n, rng)
        for p, d in decl.items():
            c = [0] * cells_of(d, 5)
            for g in got:
                c[cell(d, g[p], len(c))] += 1
            counts[p].append(c[at[p]])
            if conf == "low":
                recs.append({"kind": "drawn", "way": "reach", "n": n, "cells": c, "at": at[p] + 1})
                names.append(f"{p} {d} (low confidence)")
    recs += [{"kind": "drawn", "way": "confidence", "n": n, "cells": c, "at": 1} for c in counts.values()]
    return {"recs": recs, "how": "ok", "names": names + [f"{p} {d}" for p, d in decl.items()]}


UNIFORM = ("RandomSearch", "SuccessiveHalving", "Hyperband", "AsynchronousSuccessiveHalving", "AsynchronousHyperband", "MOBSTER", "BayesianOptimization")
CENTRED = ("RandomSearchPriors", "SuccessiveHalvingWithPriors", "HyperbandWithPriors", "AsynchronousSuccessiveHalvingWithPriors", "AsynchronousHyperbandWithPriors", "PiBO")


def jobs_for(s, T, cases):
    rng = random.Random(s * 104729)
    out = []
    for name in (*PLAIN, *MODE):
        cs = [c for c in cases if suits(name, c)]
        k = (24 if T else 4) if name in MODEL else (60 if T else 8) if name in GP else (len(cs) if T else 90)
        for c in rng.sample(cs, min(k, len(cs))):
            n = 6 if name in GP else 12 if name in MODEL else 9
            out.append(("ask", (name, c, rng.randrange(1 << 30), n)))
    for name in UNIFORM:
        for _ in range(6 if T else 1):
            out.append(("draw", (name, "uniform", 2000 if name not in GP else 512, rng.randrange(1 << 30))))
    for name in CENTRED:
        for _ in range(6 if T else 1):
            out.append(("draw", (name, "prior", 2000, rng.randrange(1 << 30))))
    for name in ("RandomSearchPriors", "PiBO"):
        out.append(("conf", (name, 2500, rng.randrange(1 << 30))))
    return out


def run_job(j):
    try:
        return {"ask": ask_job, "draw": draw_job, "conf": conf_job}[j[0]](j[1])
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r}\n{traceback.format_exc()}"}


def judge_all(rep, jobs, res):
    """Broken clauses per job: [(job, result, index of the record, clauses)]."""
    flat = [r for x in res for r in x["recs"]]
    verd = iter(vlib.table(rep, "TableSpace", "Table.cfg", flat))
    bad = []
    for j, x in zip(jobs, res):
        for i, r in enumerate(x["recs"]):
            v = next(verd)
            if v:
                bad.append((j, x, i, sorted(v)))
    return bad


def tell(j, x, i, v):
    if j[0] == "ask":
        c = x["configs"][i] if i < len(x["configs"]) else None
        return f"{j[1][0]} on {j[1][1]}: proposal {i + 1} breaks {v}: {c} ({x['how']}) declared {x.get('decl')}"
    return f"{j[1][0]}: {x['names'][i] if i < len(x['names']) else ''} drawn {x['recs'][i].get('cells')} (default in part {x['recs'][i].get('at')}): not {v} {x['how']}"


def inspace(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "MCSpace", "Table.cfg")
    jobs = jobs_for(s, T, cases)
    jobs.sort(key=lambda j: j[1][0] not in GP and j[1][0] not in MODEL)
    res = vlib.pmap(run_job, jobs, chunk=1)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    bad = judge_all(rep, jobs, res)
    rep.add(traces_validated_against_impl=len(jobs), proposals=sum(len(r["recs"]) for j, r in zip(jobs, res) if j[0] == "ask"),
            distributions=sum(len(r["recs"]) for j, r in zip(jobs, res) if j[0] != "ask"))
    per = rep.cov.setdefault("searchers", {})
    for j in jobs:
        per[j[1][0]] = per.get(j[1][0], 0) + 1
    rep.sample({"job": jobs[0][1], "record": res[0]["recs"][-1]})
    rep.sample({"job": jobs[-1][1], "record": res[-1]["recs"][-1]})
    seen = {}
    for j, x, i, v in bad:
        key = (j[1][0], tuple(v))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 1:
            rep.violation(tell(j, x, i, v), {"kind": "space", "job": j})


def replay(d):
    j = (d["job"][0], tuple(d["job"][1]))
    x = run_job(j)
    if "error" in x:
        print(x["error"])
        return 2
    bad = judge_all(None, [j], [x])
    for b in bad:
        print(tell(*b))
    return 1 if bad else 0


# ------------------------------------------------------- P16: odd and failed results
STRATEGIES = {"random_search": False, "bayesian_optimization": False, "pibo": False, "successive_halving": True, "successive_halving_prior": True, "asha": True,
              "asha_prior": True, "hyperband": True, "priorband": True, "priorband_bo": True, "mobster": True}
SLOW = {"bayesian_optimization", "pibo", "priorband_bo", "mobster"}
CASE = {"a": "float", "b": "cat5", "prior": "all"}


def mix_job(job):
    """One searcher and a history of outcomes, repeated."""
    name, case, mix, sd, n = job
    rng = seed_all(sd)
    hps, decl = declare(case, rng)
    cost = name == "BOCost"
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
    from neps.search_spaces.search_space import SearchSpace
    from neps.state.optimizer import BudgetInfo

    try:
        opt = build(name, hps, rng) if not cost else BayesianOptimization(SearchSpace(**hps), initial_design_size=2, use_cost=True)
    except Exception as e:  # noqa: BLE001
        return {"recs": [dict(LOST)], "how": f"{type(e).__name__}: {e}", "configs": []}
    if cost:
        real = opt.ask
        opt.ask = lambda trials, b: real(trials, BudgetInfo(max_cost_budget=50.0, used_cost_budget=float(sum(t.report.cost or 0 for t in trials.values() if t.report))))
    recs, how, cfgs = converse(name, opt, decl, n, mix, None, rng)
    return {"recs": recs, "how": how, "configs": cfgs, "decl": {k: {a: b for a, b in d.items() if a != "vals"} for k, d in decl.items()}}


def whole_job(job):
    """A whole run by the searcher's name: does it carry out all its evaluations?"""
    strategy, mix, onerr, sd, n = job
    import neps

    rng = seed_all(sd)
    d = vlib.tmpdir("odd")
    sp = {"x": neps.Float(0, 1, default=0.3), "y": neps.Float(1e-3, 1, log=True, default=0.1), "c": neps.Categorical(["a", "b", "c"], default="a"), "k": neps.Constant(3)}
    if STRATEGIES[strategy]:
        sp["e"] = neps.Integer(1, 9, is_fidelity=True)
    cnt = [0]

    def fn(**kw):
        o = mix[cnt[0] % len(mix)]
        cnt[0] += 1
        if o in ("fail", "failval", "run"):
            raise RuntimeError("planned")
        return {"ok": rng.random(), "tie": 1.0, "nan": float("nan"), "inf": float("inf"), "ninf": float("-inf"), "huge": 1e300}[o]

    how = "ok"
    try:
        neps.run(run_pipeline=fn, root_directory=d / "r", pipeline_space=sp, searcher=strategy, max_evaluations_total=n, ignore_errors=True,
                 **({"loss_value_on_error": 9.0, "cost_value_on_error": 1.0} if onerr else {}))
    except Exception as e:  # noqa: BLE001
        how = f"{type(e).__name__}: {e}"
    shutil.rmtree(d, ignore_errors=True)
    if how == "ok" and cnt[0] != n:
        how = f"only {cnt[0]} of {n} evaluations"
    return {"recs": [dict(LOST, answered=how == "ok")], "how": how, "configs": []}


def robust_jobs(s, T, hists):
    rng = random.Random(s * 15485863)
    out = []
    full = [h["h"] for h in hists if len(h["h"]) > 1 or T]
    some = [h["h"] for h in hists if h["sorted"]]
    for name in ("RandomSearch", *MODE, "BayesianOptimization", "PiBO", "BOCost"):
        gp = name in GP or name == "BOCost"
        case = {**CASE, "fid": "none" if gp else "int"}
        pick = some if gp or name in MODEL else full
        if name == "BOCost":
            pick = [h for h in pick if any(o not in ("fail", "failval", "run") for o in h)]
        k = len(pick) if T else 10 if gp else 4 if name in MODEL else 50 if name in MODE else 30
        for h in rng.sample(pick, min(k, len(pick))):
            out.append(("mix", (name, case, list(h), rng.randrange(1 << 30), 6 if gp else 14 if name in MODEL else 22)))
    for strat in STRATEGIES:
        for h in rng.sample(some, (40 if T else 2) if strat in SLOW else (100 if T else 5)):
            out.append(("whole", (strat, list(h), rng.random() < 0.5, rng.randrange(1 << 30), 6 if strat in ("bayesian_optimization", "pibo") else 14)))
    return out


def robust(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    hists = vlib.generate(rep, "Outcomes", "Outcomes.cfg")
    jobs = robust_jobs(s, T, hists)
    jobs.sort(key=lambda j: j[1][0] not in GP and j[1][0] not in MODEL and j[1][0] not in SLOW and j[1][0] != "BOCost")
    res = vlib.pmap(run_odd, jobs, chunk=1)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    bad = judge_all(rep, jobs, res)
    rep.add(traces_validated_against_impl=len(jobs), answers=sum(len(r["recs"]) for r in res))
    per = rep.cov.setdefault("searchers", {})
    for j in jobs:
        per[j[1][0]] = per.get(j[1][0], 0) + 1
    rep.sample({"job": jobs[0][1], "record": res[0]["recs"][-1]})
    rep.sample({"job": jobs[-1][1], "record": res[-1]["recs"][-1]})
    seen = {}
    for j, x, i, v in bad:
        key = (j[1][0], tuple(v))
        seen[key] = seen.get(key, 0) + 1
        if seen[key] <= 1:
            rep.violation(tell_odd(j, x, i, v), {"kind": "odd", "job": j})


def run_odd(j):
    try:
        return {"mix": mix_job, "whole": whole_job}[j[0]](j[1])
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r}\n{traceback.format_exc()}"}


def tell_odd(j, x, i, v):
    if j[0] == "whole":
        return f"neps.run with {j[1][0]}, evaluations end as {j[1][1]} (values for errors: {j[1][2]}): {x['how']}"
    return f"{j[1][0]}, evaluations end as {j[1][2]}: request {i + 1} of {j[1][4]} breaks {v}: {x['how']}"


def replay_odd(d):
    j = (d["job"][0], tuple(d["job"][1]))
    x = run_odd(j)
    if "error" in x:
        print(x["error"])
        return 2
    bad = judge_all(None, [j], [x])
    for b in bad:
        print(tell_odd(*b))
    return 1 if bad else 0
