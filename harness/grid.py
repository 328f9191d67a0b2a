"""P19: a grid search evaluates every point of the grid exactly once, judged by Grid.tla."""

from __future__ import annotations

import math
import random
import shutil

import vlib
from proposals import same, seed_all

UNIT = 1000000


def declare(rng):
    import neps

    hps, decl = {}, {}
    for n in rng.sample("abcxyzAB", rng.choice((1, 2, 2, 3))):
        k = rng.choice(("float", "floatlog", "int", "intlog", "cat", "const"))
        fid = False
        if k == "float":
            lo = rng.choice((0.0, -3.5, 0.1, 1e-7))
            hi = lo + rng.choice((1.0, 0.3, 1000.0, 2e-5))
            hps[n] = neps.Float(lo, hi)
        elif k == "floatlog":
            lo, hi = rng.choice(((1e-6, 0.1), (0.3, 7.0), (1e-3, 1e5)))
            hps[n] = neps.Float(lo, hi, log=True)
        elif k == "int":
            lo = rng.choice((0, 1, -7))
            hi = lo + rng.choice((1, 2, 3, 5, 9, 40))
            fid = rng.random() < 0.15 and lo > 0 and not any(d.get("fid") for d in decl.values())
            hps[n] = neps.Integer(lo, hi, is_fidelity=fid)
        elif k == "intlog":
            lo, hi = rng.choice(((1, 2), (1, 10), (1, 1000), (5, 3000)))
            hps[n] = neps.Integer(lo, hi, log=True)
        elif k == "cat":
            ch = rng.choice((["a", "b"], [3, "3", 2.5], ["x", "y", "", "w"]))
            hps[n] = neps.Categorical(ch)
            decl[n] = {"k": "cat", "vals": ch}
            continue
        else:
            v = rng.choice((1, "c", 0.0))
            hps[n] = neps.Constant(v)
            decl[n] = {"k": "const", "vals": [v]}
            continue
        decl[n] = {"k": "int" if k.startswith("int") else "float", "lo": lo, "hi": hi, "log": k.endswith("log"), "fid": fid}
    return hps, decl


def axes_of(decl, configs, size):
    """Levels that occur, per parameter, and their positions."""
    axes, levels = [], {}
    for n, d in decl.items():
        vals = [c.get(n) for c in configs]
        if d["k"] in ("cat", "const"):
            pos = [i for i, v in enumerate(d["vals"]) if any(same(v, x) for x in vals)]
            pos += [-1 for v in vals if not any(same(v, x) for x in d["vals"])][:1]
            levels[n] = [d["vals"][i] for i in pos if i >= 0]
            axes.append({"k": d["k"], "n": len(d["vals"]), "from": [], "to": [], "pos": pos})
            continue
        ty = int if d["k"] == "int" else float
        if any(type(v) is not ty for v in vals):
            axes.append({"k": d["k"], "n": size, "from": [], "to": [], "pos": [-1]})
            levels[n] = []
            continue
        lv = sorted(set(vals))
        f = math.log if d["log"] else float
        # an integer stands for everything that rounds to it
        h = 0.5 if ty is int else 0.0
        lo, hi = f(d["lo"] - h), f(d["hi"] + h)

        def at(v, lo=lo, hi=hi, f=f):
            return (f(v) - lo) / (hi - lo) * UNIT if v > 0 or f is float else -9.0

        axes.append({"k": d["k"], "n": size, "pos": [0 if v == d["lo"] else UNIT if v == d["hi"] else round(at(v)) for v in lv],
                     "from": [math.floor(at(v - h)) - 2 for v in lv], "to": [math.ceil(at(v + h)) + 2 for v in lv]})
        if ty is float and lv and (lv[0] < d["lo"] or lv[-1] > d["hi"]):
            axes[-1]["pos"][0] = -1
        levels[n] = lv
    return axes, levels


def point(decl, levels, c):
    if set(c) != set(decl):
        return []
    return [next((i + 1 for i, v in enumerate(levels[n]) if same(v, c[n])), 0) for n in decl]


def job(j):
    sd, mode = j
    rng = seed_all(sd)
    from neps.optimizers.grid_search.optimizer import GridSearch
    from neps.search_spaces.search_space import SearchSpace
    from neps.state.trial import Trial

    for _ in range(50):
        hps, decl = declare(rng)
        size = rng.choice((1, 2, 3, 3, 4, 5, 10))
        est = math.prod(min(size, d["hi"] - d["lo"] + 1) if d["k"] == "int" else size if d["k"] == "float" else len(d["vals"]) for d in decl.values())
        if est <= (40 if mode == "run" else 120):
            break
    seed = rng.choice((None, 0, 7))
    ev, cfgs = [], []

    def make():
        import copy

        hp = {n: copy.deepcopy(h) for n, h in hps.items()}
        return GridSearch(SearchSpace(**hp), grid_step_size=size, seed=seed)

    trouble = None
    if mode == "ask":
        trials, opt = {}, make()
        while len(cfgs) <= est + 3:
            if rng.random() < 0.2:
                opt = make()  # another process
                random.seed(rng.random())
            items = list(trials.items())
            rng.shuffle(items)
            try:
                s = opt.ask(dict(items), None)
            except ValueError as e:
                ev.append({"k": "refuse"} if "exhausted" in str(e).lower() else {"k": str(e)})
                break
            except Exception as e:  # noqa: BLE001
                ev.append({"k": f"{type(e).__name__}: {e}"})
                break
            if s.id in trials:
                ev.append({"k": f"identity {s.id} twice"})
                break
            cfgs.append(dict(s.config))
            ev.append({"k": "ask"})
            t = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=None, previous_trial_location=None, time_sampled=0.0, worker_id="w")
            if rng.random() < 0.8:
                bad = rng.random() < 0.2
                t.report = t.set_complete(report_as="crashed" if bad else "success", time_end=1.0, loss=None if bad else 1.0, cost=None, learning_curve=None, err=None, tb=None, extra=None, evaluation_duration=1.0)
            trials[s.id] = t
    else:
        import neps
        from neps.exceptions import WorkerFailedToGetPendingTrialsError

        d = vlib.tmpdir("grid")

        def fn(**kw):
            cfgs.append(kw)
            ev.append({"k": "ask"})
            if rng.random() < 0.1:
                raise RuntimeError("planned")
            return 1.0

        try:
            for _ in range(est + 3):
                # one run in several processes' worth of pieces
                neps.run(run_pipeline=fn, root_directory=d / "r", pipeline_space=hps, searcher=make(), max_evaluations_total=est + 50, ignore_errors=True,
                         max_evaluations_per_run=rng.choice((1, 3, 10)), post_run_summary=False)
        except WorkerFailedToGetPendingTrialsError as e:
            ev.append({"k": "refuse"} if "exhausted" in str(e.__cause__).lower() else {"k": repr(e.__cause__)})
        except Exception as e:  # noqa: BLE001
            ev.append({"k": f"{type(e).__name__}: {e}"})
        shutil.rmtree(d, ignore_errors=True)
    axes, levels = axes_of(decl, cfgs, size)
    it = iter(cfgs)
    for e in ev:
        if e["k"] == "ask":
            e["p"] = point(decl, levels, next(it))
    return {"ev": [*ev, {"k": "axes"}], "axes": axes, "decl": str(decl), "size": size, "seed": seed, "cfgs": [str(c) for c in cfgs]}


def tell(j, x, n):
    e = x["ev"][n] if n < len(x["ev"]) else "?"
    return f"grid of {x['size']} on {x['decl']} (seed {x['seed']}, {j[1]}): after {n} steps {e} {x['cfgs'][n] if n < len(x['cfgs']) else x['axes']}; the grid has levels {[a['pos'] for a in x['axes']]}"


def grid(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCGrid", "MCGrid.cfg")
    rng = random.Random(s * 99991)
    jobs = [(rng.randrange(1 << 30), "ask") for _ in range(9000 if T else 1200)] + [(rng.randrange(1 << 30), "run") for _ in range(400 if T else 40)]
    res = vlib.pmap(job, jobs)
    verd, st = vlib.judge("TraceGrid", "TraceGrid.cfg", [{"ev": x["ev"], "axes": x["axes"]} for x in res])
    rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res), points=sum(len(x["cfgs"]) for x in res))
    rep.sample({"grid": res[0]["decl"], "axes": res[0]["axes"], "events": res[0]["ev"][:5]})
    for j, x, v in zip(jobs, res, verd):
        if not v["ok"] and len(rep.violations) < 4:
            rep.violation(tell(j, x, v["reached"]), {"kind": "grid", "job": j})


def replay(d):
    j = tuple(d["job"])
    x = job(j)
    v, _ = vlib.judge("TraceGrid", "TraceGrid.cfg", [{"ev": x["ev"], "axes": x["axes"]}])
    if not v[0]["ok"]:
        print(tell(j, x, v[0]["reached"]))
    return 0 if v[0]["ok"] else 1
