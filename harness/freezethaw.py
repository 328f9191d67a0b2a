"""P26: freeze-thaw optimisation (ifBO) with a model of known preferences.  Judged by FreezeThaw.tla."""

from __future__ import annotations

import json
import math
import random
import shutil
import sys

import vlib

ONE = 10**6
UNIT = 1000
CALL: dict = {}  # what the model is asked: rows told, are all numbers legal, how much it likes to continue each configuration


class Model:
    """A model whose probability of improvement is how much it likes a candidate."""

    def __init__(self):
        import torch
        from ifbo.bar_distribution import FullSupportBarDistribution

        self.criterion = FullSupportBarDistribution(torch.linspace(0, 1, 101))

    def __call__(self, train_x, train_y, test_x):
        import torch

        x, t, y = train_x.reshape(-1, train_x.shape[-1]), test_x.reshape(-1, test_x.shape[-1]), train_y.reshape(-1)
        both = torch.cat([x[:, 1:], t[:, 1:]])
        CALL["legal"] = CALL.get("legal", True) and bool(((both >= 0) & (both <= 1)).all()) and len(x) == len(y) and bool(((y >= 0) & (y <= 1)).all())
        if len(x) >= CALL.get("rows", 0):
            CALL["told"] = [(int(r[0]) - 1, round(float(r[1]) * ONE), round(float(v) * ONE), tuple(r[2:].tolist())) for r, v in zip(x, y)]
        CALL["asked"] = True
        pref, pnew = CALL["pref"], CALL["pnew"]
        m = torch.tensor([(pref.get(int(i) - 1, 1) if i > 0 else pnew + 1000 * float(h)) / ONE for i, h in zip(t[:, 0], t[:, 2])], dtype=torch.float64)
        if CALL.get("flat"):  # any of the new configurations is as good as any other
            m = torch.tensor([(pref.get(int(i) - 1, 1) if i > 0 else pnew) / ONE for i in t[:, 0]], dtype=torch.float64)
        logits = torch.full((len(t), 1, 100), -40.0)
        logits[:, 0, 99] = torch.log(m)
        logits[:, 0, 0] = torch.log(1 - m)
        return logits


class FTPFN:
    def __init__(self, *a, **k):
        self.model, self.device = Model(), k.get("device")


def install():
    """The real model has to be downloaded: this one takes its place."""
    import ifbo

    import neps.optimizers  # noqa: F401

    for n, m in list(sys.modules.items()):
        if (n == "ifbo" or n.startswith(("neps.", "ifbo."))) and isinstance(getattr(m, "FTPFN", None), type):
            m.FTPFN = FTPFN


def make_par(rng):
    real = rng.random() < 0.35
    st = rng.choice((1, 1, 1, 2, 3, 5)) if not real else rng.choice((50, 100, 100, 125, 333, 1000))
    n = rng.choice((1, 2, 3, 5, 9, 9, 12, *((49,) if rng.random() < 0.3 else ())))
    lo = rng.choice((1, 1, 2, 10)) if not real else rng.choice((st, st, 1, 100, 1000, 10))
    return {"lo": lo, "hi": lo + n * st + rng.randrange(0, st) * (rng.random() < 0.5), "step": st, "real": real, "init": 0}


def space(p, rng):
    import neps

    f = neps.Float(p["lo"] / UNIT, p["hi"] / UNIT, is_fidelity=True) if p["real"] else neps.Integer(p["lo"], p["hi"], is_fidelity=True)
    d = {"x": neps.Float(0, 1, default=0.3, default_confidence="medium")}
    if rng.random() < 0.5:
        d["c"] = neps.Categorical(["a", "b", "z"][: rng.choice((2, 3))], default="b")
    if rng.random() < 0.4:
        d["k"] = neps.Constant(3)
    if rng.random() < 0.4:
        d["y"] = neps.Integer(1, 10**6, log=rng.random() < 0.5, default=10)
    if rng.random() < 0.3:
        d["a"] = neps.Float(1e-6, 1e-1, log=True, default=1e-3)
    if rng.random() < 0.3:
        d["m"] = neps.Categorical([1, 2, 3, 4, 5], default=4)
    items = [("e", f), *d.items()]
    rng.shuffle(items)
    return dict(items)


def inside(sp, c):
    """A legal value for everything but the fidelity."""
    import neps

    if set(c) != set(sp):
        return False
    for n, h in sp.items():
        v = c[n]
        if n == "e":
            continue
        if isinstance(h, neps.Categorical):
            ok = v in h.choices
        elif isinstance(h, neps.Float):
            ok = isinstance(v, float) and h.lower <= v <= h.upper
        elif isinstance(h, neps.Integer):
            ok = isinstance(v, int) and h.lower <= v <= h.upper
        else:
            ok = v == h.value
        if not ok:
            return False
    return True


def fid_in(p, v):
    if not p["real"]:
        return v if isinstance(v, int) and not isinstance(v, bool) else -1
    if not isinstance(v, float) or not math.isfinite(v):
        return -1
    x = v * UNIT
    return round(x) if math.isclose(x, round(x), rel_tol=1e-9) else -1


def answer(p, sp, s, known, dflt):
    try:
        c, r = (int(x) for x in s.id.split("_"))
        pc, prev = (-1, -1) if s.previous_config_id is None else (int(x) for x in s.previous_config_id.split("_"))
    except ValueError:
        c, r, pc, prev = -9, -9, -9, -9
    rest = {k: v for k, v in s.config.items() if k != "e"}
    same = s.previous_config_id is None or json.dumps(known.get((pc, prev)), sort_keys=True) == json.dumps(rest, sort_keys=True)
    if dflt and c == 0 and r == 0:
        same = rest == {n: h.value if not hasattr(h, "default") else h.default for n, h in sp.items() if n != "e"}
    told = [{"c": a, "b": b, "y": y, "h": h} for a, b, y, h in CALL.get("told", [])]
    hs = sorted({r["h"] for r in told})
    for r_ in told:
        r_["h"] = hs.index(r_["h"])
    e = {"k": "ask", "c": c, "s": r, "prev": prev, "pc": pc, "fid": fid_in(p, s.config.get("e")), "same": same and (c, r) not in known,
         "inside": inside(sp, s.config), "asked": CALL.get("asked", False), "legal": CALL.get("legal", True), "told": told, "pnew": CALL["pnew"]}
    return e, (c, r)


def settings(p, sp, rng):
    kw = {"step_size": p["step"] / UNIT if p["real"] else p["step"], "n_acquisition_new_configs": 10, "surrogate_model_args": {"target_path": "nowhere"}}
    nd = sum(n not in ("e", "k") for n in sp)
    if rng.random() < 0.5:
        kw["initial_design_size"] = rng.choice((1, 1, 2, 4))
    kw["sample_default_first"] = rng.random() < 0.4
    kw["use_priors"] = rng.random() < 0.3
    p["init"] = kw.get("initial_design_size", nd) + kw["sample_default_first"]
    return kw


def drive(job):
    p, o = job
    import numpy as np
    import torch

    from neps.optimizers.multi_fidelity import IFBO
    from neps.search_spaces.search_space import SearchSpace
    from neps.state.trial import Trial

    install()
    rng = random.Random(o["seed"])
    random.seed(o["seed"]), np.random.seed(o["seed"]), torch.manual_seed(o["seed"])
    sp = space(p, rng)
    p = dict(p)
    kw = settings(p, sp, rng)
    ev, trials, known, running = [], {}, {}, []
    how, opt, out = "ok", None, False
    for n in range(o["n"]):
        while running and (len(running) >= o["w"] or rng.random() < o["end"]):
            t = running.pop(rng.randrange(len(running)))
            c = int(t.id.split("_")[0])
            if rng.random() < o["fail"]:
                t.report = t.set_complete(report_as="crashed", time_end=1.0, loss=o["onerr"], cost=None if o["onerr"] is None else 1.0,
                                          learning_curve=None, err=RuntimeError("x"), tb=None, extra=None, evaluation_duration=1.0)
                loss = ONE if o["onerr"] is None else round(o["onerr"] * ONE)
            else:
                v = rng.choice((0, 1, 0.0, 1.0)) if rng.random() < 0.15 else rng.randrange(0, 1001) / 1000
                if o["out"] and rng.random() < 0.1:
                    v, out = rng.choice((1.5, -0.25, 100, -1)), True
                loss = round(v * ONE)
                t.report = t.set_complete(report_as="success", time_end=1.0, loss=v, cost=1.0, learning_curve=None, err=None, tb=None,
                                          extra={}, evaluation_duration=1.0)
            ev.append({"k": "done", "c": c, "loss": loss})
        items = list(trials.items())
        rng.shuffle(items)
        nc = 1 + max((k[0] for k in known), default=-1)
        prefs = rng.sample(range(20000, 980000, 10000), nc + 1)
        if rng.random() < o["thaw"]:
            prefs.sort()
        CALL.clear()
        CALL.update(pref=dict(enumerate(prefs[1:])), pnew=prefs[0], rows=len(items), flat=rng.random() < 0.5)
        try:
            if opt is None or rng.random() < o["fresh"]:
                opt = IFBO(pipeline_space=SearchSpace(**sp), **kw)
            s = opt.ask(dict(items), None)
        except Exception as e:  # noqa: BLE001
            how = f"{type(e).__name__}: {e}"
            ev.append({"k": "refused", "out": out and isinstance(e, RuntimeError)})
            break
        e, key = answer(p, sp, s, known, kw["sample_default_first"])
        e["pref"] = prefs[1:]
        ev.append(e)
        known[key] = {k: v for k, v in s.config.items() if k != "e"}
        t = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=s.previous_config_id, previous_trial_location=None,
                      time_sampled=float(n), worker_id="w")
        if rng.random() < 0.7:
            t.set_evaluating(time_started=1.0, worker_id="w")
        trials[s.id] = t
        if rng.random() >= o["lost"]:
            running.append(t)
    return {"par": {k: p[k] for k in ("lo", "hi", "step", "init")} | {"silent": False}, "ev": ev, "how": how, "kw": repr({**kw, "space": sp})}


def run_real(job):
    """The whole program, with the searcher's name and arguments, read back from the directory."""
    p, o = job
    import numpy as np
    import torch
    import yaml

    import neps

    install()
    rng = random.Random(o["seed"])
    random.seed(o["seed"]), np.random.seed(o["seed"]), torch.manual_seed(o["seed"])
    sp = space(p, rng)
    p = dict(p)
    kw = settings(p, sp, rng)
    d = vlib.tmpdir("thaw")
    prefs = rng.sample(range(20000, 980000, 10000), 60)
    CALL.clear()
    CALL.update(pref=dict(enumerate(prefs[1:])), pnew=prefs[0], flat=True)
    done, seen = [], []

    def fn(pipeline_directory, previous_pipeline_directory, **c):
        seen.append(None if previous_pipeline_directory is None else previous_pipeline_directory.name)
        if rng.random() < o["fail"]:
            done.append(ONE)
            raise RuntimeError("planned")
        done.append(rng.randrange(0, 1001) * 1000)
        return done[-1] / ONE

    how = "ok"
    try:
        neps.run(run_pipeline=fn, root_directory=d / "r", pipeline_space=sp, searcher={"strategy": "ifbo", **kw}, max_evaluations_total=o["n"],
                 ignore_errors=True, post_run_summary=False)
    except Exception as e:  # noqa: BLE001
        how = f"{type(e).__name__}: {e}"
    rows = []
    for q in (d / "r" / "configs").glob("config_*"):
        m = yaml.safe_load((q / "metadata.yaml").read_text())
        rows.append((m["time_sampled"], m, yaml.safe_load((q / "config.yaml").read_text())))
    ev, known = [], {}

    class S:
        pass

    CALL.pop("told", None)
    CALL.update(asked=False, legal=True)
    for i, (_, m, c) in enumerate(sorted(rows, key=lambda r: r[0])):
        s = S()
        s.id, s.config, s.previous_config_id = m["id"], c, m["previous_trial_id"]
        e, key = answer(p, sp, s, known, kw["sample_default_first"])
        e["pref"], e["asked"] = prefs[1:], False
        e["same"] = e["same"] and (i >= len(seen) or seen[i] == (None if s.previous_config_id is None else f"config_{s.previous_config_id}"))
        ev.append(e)
        known[key] = {k: v for k, v in c.items() if k != "e"}
        if i < len(done):
            ev.append({"k": "done", "c": key[0], "loss": done[i]})
    if how != "ok" or len(rows) < o["n"]:
        ev.append({"k": "refused", "out": False})
    shutil.rmtree(d, ignore_errors=True)
    return {"par": {**{k: p[k] for k in ("lo", "hi", "step", "init")}, "silent": True}, "ev": ev, "how": how, "kw": repr(kw)}


def jobs_for(s, T):
    rng = random.Random(s * 7919)
    out = []
    for _ in range(6000 if T else 600):
        o = {"seed": rng.randrange(1 << 30), "n": rng.choice((8, 14, 22)), "w": rng.choice((1, 2, 4, 9)), "end": rng.choice((0.3, 0.6, 0.9)),
             "fail": rng.choice((0, 0, 0.2, 1.0)), "onerr": rng.choice((None, None, 0.75)), "fresh": rng.choice((0, 0.2, 1.0)),
             "lost": rng.choice((0, 0, 0, 0.15)), "thaw": rng.choice((0.3, 0.6, 1.0)), "out": rng.random() < 0.15}
        out.append(("drive", (make_par(rng), o)))
    for _ in range(120 if T else 16):
        out.append(("real", (make_par(rng), {"seed": rng.randrange(1 << 30), "n": 12, "fail": rng.choice((0, 0.2))})))
    return out


def run_job(j):
    try:
        return (drive if j[0] == "drive" else run_real)(j[1])
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r}\n{traceback.format_exc()}"}


def explain(j, r, v):
    k = min(v["reached"], len(r["ev"]) - 1)
    steps = {}
    for x in r["ev"][:k]:
        if x["k"] == "ask":
            steps.setdefault(x["c"], []).append("?")
        elif x["k"] == "done":
            steps[x["c"]][-1] = x["loss"] / ONE
    x = r["ev"][k]
    return (f"ifbo {json.dumps(r['par'])} {r['kw'][:300]}: event {k + 1} is not one that FreezeThaw allows: {json.dumps(x)[:1500]} ({r['how'][:300]}); "
            f"losses of the steps so far: {json.dumps(steps)[:500]}")


def freezethaw(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCFreezeThaw", f"MCFreezeThaw{'_deep' if T else ''}.cfg")
    rep.model("MCFreezeThaw", "MCFreezeThaw_live.cfg")
    jobs = jobs_for(s, T)
    res = vlib.pmap(run_job, jobs, chunk=8)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceFreezeThaw", "TraceFreezeThaw.cfg", [{"par": r["par"], "ev": r["ev"]} for r in res], batch=200)
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), answers=sum(x["k"] == "ask" for r in res for x in r["ev"]),
            continuations=sum(x["k"] == "ask" and x["prev"] >= 0 for r in res for x in r["ev"]),
            refused=sum(x["k"] == "refused" for r in res for x in r["ev"]))
    rep.sample({"par": res[0]["par"], "events": res[0]["ev"][:4]})
    rep.sample({"par": res[-1]["par"], "events": res[-1]["ev"][:4]})
    seen = {}
    for j, r, v in zip(jobs, res, verd):
        if not v["ok"]:
            k = (j[0], r["how"][:40])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1:
                rep.violation(explain(j, r, v), {"kind": "freezethaw", "job": j})
    if seen:
        rep.cov["rejected"] = sum(seen.values())


def replay(d):
    j = (d["job"][0], tuple(d["job"][1]))
    r = run_job(j)
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceFreezeThaw", "TraceFreezeThaw.cfg", [{"par": r["par"], "ev": r["ev"]}])
    for x in r["ev"]:
        print(json.dumps(x))
    if not v[0]["ok"]:
        print(explain(j, r, v[0]))
    return 0 if v[0]["ok"] else 1
