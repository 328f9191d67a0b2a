"""P18: one process, many runs: what evaluations are given and can ask for, judged by Session.tla."""

from __future__ import annotations

import functools
import os
import random
import shutil
from pathlib import Path

import vlib

SEARCHERS = ("random_search", "successive_halving", "hyperband", "asha", "priorband", "bayesian_optimization")
UNASKED = [-1, ""]
NOWHERE = [0, ""]


class Interrupt(BaseException):
    pass


def tokens(a: dict, b: dict):
    """Equal numbers for equal configurations (by value and type)."""
    same = set(a) == set(b) and all(type(a[k]) is type(b[k]) and a[k] == b[k] for k in a)
    return (1, 1) if same else (1, 2)


class Session:
    def __init__(self, base: Path, script, how, rng):
        self.base, self.script, self.how, self.rng = base, script, how, rng
        self.ev = []
        self.known = {1: [], 2: []}
        self.run = 0
        self.marks = 0
        self.calls = []
        self.trouble = None

    def root(self, r):
        return self.base / f"run{r}"

    def disk(self, r):
        from neps.state.filebased import load_filebased_neps_state

        if not self.root(r).exists():
            return {}
        return load_filebased_neps_state(self.root(r)).get_all_trials()

    def place(self, p):
        """Which configuration's directory a path is."""
        if p is None:
            return list(NOWHERE)
        if not isinstance(p, Path) or not p.is_absolute() or not p.is_dir():
            return [-2, str(p)]
        for r in (1, 2):
            if p.resolve().parent.parent == self.root(r).resolve():
                return [r, p.name.removeprefix("config_")]
        return [-2, str(p)]

    # what the user's function does
    def evaluate(self, given, pd=UNASKED, ppd=UNASKED):
        from neps.runtime import get_in_progress_trial, get_workers_neps_state
        from neps.utils.common import get_initial_directory

        r = self.run
        trials = self.disk(r)
        new = [t for t in trials.values() if t.id not in self.known[r] and t.state.value == "evaluating"]
        if len(new) != 1:
            self.ev.append({"k": f"{len(new)} configurations began"})
            return
        t = new[0]
        self.known[r].append(t.id)
        self.ev.append({"k": "begin", "id": t.id, "p": t.metadata.previous_trial_id or ""})
        g, s = tokens(given, dict(t.config))
        st = Path(get_workers_neps_state().location).resolve()
        own = self.root(r).resolve() / "configs" / f"config_{t.id}"
        try:
            init, init2 = get_initial_directory(), get_initial_directory(pipeline_directory=own if self.rng.random() < 0.5 else str(own))
        except Exception as e:  # noqa: BLE001
            init = init2 = f"{type(e).__name__}: {e}"
        look = {"k": "look", "trial": get_in_progress_trial().id, "state": next((q for q in (1, 2) if self.root(q).resolve() == st), -1),
                "dir": pd if pd is UNASKED else self.place(pd), "prev": ppd if ppd is UNASKED else self.place(ppd),
                "init": self.place(init), "init2": self.place(init2),
                "ck": self.load(ppd, t.metadata.previous_trial_location), "given": g, "stored": s, "disk": trials[t.id].state.value}
        self.ev.append(look)
        self.calls.clear()
        if self.rng.random() < 0.7:
            try:
                self.save(own)
            except Exception as e:  # noqa: BLE001
                self.trouble = f"{type(e).__name__}: {e}"
                self.ev.append({"k": "not saved"})

    def load(self, ppd, where):
        import torch
        from neps.utils.common import load_checkpoint, load_lightning_checkpoint

        way = self.how["ck"]
        arg = ppd if isinstance(ppd, Path) and self.rng.random() < 0.5 else None
        try:
            if way == "values":
                c = load_checkpoint(directory=arg, checkpoint_name="state")
                return 0 if c is None else c["n"]
            if way == "model":
                m = torch.nn.Linear(1, 1)
                torch.nn.init.zeros_(m.weight)
                o = torch.optim.SGD(m.parameters(), lr=1.0)
                c = load_checkpoint(arg, model=m, optimizer=o)
                a, b = int(m.weight.item()), int(o.param_groups[0]["lr"] - 1)
                return 0 if c is None and a == b == 0 else a if a == b else -1
            f, c = load_lightning_checkpoint(where or self.base / "nothing", previous_pipeline_directory=arg)
            return 0 if c is None else c["n"]
        except FileNotFoundError:
            return 0
        except Exception as e:  # noqa: BLE001
            self.trouble = f"{type(e).__name__}: {e}"
            return -2

    def save(self, own):
        import torch
        from neps.utils.common import save_checkpoint

        self.marks += 1
        n, way = self.marks, self.how["ck"]
        arg = own if self.rng.random() < 0.5 else None
        if way == "values":
            save_checkpoint(directory=arg, checkpoint_name="state", values_to_save={"n": n})
        elif way == "model":
            m = torch.nn.Linear(1, 1)
            torch.nn.init.constant_(m.weight, float(n))
            save_checkpoint(arg, model=m, optimizer=torch.optim.SGD(m.parameters(), lr=1.0 + n))
        else:
            torch.save({"n": n}, own / "last.ckpt")
        self.ev.append({"k": "save", "n": n})

    def function(self, plan):
        left = list(plan)

        def go(given, pd=UNASKED, ppd=UNASKED):
            self.evaluate(given, pd, ppd)
            f = left.pop(0) if left else "ok"
            if self.how["cd"]:
                os.chdir(self.rng.choice((self.base, "/", self.root(self.run))))
            if f == "fail":
                raise self.rng.choice((RuntimeError("planned"), ValueError("x"), OSError("y")))
            if f == "int":
                raise self.rng.choice((KeyboardInterrupt(), SystemExit(3), Interrupt()))
            return self.rng.choice((0.5, {"loss": self.rng.random(), "cost": 1.0}))

        self.left = left
        way = self.how["sig"]
        if way == "kwargs":
            return lambda **kw: go(kw)
        if way == "both":
            def both(pipeline_directory, previous_pipeline_directory, **kw):
                return go(kw, pipeline_directory, previous_pipeline_directory)
            return both
        if way == "prev":
            return lambda *, previous_pipeline_directory=None, **kw: go(kw, UNASKED, previous_pipeline_directory)
        if way == "named":
            if self.how["fid"]:
                return lambda x, c, e, k, pipeline_directory: go({"x": x, "c": c, "e": e, "k": k}, pipeline_directory)
            return lambda x, c, k, pipeline_directory: go({"x": x, "c": c, "k": k}, pipeline_directory)
        if way == "partial":
            def f(extra, previous_pipeline_directory, pipeline_directory, **kw):
                assert extra == 7
                return go(kw, pipeline_directory, previous_pipeline_directory)
            return functools.partial(f, 7)

        class Obj:
            def __call__(self, pipeline_directory, previous_pipeline_directory, **kw):
                return go(kw, pipeline_directory, previous_pipeline_directory)

        return Obj()

    def ended(self, how):
        if self.ev and self.ev[-1]["k"] in ("look", "save"):
            if how == "interrupt":
                self.ev.append({"k": "interrupt"})
                return
            told = self.calls[0] if len(self.calls) == 1 else [-3, str(len(self.calls))]
            self.ev.append({"k": "end", "how": how, "told": told})

    def outside(self):
        from neps.runtime import get_in_progress_trial

        try:
            t = get_in_progress_trial().id
        except RuntimeError:
            t = ""
        c = []
        for r in (1, 2):
            d = self.disk(r)
            c.append([[i, d[i].metadata.previous_trial_id or "", d[i].state.value] for i in self.known[r] if i in d]
                     + [["?", i, d[i].state.value] for i in d if i not in self.known[r]])
        self.ev.append({"k": "outside", "trial": t, "cfgs": c})

    def go(self):
        import neps
        from neps.runtime import register_notify_trial_end

        register_notify_trial_end("verif", lambda trial: self.calls.append(self.place(Path(trial.metadata.location))))
        fid = self.how["fid"]
        space = {"x": neps.Float(0, 1, default=0.3), "c": neps.Categorical(["a", 2, True], default=2), "k": neps.Constant("z")}
        if fid:
            space["e"] = neps.Integer(1, 4, is_fidelity=True)
        for run in self.script:
            r, plan = run["r"], run["plan"]
            fn = self.function(plan)
            inner = fn
            self.run = r
            self.ev.append({"k": "run", "r": r})
            root = self.root(r) if self.how["abs"] else Path(os.path.relpath(self.root(r)))
            # the end of an evaluation shows at the next one or at the end of the run
            fates = iter(plan)
            me = self
            orig = me.evaluate

            def evaluate(*a, orig=orig, fates=fates, **kw):
                me.finish_last()
                orig(*a, **kw)
                me.last = next(fates, "ok")

            self.evaluate = evaluate
            self.last = None
            try:
                kw = {"eta": 2} if self.how["searcher"] in ("successive_halving", "hyperband", "asha") else {}
                neps.run(run_pipeline=inner, root_directory=root, pipeline_space=space, searcher=self.how["searcher"], ignore_errors=True,
                         max_evaluations_per_run=len(plan), max_evaluations_total=1000, post_run_summary=self.rng.random() < 0.3, **kw)
                self.finish_last()
                self.ev.append({"k": "return"})
            except (KeyboardInterrupt, SystemExit, Interrupt):
                if self.last == "int":
                    self.ended("interrupt")
                else:
                    self.ev.append({"k": "unexpected interrupt"})
            except Exception as e:  # noqa: BLE001
                self.trouble = f"{type(e).__name__}: {e}"
                self.ev.append({"k": "run failed"})
            self.evaluate = orig
            self.run = 0
            self.outside()
        return self.ev

    def finish_last(self):
        if self.last in ("ok", "fail"):
            self.ended("success" if self.last == "ok" else "crashed")
        self.last = None


def job(j):
    script, how, sd = j
    import numpy as np
    import torch

    rng = random.Random(sd)
    random.seed(sd), np.random.seed(sd % 2**32), torch.manual_seed(sd)
    d = vlib.tmpdir("session")
    os.chdir(d)
    s = Session(d, script, how, rng)
    try:
        ev = s.go()
    except BaseException as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r} {traceback.format_exc()}"}
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return {"ev": ev, "trouble": s.trouble}


def jobs_for(s, T, scripts):
    rng = random.Random(s * 7919)
    multi = [x for x in scripts if len(x) > 1]
    pick = rng.sample(scripts, min(len(scripts), 1200 if T else 50)) + rng.sample(multi, min(len(multi), 1500 if T else 90))
    out = []
    for sc in pick:
        se = rng.choice(SEARCHERS)
        fid = se not in ("random_search", "bayesian_optimization") or (se == "random_search" and rng.random() < 0.5)
        runs = []
        for r in sc:
            # stretched by ordinary evaluations, so that there are promotions
            n = rng.choice((0, 2, 5)) if se != "bayesian_optimization" else 1
            plan = [rng.choice(("ok", "ok", "ok", "fail")) for _ in range(n)] + r["ends"]
            runs.append({"r": r["r"], "plan": plan})
        out.append((runs, {"searcher": se, "fid": fid, "sig": rng.choice(("kwargs", "both", "prev", "named", "partial", "object")), "abs": rng.random() < 0.6, "cd": rng.random() < 0.4,
                           "ck": rng.choice(("values", "model", "lightning"))}, rng.randrange(1 << 30)))
    return out


def run_jobs(jobs):
    import multiprocessing as mp

    with mp.get_context("fork").Pool(vlib.NCPU, maxtasksperchild=1) as pool:
        return pool.map(job, jobs, chunksize=1)


def tell(j, x, reached):
    ev = x["ev"]
    e = ev[reached] if reached < len(ev) else "?"
    return f"{j[1]['searcher']}, function with '{j[1]['sig']}', runs {[(r['r'], r['plan']) for r in j[0]]}: after {[y['k'] for y in ev[:reached]]} the process shows {e} {x['trouble'] or ''}"


def session(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    scripts = vlib.generate(rep, "MCSession", "MCSession.cfg")
    scripts.sort(key=str)
    jobs = jobs_for(s, T, scripts)
    res = run_jobs(jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceSession", "TraceSession.cfg", [{"ev": r["ev"]} for r in res])
    rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=len(res), evaluations=sum(e["k"] == "begin" for r in res for e in r["ev"]),
            continued=sum(e["k"] == "begin" and e["p"] != "" for r in res for e in r["ev"]), interrupts=sum(e["k"] == "interrupt" for r in res for e in r["ev"]))
    rep.sample({"script": jobs[0][0], "events": res[0]["ev"][:12]})
    for j, x, v in zip(jobs, res, verd):
        if not v["ok"] and len(rep.violations) < 4:
            rep.violation(tell(j, x, v["reached"]), {"kind": "session", "job": j})


def replay(d):
    j = d["job"]
    x = run_jobs([(j[0], j[1], j[2])])[0]
    if "error" in x:
        print(x["error"])
        return 2
    v, _ = vlib.judge("TraceSession", "TraceSession.cfg", [{"ev": x["ev"]}])
    if not v[0]["ok"]:
        print(tell(j, x, v[0]["reached"]))
    return 0 if v[0]["ok"] else 1
