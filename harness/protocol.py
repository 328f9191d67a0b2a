"""Executions of real workers on a shared run directory, recorded as traces of Protocol.tla."""

from __future__ import annotations

import hashlib
import json
import os
import random
import shutil
import time
from pathlib import Path

import vsched as S
from vlib import tmpdir

NOLIM = -1
DEFAULT_SET = {
    "maxTotal": NOLIM, "inProg": True, "maxW": NOLIM, "maxCost": NOLIM, "maxCostW": NOLIM,
    "maxWall": NOLIM, "maxTimW": NOLIM, "maxTim": NOLIM, "onErr": "ignore",
    "lossErr": -1, "costErr": -1,
}
# what neps.run exposes; anything else is set up on the worker directly
_RUN_ONLY = {"maxCostW", "maxWall", "maxTimW", "maxTim"}


def settings(**kw) -> dict:
    return {**DEFAULT_SET, **kw}


def digest(x) -> str:
    return hashlib.sha1(json.dumps(x, sort_keys=True, default=repr).encode()).hexdigest()[:16]


def report_digest(d: dict) -> str:
    d = dict(d)
    d["err"] = None if d.get("err") is None else str(d["err"])
    d["extra"] = d.get("extra") or {}
    return digest(d)


UNIT = 0.125  # losses, costs and durations are whole numbers in the specification and these fractions in the real run


def num(x) -> int:
    if x is None:
        return -1
    try:
        x = float(x) / UNIT
        return int(x) if x == int(x) else -7
    except (TypeError, ValueError, OverflowError):
        return -8


# --------------------------------------------------------------- inside the worker
def outcome(plan: list, w: int, n: int) -> dict:
    """The n-th evaluation of worker w (1-based): losses are unique integers."""
    o = plan[n] if n < len(plan) else (plan[-1] if plan else {})
    return {"ok": o.get("ok", True), "loss": 1000 * w + n if o.get("ok", True) else -1,
            "cost": o.get("cost", -1) if o.get("ok", True) else -1,
            "dur": o.get("dur", 0), "intr": o.get("intr", False), "bad": o.get("bad")}


def make_probe(space):
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

    class Probe(BaseOptimizer):
        """A user-written searcher that shows the controller what it was shown."""

        def ask(self, trials, budget_info):
            view = {}
            for tid, t in trials.items():
                r = t.report
                view[tid] = [t.state.value if r is None else r.reported_as, t.metadata.evaluating_worker_id,
                             None if r is None else [num(r.loss), num(r.cost), num(r.evaluation_duration),
                                                     report_digest(dict(vars(r)))]]
            S.emit("ask", {"view": view, "u": num(budget_info.used_cost_budget) if budget_info else -1})
            c = self.pipeline_space.sample()
            return SampledConfig(id=str(len(trials) + 1), config=c.hp_values(), previous_config_id=None)

    return Probe(pipeline_space=space)


def worker_main(root: Path, cfg: dict, widx: int) -> str:
    """Runs in the forked worker: an ordinary user script."""
    import neps

    clock = [100.0]
    real = time.monotonic
    time.monotonic = lambda: clock[0]
    time.perf_counter = lambda: clock[0]
    n = [0]
    st = cfg["set"]

    def run_pipeline(pipeline_directory, x):
        tid = Path(pipeline_directory).name.replace("config_", "", 1)
        S.emit("start", {"t": tid})
        o = outcome(cfg.get("plan", []), widx, n[0])
        n[0] += 1
        clock[0] += o["dur"] * UNIT
        if o["intr"]:
            S.emit("intr", {})
            raise KeyboardInterrupt
        S.emit("end", {k: o[k] for k in ("ok", "loss", "cost", "dur")})
        if not o["ok"]:
            if o["bad"] == "none":
                return None
            if o["bad"] == "str":
                return "not a number"
            if o["bad"] == "noloss":
                return {"cost": 1.0}
            raise ValueError("planned failure")  # all alike
        if o["cost"] < 0:
            return o["loss"] * UNIT
        return {"loss": o["loss"] * UNIT, "cost": o["cost"] * UNIT, "info_dict": {"w": widx, "n": n[0]}}

    space = {"x": neps.Float(0, 1)}
    lim = lambda k: None if st[k] == NOLIM else st[k] if k in ("maxTotal", "maxW") else st[k] * UNIT  # noqa: E731
    if cfg["searcher"] == "probe":
        from neps.search_spaces.search_space import SearchSpace

        searcher = make_probe(SearchSpace(**space))
    else:
        searcher = cfg["searcher"]
    direct = any(st[k] != NOLIM for k in _RUN_ONLY) or st["onErr"] not in ("ignore", "raise_any")
    if not direct:
        neps.run(
            run_pipeline=run_pipeline, root_directory=root, pipeline_space=space, searcher=searcher,
            max_evaluations_total=lim("maxTotal"), max_evaluations_per_run=lim("maxW"),
            max_cost_total=lim("maxCost"),
            continue_until_max_evaluation_completed=not st["inProg"],
            ignore_errors=st["onErr"] == "ignore",
            loss_value_on_error=lim("lossErr"), cost_value_on_error=lim("costErr"),
            post_run_summary=cfg.get("summary", False),
        )
    else:
        from neps.runtime import DefaultWorker
        from neps.state.filebased import create_or_load_filebased_neps_state, load_filebased_neps_state
        from neps.state.optimizer import BudgetInfo, OptimizationState
        from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

        state = load_filebased_neps_state(root)
        on = {"ignore": "ignore", "raise_worker": "raise_worker_error", "raise_any": "raise_any_error",
              "stop_worker": "stop_worker_error", "stop_any": "stop_any_error"}[st["onErr"]]
        DefaultWorker.new(
            state=state, optimizer=searcher, evaluation_fn=run_pipeline,
            settings=WorkerSettings(
                on_error=OnErrorPossibilities(on),
                default_report_values=DefaultReportValues(
                    loss_value_on_error=lim("lossErr"), cost_value_on_error=lim("costErr"),
                    learning_curve_if_not_provided="loss"),
                max_evaluations_total=lim("maxTotal"),
                include_in_progress_evaluations_towards_maximum=st["inProg"],
                max_cost_total=lim("maxCost"), max_evaluation_time_total_seconds=lim("maxTim"),
                max_evaluations_for_worker=lim("maxW"), max_cost_for_worker=lim("maxCostW"),
                max_evaluation_time_for_worker_seconds=lim("maxTimW"),
                max_wallclock_time_for_worker_seconds=lim("maxWall")),
        ).run()
    time.monotonic = real
    return "ok"


# -------------------------------------------------------------------- the observer
class Observer:
    """Reads the run directory (never through the code under test) and abstracts it."""

    def __init__(self, root: Path):
        import yaml

        self.root = root
        self.loader = getattr(yaml, "CSafeLoader", yaml.SafeLoader)
        self.yaml = yaml
        self.order: list[str] = []      # trial ids in order of appearance
        self.last: dict[str, dict] = {}
        self.cache: dict = {}
        self.names: dict[str, int] = {}  # worker id string -> index
        self.digests: dict[str, int] = {}
        self.errs: list = []
        self.used = 0

    def load(self, p: Path):
        try:
            st = os.stat(p)
        except FileNotFoundError:
            return None
        key = (str(p), st.st_ino, st.st_mtime_ns, st.st_size)
        if key not in self.cache:
            with open(p) as f:
                self.cache[key] = self.yaml.load(f, Loader=self.loader)
        return self.cache[key]

    def name(self, s, actor: int) -> int:
        if s is None:
            return 0
        if s not in self.names:
            self.names[s] = actor if actor not in self.names.values() else 900 + len(self.names)
        return self.names[s]

    def dig(self, s: str) -> int:
        return self.digests.setdefault(s, len(self.digests) + 1)

    def trial(self, d: Path, actor: int) -> dict | None:
        """None: the trial does not exist (yet)."""
        if not (d / ".version").exists():
            return None
        bad = {"st": "?", "by": 0, "smp": 0, "cfg": 0, "loss": -1, "cost": -1, "dur": -1, "rep": 0}
        try:
            meta = self.load(d / "metadata.yaml")
            conf = self.load(d / "config.yaml")
            rep = self.load(d / "report.yaml")
            state = (d / "state.txt").read_text().strip()
            fixed = [meta[k] for k in ("id", "location", "previous_trial_id", "previous_trial_location",
                                       "sampling_worker_id", "time_sampled")]
            fixed[1] = os.path.basename(str(fixed[1]))
            if meta["id"] != d.name.replace("config_", "", 1) or os.path.realpath(meta["location"]) != os.path.realpath(d):
                return bad
            out = {"st": "p", "by": 0, "smp": self.name(meta["sampling_worker_id"], actor),
                   "cfg": self.dig(digest([fixed[:4], conf])), "loss": -1, "cost": -1, "dur": -1, "rep": 0}
            if rep is not None:
                out["st"] = {"success": "s", "crashed": "c", "failed": "c"}.get(rep["reported_as"], "?")
                out.update(loss=num(rep["loss"]), cost=num(rep["cost"]), dur=num(rep["evaluation_duration"]),
                           rep=self.dig(report_digest(rep)))
            elif state == "evaluating":
                out["st"] = "e"
            elif state != "pending":
                out["st"] = "?"
            if out["st"] != "p":
                out["by"] = self.name(meta["evaluating_worker_id"], actor)
            return out
        except Exception:  # noqa: BLE001 - unreadable on disk
            return bad

    def observe(self, actor: int, held: dict[str, int], releasing: str | None) -> tuple[dict, dict]:
        """held: lock path -> worker index of locks currently held by anybody."""
        flux = {"t": [], "n": False, "e": False, "u": False}
        busy = set()
        for p in held:
            if p == releasing:
                continue
            rel = os.path.relpath(p, self.root)
            top = rel.split("/")
            if top[0] == "configs" and len(top) > 2:
                busy.add(top[1])
            elif top[0] == ".optimizer_state":
                flux["u"] = flux["n"] = True
            elif top[0] == ".seed_state":
                flux["n"] = True
            elif top[0] == ".errors":
                flux["e"] = True
        cfgs = self.root / "configs"
        names = sorted(os.listdir(cfgs)) if cfgs.exists() else []
        fresh = []
        for nm in names:
            if not nm.startswith("config_"):
                continue
            tid = nm.replace("config_", "", 1)
            if nm in busy:
                if tid in self.last:
                    flux["t"].append(self.order.index(tid) + 1)
                else:
                    flux["n"] = True
                continue
            t = self.trial(cfgs / nm, actor)
            if t is None:
                if tid in self.last:
                    self.last[tid] = {**self.last[tid], "st": "?"}
                continue
            if tid not in self.last:
                fresh.append(tid)
            self.last[tid] = t
        for tid in list(self.last):
            if f"config_{tid}" not in names:
                self.last[tid] = {**self.last[tid], "st": "?"}
        if len(fresh) > 1:
            def ts(tid):
                try:
                    return self.load(cfgs / f"config_{tid}" / "metadata.yaml")["time_sampled"]
                except Exception:  # noqa: BLE001
                    return 0
            fresh.sort(key=ts)
        self.order += fresh
        if not flux["e"]:
            p = self.root / ".errors" / "all-errors.jsonl"
            try:
                ls = [json.loads(x) for x in p.read_text().splitlines() if x.strip()] if p.exists() else []
                self.errs = [[self.order.index(x["trial_id"]) + 1 if x["trial_id"] in self.order else 999,
                              self.name(x["worker_id"], actor)] for x in ls]
            except Exception:  # noqa: BLE001
                self.errs = [[999, 999]]
        if not flux["u"]:
            try:
                d = self.load(self.root / ".optimizer_state" / "state.yaml")
                b = (d or {}).get("budget")
                self.used = num(b["used_cost_budget"]) if b else 0
            except Exception:  # noqa: BLE001
                self.used = -9
        return {"t": [self.last[t] for t in self.order], "e": self.errs, "u": self.used}, flux


# ------------------------------------------------------------------- the execution
class Execution:
    """Runs a scenario under a schedule and records its trace.

    scenario: {"searcher", "workers": [{"set", "plan", "late"?}], ...}
    schedule: {"kind": "list"|"rand"|"pct", "points": [[step, worker]], "seed", "p",
               "crash": [[step, partial]], "crash_w": worker whose steps are counted}
    """

    keep_fx = False  # record when something stops being rewritten even if nothing has changed

    def __init__(self, template: Path | None, scenario: dict, schedule: dict):
        self.dir = tmpdir("x")
        self.root = self.dir / "r"
        if template is not None:
            shutil.copytree(template, self.root, symlinks=True)
            self._relocate(template)
        self.sc, self.sd = scenario, schedule
        self.ob = Observer(self.root)
        self.recs: list[dict] = []
        self.obs: list[dict] = []
        self.obs_idx: dict[str, int] = {}
        self.sched = S.Sched(self.dir, max_ops=scenario.get("max_ops", 20000))
        self.hang: str | None = None
        self.steps = 0
        self.by_worker: dict[int, int] = {}
        self.kinds: list[str] = []

    def _relocate(self, template: Path):
        """Metadata contains absolute paths: make them point into the copy."""
        old, new = str(template), str(self.root)
        for p in self.root.glob("configs/*/metadata.yaml"):
            s = p.read_text()
            if old in s:
                p.write_text(s.replace(old, new))

    # ---- recording
    def held(self) -> dict[str, int]:
        return {p: w.idx for w in self.sched.workers if w.alive for p in w.locks}

    def record(self, a: int, k: str, *, releasing: str | None = None, force=True, **kw):
        o, fx = self.ob.observe(a, self.held(), releasing)
        key = json.dumps(o)
        if key not in self.obs_idx:
            self.obs.append(json.loads(key))
            self.obs_idx[key] = len(self.obs)
        i = self.obs_idx[key]
        if not force and self.recs and self.recs[-1]["o"] == i and self.recs[-1]["a"] == a and (
                not self.keep_fx or self.recs[-1]["fx"] == fx):
            return
        self.recs.append({"a": a, "k": k, "o": i, "fx": fx, **kw})

    def tindex(self, tid: str) -> int:
        return self.ob.order.index(tid) + 1 if tid in self.ob.order else 998

    def _event(self, w: S.Worker):
        kind, data = w.req[0], w.req[1]
        a = w.idx + 1
        if kind == "start":
            self.record(a, "obs", force=False)
            self.record(a, "start", t=self.tindex(json.loads(data)["t"]))
        elif kind == "end":
            self.record(a, "end", out=json.loads(data))
        elif kind == "intr":
            self.record(a, "intr")
        elif kind == "ask":
            d = json.loads(data)
            self.record(a, "obs", force=False)
            view = [{"st": "?", "by": 0, "loss": -1, "cost": -1, "dur": -1, "rep": 0} for _ in self.ob.order]
            for tid, (st, by, rep) in d["view"].items():
                i = self.tindex(tid)
                if i > len(view):
                    view.append({"st": "?", "by": 0, "loss": -1, "cost": -1, "dur": -1, "rep": 0})
                    continue
                v = {"st": {"pending": "p", "evaluating": "e", "success": "s", "crashed": "c",
                            "failed": "c"}.get(st, "?"),
                     "by": 0 if st == "pending" else self.ob.name(by, a),
                     "loss": -1, "cost": -1, "dur": -1, "rep": 0}
                if rep is not None:
                    v.update(loss=rep[0], cost=rep[1], dur=rep[2], rep=self.ob.dig(rep[3]))
                elif v["st"] in "sc":  # finished, but the result is not shown
                    v["st"] = "?"
                view[i - 1] = v
            self.record(a, "ask", view=view, u=d["u"])

    def _ended(self, w: S.Worker, killed=False):
        a = w.idx + 1
        if not ((killed or w.exit == "killed") and self.keep_fx):  # a dead worker holds no locks
            self.record(a, "obs", force=False)
        if killed or w.exit == "killed":
            self.record(a, "crash")
        elif w.exit == "done":
            self.record(a, "exit", how="done")
        elif w.exit == "raised":
            names = [c[0] for c in w.info["chain"]]
            if names[0] == "KeyboardInterrupt":
                self.record(a, "raised")
            elif names[0] == "WorkerRaiseError":
                # the error that is raised must be about a failed evaluation
                ok = any("planned failure" in c[1] for c in w.info["chain"][1:]) or any(
                    c[0] in ("KeyError", "ValueError", "TypeError", "ErrorWithTB", "Exception") for c in w.info["chain"][1:])
                self.record(a, "exit", how="raised" if ok else "raised-without-cause")
            else:
                self.record(a, "exit", how="failed: " + ": ".join(w.info["chain"][0])[:200])
        else:
            self.record(a, "exit", how=str(w.exit))

    # ---- running
    def spawn(self, i: int):
        w = self.sched.spawn(self.worker_fn(i))
        self.record(i + 1, "launch")
        if not w.alive:
            self._ended(w)
        return w

    def step(self, w: S.Worker, reply=b"g"):
        self.steps += 1
        self.by_worker[w.idx] = self.by_worker.get(w.idx, 0) + 1
        self.kinds.append(f"{w.idx}{w.req[0]}")
        self.sched.step(w, reply)
        if not w.alive:
            self._ended(w)
            return
        k = w.req[0]
        if k == "unlock":
            self.record(w.idx + 1, "obs", releasing=w.req[1], force=False)
        elif k in ("start", "end", "intr", "ask"):
            self._event(w)

    def initial(self) -> dict:
        init, _ = self.ob.observe(900, {}, None)
        trials = [{"st": t["st"], "by": t["by"], "smp": t["smp"], "cfg": t["cfg"], "ver": 1,
                   "res": {k: t[k] for k in ("loss", "cost", "dur", "rep")}} for t in init["t"]]
        return {"trials": trials, "errs": list(init["e"]), "used": init["u"]}

    def trace(self, init) -> dict:
        return {"set": [w["set"] for w in self.sc["workers"]], "init": init, "asks": self.sc["searcher"] == "probe",
                "obs": self.obs, "ev": self.recs}

    def worker_fn(self, i: int):
        cfg = {"searcher": self.sc["searcher"], "summary": self.sc.get("summary", False), **self.sc["workers"][i]}
        return lambda idx: worker_main(self.root, cfg, i + 1)

    def switch(self, frm, to):
        if frm is not None and frm is not to and frm.alive:
            self.record(frm.idx + 1, "obs")
        return to

    def run(self) -> dict:
        sd = self.sd
        rng = random.Random(sd.get("seed", 0))
        n = len(self.sc["workers"])
        init = self.initial()
        late = [i for i in range(n) if self.sc["workers"][i].get("late")]
        points = {int(k): v for k, v in sd.get("points", [])}
        crashes = {int(k): bool(v) for k, v in sd.get("crash", [])}
        cw = sd.get("crash_w", None)
        prio = list(range(n))
        if sd["kind"] == "pct":
            rng.shuffle(prio)
            change = set(rng.sample(range(1, sd.get("len", 400)), sd.get("d", 3)))
        try:
            for i in range(n):
                if i not in late:
                    self.spawn(i)
            cur = None
            if "first" in sd:
                cur = self.sched.workers[sd["first"]]
            while True:
                run = self.sched.runnable()
                if not run:
                    alive = [w for w in self.sched.workers if w.alive]
                    if alive:
                        self.hang = f"deadlock: {alive}"
                        break
                    if late:
                        cur = self.spawn(late.pop(0))
                        continue
                    break
                k = self.steps if cw is None else self.by_worker.get(cw, 0)
                want = None
                if cur not in run:
                    if sd["kind"] == "rand":
                        want = rng.choice(run)
                    elif sd["kind"] == "pct":
                        want = max(run, key=lambda w: prio[w.idx])
                    else:
                        want = run[0] if cur is None else min(run, key=lambda w: (w.idx - cur.idx) % 8)
                if sd["kind"] == "list":
                    if k in points and cw is None:
                        t = points.pop(k)
                        c = [w for w in run if w.idx == t]
                        if c:
                            want = c[0]
                elif sd["kind"] == "rand":
                    if rng.random() < sd["p"]:
                        want = rng.choice(run)
                elif sd["kind"] == "pct":
                    if self.steps in change:
                        prio[(cur or run[0]).idx] = -self.steps
                    want = max(run, key=lambda w: prio[w.idx])
                if want is not None and want is not cur:
                    cur = self.switch(cur, want)
                if k in crashes and (cw is None or cur.idx == cw):
                    partial = crashes.pop(k)
                    self.kinds.append(f"{cur.idx}CRASH:{cur.req[0]}")
                    if not partial or cur.req[0] == "write":
                        self.steps += 1
                        self.record(cur.idx + 1, "obs")
                        self.sched.kill(cur, partial)
                        self._ended(cur, killed=True)
                        if self.sc.get("respawn") and late:
                            self.spawn(late.pop(0))
                        continue
                self.step(cur)
        except S.Hang as e:
            self.hang = str(e)
        finally:
            self.sched.close()
        if self.hang:
            self.record(1, "exit", how="hang")
        return {"trace": self.trace(init), "steps": self.steps, "by_worker": self.by_worker, "kinds": self.kinds,
                "exits": [(w.exit, w.info) for w in self.sched.workers], "hang": self.hang}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(template, scenario, schedule) -> dict:
    x = Execution(template, scenario, schedule)
    try:
        return x.run()
    finally:
        x.close()


def build_template(kind: str, searcher: str = "probe") -> Path:
    """A run directory as left behind by earlier (dead) workers:
       kind is a string over p (a pending trial), e (evaluating), s (success), c (crashed)."""
    sc = {"searcher": searcher, "workers": [{"set": settings(maxTotal=1, maxW=0), "plan": []}]}
    x = Execution(None, sc, {"kind": "list"})
    q = x.run()
    if q["exits"][0][0] != "done":
        raise RuntimeError(f"could not create a run: {q['exits']}")
    root = x.dir / "r"
    for ch in kind:
        s = {"searcher": searcher,
             "workers": [{"set": settings(maxTotal=100, onErr="ignore"), "plan": [{"ok": ch != "c", "cost": 1}]}]}
        y = Execution(None, s, {"kind": "list"})
        shutil.copytree(root, y.root)
        y._relocate(root)
        n0 = len(list(y.root.glob("configs/*/.version")))
        # the leftovers of earlier letters must not be picked up: hide pending ones
        hidden = []
        for st in y.root.glob("configs/*/state.txt"):
            if st.read_text() == "pending":
                st.write_text("evaluating")
                hidden.append(st)
        w = y.spawn(0)
        while w.alive:
            y.step(w)
            if not w.alive:
                break
            new = len(list(y.root.glob("configs/*/.version"))) > n0
            if ch == "p" and new and not w.locks:
                y.sched.kill(w)
            elif ch == "e" and w.req[0] == "start":
                y.sched.kill(w)
            elif ch in "sc" and not w.locks and new and any(
                    (d / "report.yaml").exists() for d in [max(y.root.glob("configs/config_*"), key=lambda d: int(d.name.split("_")[1]))]) \
                    and "end" in "".join(y.kinds) and _accounted(y, ch):
                y.sched.kill(w)
        y.sched.close()
        for st in hidden:
            st.write_text("pending")
        x.close()
        x, root = y, y.root
    return root


def _accounted(y: Execution, ch: str) -> bool:
    """The worker has moved on from its report (it asks for, or looks at, the next trial)."""
    o, _ = y.ob.observe(1, {}, None)
    fin = [t for t in o["t"] if t["st"] in "sc"]
    cost = sum(t["cost"] for t in fin if t["cost"] > 0)
    return o["u"] == cost and len(o["e"]) == sum(t["st"] == "c" for t in fin)
