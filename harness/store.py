"""P11: the shared versioned resources, judged by Store.tla."""

from __future__ import annotations

import copy
import itertools
import json
import random
import shutil

import vlib


def payload(kind: str, i: int):
    """The i-th (1-based) value of a resource of this kind."""
    from neps.state import SeedSnapshot, Trial
    from neps.state.err_dump import ErrDump, SerializableTrialError
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    if kind == "trial":
        t = Trial.new(trial_id="1", location="", config={"a": "b", "x": 0.1}, time_sampled=0, previous_trial=None,
                      previous_trial_location=None, worker_id=0)
        # (a result is never withdrawn, so every value has one)
        t.set_evaluating(time_started=2.5, worker_id="w" + str(i))
        t.report = t.set_complete(time_end=3, loss=1.25 * i, cost=None, extra={"hi": [1, i]}, learning_curve=[1],
                                  report_as="success" if i != 2 else "crashed", evaluation_duration=1, err=None, tb=None)
        return t
    if kind == "opt":
        return OptimizationState(budget=BudgetInfo(max_cost_budget=10, used_cost_budget=i), shared_state={"k": [i, "v"]})
    if kind == "info":
        return OptimizerInfo({"searcher": "s", "n": i})
    if kind == "err":
        return ErrDump([SerializableTrialError(trial_id=str(j), worker_id="w", err_type="E", err=f"m\n{j}", tb="tb") for j in range(i)])
    if kind == "seed":
        import numpy as np
        import torch

        random.seed(i), np.random.seed(i), torch.manual_seed(i)
        if i % 2 == 0:
            np.random.standard_normal()
            random.gauss(0, 1)
        return SeedSnapshot.new_capture()
    raise ValueError(kind)


def ident(kind, x) -> int:
    for i in range(1, 4):
        if x == payload(kind, i):
            return i
    return 99


class Run:
    def __init__(self, kind: str, handles: int):
        from neps.state import Synced
        from neps.state.filebased import (FileLocker, FileVersioner, ReaderWriterErrDump, ReaderWriterOptimizationState,
                                          ReaderWriterOptimizerInfo, ReaderWriterSeedSnapshot, ReaderWriterTrial)

        self.kind, self.Synced = kind, Synced
        self.dir = vlib.tmpdir("s")
        self.loc = self.dir / "r"
        self.loc.mkdir()
        self.mk = lambda: dict(  # noqa: E731
            location=self.loc, locker=FileLocker(lock_path=self.loc / ".lock", poll=0.001, timeout=0.002),
            versioner=FileVersioner(version_file=self.loc / ".version"),
            reader_writer={"trial": ReaderWriterTrial, "opt": ReaderWriterOptimizationState, "info": ReaderWriterOptimizerInfo,
                           "err": lambda: ReaderWriterErrDump("all"), "seed": ReaderWriterSeedSnapshot}[kind]())
        self.h = [None] * (handles + 1)
        self.ctx = None
        self.lock = 0
        self.rec = []

    def enabled(self, op, h) -> bool:
        if op in ("new", "load", "new_or_load"):
            return self.lock != h or h == 0
        if op == "remove":
            return self.lock == 0 and (self.loc / ".version").exists()
        if self.h[h] is None:
            return False
        if op in ("put_held", "release"):
            return self.lock == h
        if self.lock == h:
            return op in ("peek",)
        return True

    def do(self, op, h, d):
        from portalocker.exceptions import LockException

        from neps.exceptions import (LockFailedError, VersionedResourceAlreadyExistsError, VersionedResourceDoesNotExistsError,
                                     VersionedResourceRemovedError, VersionMismatchError)

        r, o = "ok", 0
        data = payload(self.kind, d) if d else None
        try:
            if op == "new":
                self.h[h] = self.Synced.new(data=data, **self.mk())
            elif op == "load":
                self.h[h] = self.Synced.load(**self.mk())
                o = ident(self.kind, self.h[h]._unsynced())
            elif op == "new_or_load":
                self.h[h] = self.Synced.new_or_load(data=data, **self.mk())
                o = ident(self.kind, self.h[h]._unsynced())
            elif op == "get":
                o = ident(self.kind, self.h[h].synced())
            elif op == "peek":
                o = ident(self.kind, self.h[h]._unsynced())
            elif op == "stale":
                r = "yes" if self.h[h]._is_stale() else "no"
            elif op == "is_locked":
                r = "yes" if self.h[h]._is_locked() else "no"
            elif op == "put":
                self.h[h].put(data)
            elif op == "acquire":
                c = self.h[h].acquire()
                cur, put = c.__enter__()
                self.ctx, self.lock, self.putfn = c, h, put
                o = ident(self.kind, cur)
            elif op == "put_held":
                self.putfn(data)
            elif op == "release":
                self.ctx.__exit__(None, None, None)
                self.ctx, self.lock = None, 0
            elif op == "remove":
                for p in self.loc.iterdir():
                    if p.name not in (".lock",):
                        p.unlink()
        except (LockFailedError, LockException):
            r = "locked"
        except VersionedResourceAlreadyExistsError:
            r = "exists"
        except VersionedResourceDoesNotExistsError:
            r = "missing"
        except VersionedResourceRemovedError:
            r = "removed"
        except VersionMismatchError:
            r = "mismatch"
        except Exception as e:  # noqa: BLE001
            r = f"failed: {e!r}"[:200]
        self.rec.append({"op": op, "h": h, "d": d, "r": r, "o": o})

    def close(self):
        if self.ctx is not None:
            self.ctx.__exit__(None, None, None)
        shutil.rmtree(self.dir, ignore_errors=True)


OPS = ["new", "load", "new_or_load", "get", "peek", "stale", "put", "acquire", "put_held", "release", "remove", "is_locked"]


def run_ops(job):
    kind, handles, ops = job
    x = Run(kind, handles)
    try:
        for op, h, d in ops:
            if x.enabled(op, h):
                x.do(op, h, d)
        return {"handles": handles, "ev": x.rec}
    finally:
        x.close()


def random_ops(rng, n, handles, values):
    w = {"new": 1, "load": 2, "new_or_load": 3, "get": 5, "peek": 2, "stale": 3, "put": 7, "acquire": 4, "put_held": 6,
         "release": 6, "remove": 0.4, "is_locked": 1}
    out = []
    for _ in range(n):
        op = rng.choices(OPS, [w[o] for o in OPS])[0]
        h = rng.randrange(1, handles + 1)
        d = rng.randrange(1, values + 1) if op in ("new", "new_or_load", "put", "put_held") else 0
        out.append((op, 0 if op == "remove" else h, d))
    return out


def store(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCStore", "MC_store.cfg")
    # every sequence of operations of two handles up to a length, after both have opened the resource
    alpha = [("get", 0), ("put", 2), ("put", 3), ("acquire", 0), ("put_held", 2), ("release", 0), ("stale", 0), ("load", 0), ("new", 2),
             ("new_or_load", 3), ("peek", 0)]
    jobs = []
    kinds = ["trial", "opt", "info", "err", "seed"]
    two = [(op, h, d) for op, d in alpha for h in (1, 2)]
    pre = [("new", 1, 1), ("load", 2, 0)]
    for k in (2, 3):
        seqs = list(itertools.product(two, repeat=k))
        if k == 3 and not T:
            seqs = rng.sample(seqs, 1500)
        jobs += [(kinds[i % 5] if k == 3 else "trial", 2, pre + list(x) + [("get", 1, 0), ("get", 2, 0)]) for i, x in enumerate(seqs)]
    jobs += [(k, 3, random_ops(rng, 60, 3, 3)) for k in kinds for _ in range(400 if T else 40)]
    res = vlib.pmap(run_ops, jobs)
    verd, st = vlib.judge("TraceStore", "TraceStore.cfg", res, batch=1500)
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"],
            traces_validated_against_impl=sum(v["judged"] for v in verd), operations=sum(len(r["ev"]) for r in res))
    rep.sample(res[-1]["ev"][:12])
    n = 0
    for j, r, v in zip(jobs, res, verd):
        if not v["ok"] and n < 3:
            n += 1
            k = min(v["reached"], len(r["ev"]) - 1)
            rep.violation(f"{j[0]} resource: after {json.dumps(r['ev'][:k])}, the operation {json.dumps(r['ev'][k])} is not allowed by Store",
                          {"kind": "store", "job": j})


def replay(d):
    r = run_ops((d["job"][0], d["job"][1], [tuple(x) for x in d["job"][2]]))
    v, _ = vlib.judge("TraceStore", "TraceStore.cfg", [r])
    for x in r["ev"]:
        print(json.dumps(x))
    print(v)
    return 0 if v[0]["ok"] else 1
