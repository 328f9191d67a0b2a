"""P29: what the searchers with a model learn from, and what they make of it.  Judged by Surrogate.tla."""

from __future__ import annotations

import contextlib
import inspect
import math
import random

import vlib
from priors import fix_seeds, milli, new_trial, quiet


# ------------------------------------------------------------------ what is recorded
class Seen:
    """Models and acquisition functions of the libraries, in the order they are made."""

    def __init__(self):
        self.models, self.base, self.acqs = [], [], []


@contextlib.contextmanager
def watching():
    from botorch.acquisition import qLogNoisyExpectedImprovement as Base
    from botorch.acquisition.acquisition import AcquisitionFunction
    from botorch.models import SingleTaskGP

    seen = Seen()
    saved = [(c, c.__init__) for c in (SingleTaskGP, AcquisitionFunction, Base)]

    def wrap(cls, note):
        orig = cls.__init__
        sig = inspect.signature(orig)

        def init(self, *a, **k):
            b = sig.bind(self, *a, **k)
            note(self, dict(b.arguments))
            orig(self, *a, **k)

        cls.__init__ = init

    def tens(t):
        return None if t is None else t.detach().clone()

    wrap(SingleTaskGP, lambda s, b: seen.models.append((s, tens(b["train_X"]), tens(b["train_Y"]))))
    wrap(AcquisitionFunction, lambda s, b: seen.acqs.append(s))
    wrap(Base, lambda s, b: seen.base.append((s, b.get("model"))))
    try:
        yield seen
    finally:
        for c, i in saved:
            c.__init__ = i


def outermost(seen):
    """The acquisition function that is maximised."""
    base = seen.base[-1][0]
    return base, next(a for a in reversed(seen.acqs) if a is base or "Weighted" in type(a).__name__ or getattr(a, "acq", None) is not None)


def avoided(seen):
    """The running evaluations which it takes into account."""
    return getattr(outermost(seen)[1], "X_pending", None)


def weighted(seen, X):
    """What is added to the plain acquisition function at some points."""
    import torch

    base, outer = outermost(seen)
    with torch.no_grad():
        return (outer(X.unsqueeze(1)) - base(X.unsqueeze(1))).reshape(-1).tolist()


# ----------------------------------------------------------------------------- spaces
def space_of(kind, prior, rng, fid=False):
    import neps
    from neps.search_spaces.search_space import SearchSpace

    d = lambda v: {"default": v, "default_confidence": rng.choice(("low", "medium"))} if prior else {}
    hp = {
        "float": lambda: {"x": neps.Float(0.0, 1.0, **d(0.25)), "y": neps.Float(-5.0, 5.0, **d(1.0))},
        "mixed": lambda: {"x": neps.Float(1e-3, 10.0, log=True, **d(0.1)), "n": neps.Integer(1, 500, **d(100)), "c": neps.Categorical(["a", "b", "c"], **d("b"))},
        "choices": lambda: {"b": neps.Categorical(["u", "v", "w", "x", "y"], **d("v")), "a": neps.Categorical([1, 2, 3, 4], **d(3))},
        "many": lambda: {f"z{i}": neps.Float(0.0, 1.0, **d(0.5)) for i in range(5)},
    }[kind]()
    if fid:
        hp["e"] = neps.Integer(1, 9, is_fidelity=True)
    elif kind != "choices" and rng.random() < 0.5:
        hp["k"] = neps.Constant("const")
    items = list(hp.items())
    rng.shuffle(items)
    return SearchSpace(**dict(items))


class Codes:
    """Which of the configurations a row of the model's data is."""

    def __init__(self, space):
        from neps.search_spaces.encoding import ConfigEncoder

        self.params = {**space.numerical, **space.categoricals}
        self.enc = ConfigEncoder.default(self.params, constants=space.constants)
        self.names = set(self.params)
        self.rows = []

    def bare(self, config):
        return {k: v for k, v in config.items() if k in self.names}

    def row(self, config):
        import torch

        return self.enc.encode([{**self.bare(config), **{k: config[k] for k in self.enc.constants if k in config}}]).to(torch.float64)[0]

    def new(self, config, cfg):
        self.rows.append((self.row(config), cfg))

    def taken(self, config):
        r = self.row(config)
        return any((r - x).abs().max() < 1e-5 for x, _ in self.rows)

    def who(self, X):
        if X is None or X.numel() == 0:
            return []
        X = X.reshape(-1, X.shape[-1])
        return [next((c for r, c in self.rows if r.shape == x.shape and (r - x).abs().max() < 1e-5), -2) for x in X]

    def pairs(self, X, Y):
        return [{"cfg": c, "y": yi} for c, yi in zip(self.who(X), [milli(v) for v in Y.reshape(-1).tolist()])]

    def points(self, n, rng):
        import torch

        from neps.search_spaces.search_space import SearchSpace

        sp = SearchSpace(**{k: p.clone() for k, p in self.params.items()}, **{})
        out = [sp.sample(user_priors=False, ignore_fidelity=True).hp_values() for _ in range(n)]
        return torch.stack([self.row({**self.enc.constants, **c}) for c in out])

    def prior(self):
        from neps.sampling.priors import Prior

        return Prior.from_parameters(self.params[n] for n in sorted(self.params))


def finish(t, st, loss, cost, rng):
    bad = st == "failed" and rng.choice(("error", "inf", "nan"))
    v = loss / 1000 if not bad else {"error": None, "inf": math.inf, "nan": math.nan}[bad]
    t.report = t.set_complete(report_as="failed" if bad == "error" else "success", time_end=1.0, loss=v, cost=None if cost < 0 else float(cost), learning_curve=None, err=ValueError("x") if bad == "error" else None, tb="x" if bad == "error" else None, extra=None, evaluation_duration=1.0)


class S:  # a configuration that is under way
    def __init__(self, i, config):
        self.id, self.config, self.previous_config_id = i, config, None


def budget(used, total):
    from neps.state.optimizer import BudgetInfo

    return BudgetInfo(max_cost_budget=float(total), used_cost_budget=float(used))


# ----------------------------------------------------------------- one fidelity: BO, piBO
def one(job):
    fates, st, init, sd = job
    how = f"BayesianOptimization {st}, {fates}, initial design {init}"
    recs = []
    try:
        import torch

        from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization

        rng = random.Random(sd)
        fix_seeds(sd)
        sp = space_of(st["space"], st["prior"], rng)
        K = Codes(sp)
        with quiet(), watching() as seen:
            if st["space"] == "choices":
                init = min(init, 3)  # (there are only so many different ones)
            first = rng.random() < 0.3
            opt = BayesianOptimization(sp, use_priors=st["prior"], use_cost=st["cost"], cost_on_log_scale=rng.random() < 0.7, initial_design_size=init, sample_default_first=first)
            init += first  # (the default, and as many samples as asked for)
            total = 100
            used = rng.choice((0, 10, 25, 50, 90))
            trials, design = {}, []
            while len(design) < init:
                s = opt.ask(dict(trials), budget(used, total))
                design.append(dict(s.config))
                trials[s.id] = new_trial(s, 0)
            trials, h = {}, []
            for i, f in enumerate(fates):
                c = design[i] if i < len(design) and not K.taken(design[i]) else None
                while c is None or K.taken(c):
                    c = {**K.enc.constants, **sp.sample(user_priors=False).hp_values()}
                K.new(c, i)
                t = new_trial(S(str(i + 1), c), i)
                loss = rng.randrange(1, 4) * rng.choice((1000, 10))
                cost = -1 if rng.random() < 0.25 and i > 0 or f == "open" else rng.randrange(0, 9)
                if f != "open":
                    finish(t, f, loss, cost, rng)
                trials[str(i + 1)] = t
                h.append({"cfg": i, "rung": 0, "st": f, "loss": loss if f == "ok" else 0, "cost": cost})
            # (asking for costs where none was ever reported is refused)
            if st["cost"] and not any(x["cost"] >= 0 and x["st"] != "open" for x in h):
                return recs
            n0 = len(seen.models)
            got = opt.ask(dict(trials), budget(used, total))
            new = seen.models[n0:]
            m = len(h) >= init and bool(new)
            r = {"kind": "one", "h": h, "init": init, "phase": "design" if len(h) < init else "model" if m else "random", "point": 0, "costs": "unused", "train": [], "pending": [], "paid": [], "how": how}
            if len(h) < init:
                r["point"] = next((i + 1 for i, d in enumerate(design) if d == dict(got.config) and (i >= len(h) or design.index(d) == i)), 0)
                if design[len(h)] == dict(got.config):
                    r["point"] = len(h) + 1
                if new:
                    r["phase"] = "model"
            if m:
                model = seen.base[-1][1]
                told = next(x for x in new if x[0] is model)
                r["train"], r["pending"] = K.pairs(told[1], told[2]), K.who(avoided(seen))
                paid = [x for x in new if x[0] is not model]
                if st["cost"]:
                    r["costs"] = "used"
                    # (a cost of zero has no logarithm)
                    r["paid"] = [{"cfg": c, "y": int(round(v))} for x in paid for c, v in zip(K.who(x[1]), x[2].reshape(-1).tolist())]
                elif paid:
                    r["phase"] = "costs"
                if not r["pending"]:
                    X = K.points(7, rng)
                    w = weighted(seen, X)
                    lp = K.prior().log_prob(X, frm=K.enc.domains).tolist() if st["prior"] else [0.0] * 7
                    lc = [0.0] * 7
                    if paid:
                        with torch.no_grad():
                            cm = paid[-1][0].posterior(X).mean.reshape(-1)
                        lc = cm.clamp_min(torch.finfo(cm.dtype).eps).log().tolist()
                    rows = [{"w": milli(w[i] - w[0]), "lp": milli(lp[i] - lp[0]), "lc": milli(lc[i] - lc[0])} for i in range(1, 7)]
                    # what the factors are by themselves, if they can be told
                    a = (total - used) * 1000 // total if paid else 0
                    e = 0
                    if st["prior"]:
                        i = max(range(6), key=lambda i: abs(rows[i]["lp"]))
                        d = rows[i]["lp"]
                        e = int(round(1000 * (rows[i]["w"] + a * rows[i]["lc"] / 1000) / d)) if abs(d) > 200 else -1
                    if e >= 0 and all(abs(x["lp"]) < 50000 and abs(x["lc"]) < 50000 for x in rows):
                        recs.append({"kind": "weighs", "rows": rows, "e": e, "a": a, "used": used, "budget": total if paid else 0, "how": how})
                    elif e < -20:
                        recs.append({"kind": "failed", "what": f"the prior counts {e}", "how": how})
            recs.append(r)
    except Exception as e:  # noqa: BLE001
        import traceback

        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}", "how": how})
    return recs


def decay(job):
    """How the weight of the prior falls with the number of samples."""
    kinds, sd = job
    recs, out = [], []
    how = f"piBO {kinds}"
    try:
        from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization

        init = random.Random(sd).choice((2, 3, 5))
        for kind in kinds:
            rng = random.Random(sd)
            fix_seeds(sd)
            sp = space_of(kind, True, rng)
            K = Codes(sp)
            with quiet(), watching() as seen:
                opt = BayesianOptimization(sp, use_priors=True, initial_design_size=init)
                trials, es = {}, []
                n = init
                dims = len(K.params)
                for n in [init + k for k in (0, 1, 2, 3, 5, 8, 12)] + [init + 12 * dims]:
                    while len(trials) < n:
                        c = {**K.enc.constants, **sp.sample(user_priors=False).hp_values()}
                        t = new_trial(S(str(len(trials) + 1), c), 0)
                        finish(t, "ok", rng.randrange(1, 1000), -1, rng)
                        trials[t.id] = t
                    opt.ask(dict(trials), None)
                    X = K.points(12, rng)
                    w, lp = weighted(seen, X), K.prior().log_prob(X, frm=K.enc.domains).tolist()
                    i, j = max(range(12), key=lambda i: lp[i]), min(range(12), key=lambda i: lp[i])
                    es.append(int(round(1000 * (w[i] - w[j]) / (lp[i] - lp[j]))))
            out.append(es)
            recs.append({"kind": "decay", "e": es, "how": f"{how} {kind}"})
        recs.append({"kind": "longer", "few": out[0][:-1], "many": out[1][:-1], "how": how})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": how})
    return recs


# ------------------------------------------------------------ many fidelities: MOBSTER, PriorBand
def searcher(name, sp, mode, init, prior):
    from neps.optimizers.multi_fidelity.hyperband import MOBSTER
    from rungs import classes

    kw = {"budget": 1, "eta": 3, "ignore_errors": True, "pipeline_space": sp}
    if name == "MOBSTER":
        return MOBSTER(**kw, use_priors=prior)
    return classes()[name](**kw, sample_default_first=False, sample_default_at_target=False, model_based=True, modelling_type=mode, initial_design_size=init)


def loss_of(K, config):
    """Lowest at a corner of the space; different for different configurations."""
    return 100 + int(round(1000 * sum(float(v) / max(1.0, d.upper) * (i + 1) for i, (v, d) in enumerate(zip(K.row(config).tolist(), K.enc.domains)))))


def many(job):
    case, n, sd = job
    name, mode = case["name"], "rung" if case["name"] == "MOBSTER" else case["mode"]
    how = f"{name} {case}"
    recs = []
    try:
        rng = random.Random(sd)
        fix_seeds(sd)
        prior = name != "MOBSTER" or rng.random() < 0.3
        sp = space_of(rng.choice(("float", "mixed")), prior, rng, fid=True)
        K = Codes(sp)
        init = case["start"] if mode == "joint" else len(K.params) + 2
        fids = [1, 3, 9]
        trials, h, where, running = {}, [], {}, []
        early, late = [], []
        with quiet(), watching() as seen:
            opt = searcher(name, sp, mode, case["start"], prior)
            for k in range(n):
                while running and (len(running) >= case["workers"] or rng.random() < 0.4):
                    sid = running.pop(rng.randrange(len(running)))
                    t, j = trials[sid], where[sid]
                    st = "failed" if rng.randrange(100) < case["fails"] else "ok"
                    loss = loss_of(K, t.config) + 3 * h[j]["rung"]
                    finish(t, st, loss, -1, rng)
                    h[j]["st"], h[j]["loss"] = st, loss if st == "ok" else 0
                m0 = len(seen.models)
                del seen.acqs[:], seen.base[:]
                s = opt.ask(dict(trials), None)
                on = len(seen.models) > m0
                r = {"kind": "many", "s": {"mode": mode, "fids": fids, "init": init}, "h": [dict(x) for x in h], "model": on, "expo": -1, "train": [], "pending": [], "how": how}
                if on:
                    told = seen.models[-1]
                    r["train"], r["pending"] = K.pairs(told[1], told[2]), K.who(avoided(seen))
                    if prior and not r["pending"]:
                        X = K.points(8, rng)
                        lp = K.prior().log_prob(X, frm=K.enc.domains).tolist()
                        w = weighted(seen, X)
                        i, j = max(range(8), key=lambda i: lp[i]), min(range(8), key=lambda i: lp[i])
                        if lp[i] - lp[j] > 0.2:
                            r["expo"] = max(0, int(round(1000 * (w[i] - w[j]) / (lp[i] - lp[j]))))
                if len(h) <= 24 or k % 5 == 0:
                    recs.append(r)
                c, g = (int(x) for x in s.id.split("_"))
                if s.previous_config_id is None and g == 0 or c not in {x["cfg"] for x in h}:
                    K.new(s.config, c)
                    (late if on else early).append(loss_of(K, s.config))
                t = new_trial(S(s.id, dict(s.config)), k)
                trials[s.id] = t
                where[s.id] = len(h)
                h.append({"cfg": c, "rung": g, "st": "open", "loss": 0, "cost": -1})
                running.append(s.id)
        if not prior and len(early) >= 4 and late:
            mid = sorted(early)[len(early) // 2]
            recs.append({"kind": "improves", "n": len(late), "better": sum(x < mid for x in late), "how": how})
    except Exception as e:  # noqa: BLE001
        import traceback

        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}", "how": how})
    return recs


def improves(job):
    """Proposals of the model against what was tried before, sequentially and by several workers."""
    kind, workers, sd = job
    how = f"BayesianOptimization minimises, {kind}, {workers} workers"
    recs = []
    try:
        from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization

        rng = random.Random(sd)
        fix_seeds(sd)
        n = better = 0
        for _ in range(3):
            sp = space_of(kind, False, rng)
            K = Codes(sp)
            flip = rng.choice((1, -1))
            with quiet():
                opt = BayesianOptimization(sp, initial_design_size=6)
                trials, first, running = {}, [], []
                for i in range(16):
                    s = opt.ask(dict(trials), None)
                    t = new_trial(S(s.id, dict(s.config)), i)
                    trials[s.id] = t
                    running.append(s.id)
                    loss = 5000 + flip * loss_of(K, s.config)
                    if i < 6:
                        first.append(loss)
                    elif i >= 9:
                        n += 1
                        better += loss < sorted(first)[3]
                    while len(running) >= workers:
                        x = running.pop(rng.randrange(len(running)))
                        finish(trials[x], "ok", 5000 + flip * loss_of(K, trials[x].config), -1, rng)
        recs.append({"kind": "improves", "n": n, "better": better, "how": how})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": how})
    return recs


# ------------------------------------------------------------------------------ check
KINDS = {"one": one, "decay": decay, "many": many, "improves": improves}


def run_job(j):
    import torch

    torch.set_num_threads(1)
    return KINDS[j[0]](j[1])


def jobs_for(cases, s, T):
    rng = random.Random(s * 104729)
    jobs = []
    hs = sorted(tuple(x) for x in cases["histories"])
    st = sorted(cases["settings"], key=str)
    for i, f in enumerate(hs):
        for k in range(len(st) if T else 1):
            jobs.append(("one", (f, st[k] if T else rng.choice(st), rng.choice((1, 2, 3, 4, 5, 6, 8)), rng.randrange(1 << 30))))
    for _ in range(12 if T else 2):
        jobs += [("decay", (ks, rng.randrange(1 << 30))) for ks in (("float", "many"), ("mixed", "many"))]
    for c in sorted(cases["searches"], key=str):
        if c["name"] == "MOBSTER" and c["mode"] == "joint":
            continue
        if T or rng.random() < 0.6:
            jobs += [("many", (c, 40, rng.randrange(1 << 30))) for _ in range(3 if T else 1)]
    for k in ("float", "mixed", "choices"):
        for w in (1, 3):
            jobs += [("improves", (k, w, rng.randrange(1 << 30))) for _ in range(6 if T else 1)]
    return jobs


def strip(r):
    return {k: v for k, v in r.items() if k != "how"}


def pool(flat):
    """Proposals of one searcher are counted together: a few by themselves say little."""
    out, sums = [], {}
    for j, r in flat:
        if r["kind"] == "improves" and j[0] == "many":
            k = r["how"].split()[0]
            a = sums.setdefault(k, [j, 0, 0])
            a[1], a[2] = a[1] + r["n"], a[2] + r["better"]
        else:
            out.append((j, r))
    return out + [(j, {"kind": "improves", "n": n, "better": b, "how": f"{k} minimises"}) for k, (j, n, b) in sums.items() if n >= 20]


def surrogate(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "MCSurrogate", "MCSurrogate_deep.cfg" if T else "MCSurrogate.cfg", timeout=1500)
    jobs = jobs_for(cases, s, T)
    random.Random(s).shuffle(jobs)
    res = vlib.pmap(run_job, jobs, chunk=2)
    flat = pool([(j, r) for j, rs in zip(jobs, res) for r in rs])
    verd = vlib.table(rep, "TableSurrogate", "Table.cfg", [strip(r) for _, r in flat])
    rep.add(traces_validated_against_impl=len(flat))
    rep.cov["kinds"] = {k: sum(r["kind"] == k for _, r in flat) for k in sorted({r["kind"] for _, r in flat})}
    rep.cov["phases"] = {p: sum(r["kind"] == "one" and r["phase"] == p for _, r in flat) for p in ("design", "random", "model")}
    rep.cov["models_of_many_fidelities"] = sum(r["kind"] == "many" and r["model"] for _, r in flat)
    rep.cov["minimises"] = [(r["how"], r["better"], r["n"]) for _, r in flat if r["kind"] == "improves"]
    rep.sample(flat[0][1])
    rep.sample(flat[-1][1])
    seen = {}
    for (j, r), v in zip(flat, verd):
        if v:
            k = (j[0], tuple(sorted(v)), r["kind"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1:
                rep.violation(f"{r['how']}: wrong {sorted(v)}: {str(strip(r))[:900]}", {"kind": "surrogate", "job": j})
    if seen:
        rep.cov["wrong"] = {str(k): n for k, n in seen.items()}


def replay(d):
    k, x = d["job"]
    rs = run_job((k, tuple(x) if isinstance(x, list) else x))
    v = vlib.table(None, "TableSurrogate", "Table.cfg", [strip(r) for r in rs])
    for r, b in zip(rs, v):
        if b:
            print(sorted(b), r)
    return 1 if any(v) else 0
