"""P28: declared defaults and confidences steer what is sampled, as declared.  Judged by Prior.tla."""

from __future__ import annotations

import contextlib
import logging
import math
import random
import warnings

import vlib

CONFS = ("low", "medium", "high")
WHERE = {"low": 0.0, "quarter": 0.25, "middle": 0.5, "high": 1.0}


def milli(x) -> int:
    return -10**9 if not math.isfinite(x) else int(round(max(-10**6, min(10**6, x)) * 1000))


# ------------------------------------------------------------------------- parameters
class Param:
    """A real parameter of a given shape, with some positions and the values there."""

    def __init__(self, shape, seed, conf="low"):
        import neps
        from neps.search_spaces.search_space import SearchSpace

        rng = random.Random(seed)
        self.k, self.shape = shape["k"], shape
        d = shape["def"]
        self.grid = [i / 20 for i in range(21)]
        if self.k == "cat":
            self.choices = rng.choice(([f"c{i}" for i in range(shape["n"])], [3 * i - 2 for i in range(shape["n"])], [i / 4 for i in range(shape["n"])]))
            rng.shuffle(self.choices)
            self.at = list(range(shape["n"]))
            self.vals = self.choices
            self.default = None if d == "none" else self.choices[0 if d == "low" else -1]
            self.hp = neps.CategoricalParameter(self.choices, default=self.default, default_confidence=conf)
        else:
            log = self.k.startswith("log")
            self.a, self.b = {"float": ((0.0, 1.0), (-5.0, 5.0), (100.0, 101.0)), "logfloat": ((1e-6, 10.0), (0.5, 2.0), (1e-3, 1e5)), "int": ((0, 1000), (-2000, 2000), (1, 2001)), "logint": ((64, 2**26), (100, 10**7), (1000, 10**9))}[self.k][rng.randrange(3)]
            self.log = log
            self.at, self.vals = [], []
            for i, p in enumerate(self.grid):
                v = (self.a, self.b)[i // 20] if i in (0, 20) else self.value(p)
                if "int" in self.k:
                    v = int(round(v))
                self.at.append(i * 50)
                self.vals.append(v)
            self.default = None if d == "none" else self.vals[int(WHERE[d] * 20)]
            c = neps.IntegerParameter if "int" in self.k else neps.FloatParameter
            self.hp = c(self.a, self.b, log=log, default=self.default, default_confidence=conf)
        self.defat = -1 if self.default is None else self.at[self.vals.index(self.default)]

    def value(self, p):
        if self.log:
            return math.exp(math.log(self.a) + p * (math.log(self.b) - math.log(self.a)))
        return self.a + p * (self.b - self.a)

    def position(self, v) -> float:
        if self.log:
            return (math.log(v) - math.log(self.a)) / (math.log(self.b) - math.log(self.a))
        return (v - self.a) / (self.b - self.a)

    def cells(self):
        """Where draws are counted: limits of positions, none for choices."""
        return None if self.k == "cat" else [0.0, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 1.0]

    def count(self, vs):
        if self.k == "cat":
            return [sum(v == c and type(v) is type(c) for v in vs) for c in self.choices]
        inside = [self.position(v) for v in vs if self.a <= v <= self.b and isinstance(v, int if "int" in self.k else float)]
        cs = self.cells()
        return [sum(lo <= p < hi or (hi == 1.0 and p == 1.0) for p in inside) for lo, hi in zip(cs, cs[1:])]


def tensor(params, rows):
    """Values as the encoder of the searchers would have them, and the domains they are from."""
    import torch

    cols = [[p.choices.index(v) if p.k == "cat" else v for v in col] for p, col in zip(params, zip(*rows))]
    return torch.tensor(cols, dtype=torch.float64).T, [p.hp.domain for p in params]


def logs_space(p, vs):
    """SearchSpace.compute_prior, as used by the searchers that score configurations."""
    import neps
    from neps.search_spaces.search_space import SearchSpace

    out = []
    for v in vs:
        s = SearchSpace(x=p.hp.clone())
        s["x"].set_value(v)
        out.append(s.compute_prior(log=True))
    return out


def logs_prior(p, vs):
    from neps.sampling.priors import Prior

    x, frm = tensor([p], [[v] for v in vs])
    return Prior.from_parameters([p.hp]).log_prob(x, frm=frm).tolist()


def drawn_space(p, n, user):
    return [p.hp.sample_value(user_priors=user) for _ in range(n)]


def drawn_prior(p, n):
    import torch

    from neps.sampling.priors import Prior

    frm = [p.hp.domain]
    v = [r[0] for r in Prior.from_parameters([p.hp]).sample(n, to=frm, dtype=torch.float64).tolist()]
    if p.k == "cat":
        return [p.choices[int(x)] if x == int(x) and 0 <= x < len(p.choices) else None for x in v]
    return [int(x) if "int" in p.k and x == int(x) else x for x in v]


def shares(p, logs, fine=None):
    """How many thousandths of the draws belong where."""
    if p.k == "cat":
        e = [math.exp(x) for x in logs(p, p.vals)]
        return [int(round(1000 * x / sum(e))) for x in e]
    cs = p.cells()
    # (values in the middle of small pieces; rounding draws to integers moves them by less than half a step)
    m = 400
    grid = [(i + 0.5) / m for i in range(m)]
    f = [p.value(g) for g in grid]
    if p.shape["def"] == "none":
        w = [1.0] * m
    elif "int" in p.k:
        w = [math.exp(x) for x in logs(p, [max(p.a, min(p.b, int(round(v)))) for v in f])]
    else:
        w = [math.exp(x) for x in logs(p, [max(p.a, min(p.b, v)) for v in f])]
    t = sum(w)
    return [int(round(1000 * sum(x for g, x in zip(grid, w) if a <= g < b) / t)) for a, b in zip(cs, cs[1:])]


def fix_seeds(seed):
    import numpy as np
    import torch

    random.seed(seed)
    np.random.seed(seed % 2**32)
    torch.manual_seed(seed)


def single(job):
    shape, sd, n = job
    recs = []
    what = "definition"
    try:
        fix_seeds(sd)
        ps = {c: Param(shape, sd, c) for c in CONFS}
        p = ps["low"]
        k = "cat" if p.k == "cat" else "num"
        for name, logs in (("Prior", logs_prior), ("compute_prior", logs_space)):
            what = name
            if shape["def"] == "none" and name == "compute_prior":
                continue
            rows = {c: [{"at": a, "d": milli(x)} for a, x in zip(ps[c].at, logs(ps[c], ps[c].vals))] for c in CONFS}
            for c in CONFS:
                # (steps of integers on a log scale are not exactly where they are thought to be)
                recs.append({"kind": "density", "k": k, "def": p.defat, "rows": rows[c], "how": f"{name} {c}"})
            if shape["def"] != "none":
                recs.append({"kind": "narrower", "k": k, "def": p.defat, **rows, "how": name})
            if name == "Prior":
                for c in CONFS:
                    if k == "cat":
                        mass = sum(math.exp(x) for x in logs(ps[c], ps[c].vals)) / (len(p.vals) if shape["def"] == "none" else 1)
                    elif p.k == "float" or p.k == "logfloat":
                        mass = sum(math.exp(x) for x in logs(ps[c], [p.value((i + 0.5) / 400) for i in range(400)])) / 400
                    else:
                        continue
                    recs.append({"kind": "whole", "mass": milli(mass), "how": f"{name} {c}"})
        for c in CONFS:
            what = f"draws {c}"
            q = ps[c]
            none = shape["def"] == "none"
            spread = int(round(1000 / len(q.vals))) if k == "cat" else None
            uni = [spread] * len(q.vals) if k == "cat" else [int(round(1000 * (b - a))) for a, b in zip(q.cells(), q.cells()[1:])]
            recs.append({"kind": "draws", "n": n, "counts": q.count(drawn_space(q, n, False)), "share": uni, "how": f"sample_value without priors {c}"})
            recs.append({"kind": "draws", "n": n, "counts": q.count(drawn_space(q, n, True)), "share": uni if none else shares(q, logs_space), "how": f"sample_value with priors {c}"})
            recs.append({"kind": "draws", "n": n, "counts": q.count(drawn_prior(q, n)), "share": uni if none else shares(q, logs_prior), "how": f"Prior.sample {c}"})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{what}: {type(e).__name__}: {e}", "how": what})
    return recs


def centred(job):
    """Prior.make_centered with a width of one's choice."""
    sd = job
    rng = random.Random(sd)
    recs = []
    try:
        from neps.sampling.priors import Prior

        conf = rng.choice((0.1, 0.25, 0.5, 0.6, 0.75, 0.8, 0.9))
        p = Param({"k": rng.choice(("float", "logfloat", "int")), "n": 0, "def": rng.choice(list(WHERE))}, sd)
        x, frm = tensor([p], [[v] for v in p.vals])
        d = Prior.make_centered(frm, [(p.default, conf)]).log_prob(x, frm=frm).tolist()
        recs.append({"kind": "normal", "k": "num", "def": p.defat, "sigma": int(round(1000 * (1 - conf))), "rows": [{"at": a, "d": milli(v)} for a, v in zip(p.at, d)], "how": f"make_centered {conf}"})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": "make_centered"})
    return recs


def joint(job):
    shapes, sd = job
    recs = []
    try:
        import neps
        from neps.search_spaces.search_space import SearchSpace
        from neps.sampling.priors import Prior

        rng = random.Random(sd)
        ps = [Param(s, sd + i, rng.choice(CONFS)) for i, s in enumerate(shapes)]
        for _ in range(4):
            rng.shuffle(ps)
            row = [rng.choice(p.vals) for p in ps]
            x, frm = tensor(ps, [row, [p.vals[0] for p in ps]])
            recs.append({"kind": "joint", "whole": milli(Prior.from_parameters([p.hp for p in ps]).log_prob(x, frm=frm).tolist()[0]), "parts": [milli(logs_prior(p, [v])[0]) for p, v in zip(ps, row)], "how": "Prior"})
            s = SearchSpace(**{f"p{i}": p.hp.clone() for i, p in enumerate(ps)})
            for i, v in enumerate(row):
                s[f"p{i}"].set_value(v)
            recs.append({"kind": "joint", "whole": milli(s.compute_prior(log=True)), "parts": [milli(logs_space(p, [v])[0]) for p, v in zip(ps, row) if p.default is not None], "how": "SearchSpace.compute_prior"})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": "joint"})
    return recs


# -------------------------------------------------------------------------- searchers
@contextlib.contextmanager
def quiet():
    logging.disable(logging.CRITICAL)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            yield
        finally:
            logging.disable(logging.NOTSET)


# name -> how it is made, whether it uses the priors, whether it has a confidence of its own
SEARCHERS = {
    "RandomSearch": (False, False), "RandomSearchPriors": (True, False), "BayesianOptimization": (False, False), "PiBO": (True, False),
    "SuccessiveHalving": (False, False), "SuccessiveHalvingWithPriors": (True, True), "AsynchronousSuccessiveHalving": (False, False),
    "AsynchronousSuccessiveHalvingWithPriors": (True, True), "Hyperband": (False, False), "HyperbandWithPriors": (True, True),
    "AsynchronousHyperband": (False, False), "AsynchronousHyperbandWithPriors": (True, True), "PriorBand": (True, True), "PriorBandAsha": (True, True),
}


def make(name, space, conf, **kw):
    from neps.optimizers.bayesian_optimization.optimizer import BayesianOptimization
    from neps.optimizers.random_search.optimizer import RandomSearch
    from rungs import classes

    if name.startswith("RandomSearch"):
        return RandomSearch(pipeline_space=space, use_priors=name.endswith("Priors"), **kw)
    if name in ("BayesianOptimization", "PiBO"):
        return BayesianOptimization(space, use_priors=name == "PiBO", **{"sample_default_first": False, "initial_design_size": 64, **kw})
    kw = {"budget": 1, "eta": 3, "ignore_errors": True, **kw}
    if SEARCHERS[name][1]:
        kw = {"sample_default_first": False, "sample_default_at_target": False, **({} if conf is None else {"prior_confidence": conf}), **kw}
    return classes()[name](pipeline_space=space, **kw)


def space_of(ps, fid, rng):
    import neps
    from neps.search_spaces.search_space import SearchSpace

    items = [(f"p{i}", p.hp.clone()) for i, p in enumerate(ps)]
    if fid:
        items.append(("e", neps.Integer(1, 9, is_fidelity=True)))
    rng.shuffle(items)
    return SearchSpace(**dict(items))


def new_trial(s, n):
    from neps.state.trial import Trial

    t = Trial.new(trial_id=s.id, config=dict(s.config), location="", previous_trial=s.previous_config_id, previous_trial_location=None, time_sampled=float(n), worker_id="w")
    t.set_evaluating(time_started=1.0, worker_id="w")
    return t


def done(t, loss):
    t.report = t.set_complete(report_as="success", time_end=1.0, loss=loss, cost=1.0, learning_curve=None, err=None, tb=None, extra=None, evaluation_duration=1.0)


def fresh_configs(name, sp, conf, n, mixed):
    """n new configurations that a searcher proposes while nothing is finished."""
    out = []
    while len(out) < n:
        opt = make(name, sp(), conf, **mixed)
        if name in ("BayesianOptimization", "PiBO"):
            trials = {}
            while len(trials) < 60:  # (its initial design)
                s = opt.ask(trials, None)
                trials[s.id] = new_trial(s, 0)
            out += [t.config for t in trials.values()]
        else:
            out += [opt.ask({}, None).config for _ in range(n - len(out))]
    return out[:n]


def searching(job):
    name, sd, n = job
    recs = []
    try:
        from rungs import MODE

        rng = random.Random(sd)
        fix_seeds(sd)
        uses, own = SEARCHERS[name]
        kinds = ("float", "int", "logfloat", "logint", "cat")
        shapes = [{"k": k, "n": rng.choice((3, 4)), "def": rng.choice(("low", "high") if k == "cat" else ("low", "quarter", "high"))} for k in kinds]
        near = [{} for _ in shapes]
        lonely = rng.choice((True, False))  # (another parameter has nothing declared)
        for c in CONFS:
            ps = [Param(s, sd + i, rng.choice(CONFS) if own else c) for i, s in enumerate(shapes)]
            extra = [Param({"k": rng.choice(("float", "int", "cat")), "n": 3, "def": "none"}, sd + 77)] if lonely else []
            with quiet():
                cfgs = fresh_configs(name, lambda: space_of(ps + extra, name in MODE, rng), c if own else None, n, {})
            for i, p in enumerate(ps):
                if p.k == "cat":
                    near[i][c] = sum(x[f"p{i}"] == p.default for x in cfgs)
                    share = 1000 // len(p.choices)
                else:
                    d, near_at = p.position(p.default), [p.position(x[f"p{i}"]) for x in cfgs]
                    w = 0.15
                    near[i][c] = sum(abs(x - d) <= w for x in near_at)
                    share = int(1000 * (min(1, d + w) - max(0, d - w)))
                if not uses:
                    recs.append({"kind": "draws", "n": n, "counts": [near[i][c], n - near[i][c]], "share": [share, 1000 - share], "how": f"{name} does not use priors, {p.shape}"})
            for j, p in enumerate(extra):
                vs = [x[f"p{len(ps) + j}"] for x in cfgs]
                recs.append({"kind": "draws", "n": n, "counts": p.count(vs), "share": [int(round(1000 / len(p.vals)))] * len(p.vals) if p.k == "cat" else [int(round(1000 * (b - a))) for a, b in zip(p.cells(), p.cells()[1:])], "how": f"{name}, undeclared {p.shape}"})
        if uses:
            for i, p in enumerate(ps):
                share = 1000 // len(p.choices) if p.k == "cat" else int(1000 * (min(1, p.position(p.default) + 0.15) - max(0, p.position(p.default) - 0.15)))
                recs.append({"kind": "steers", "n": n, "near": near[i], "share": share, "how": f"{name}, {p.shape}"})
        if own:
            # a share of uniform samples among them
            ps = [Param(s, sd + i, "high") for i, s in enumerate(shapes)]
            with quiet():
                cfgs = fresh_configs(name, lambda: space_of(ps, True, rng), "high", n, {"random_interleave_prob": 1.0})
            for i, p in enumerate(ps):
                if p.k == "cat":
                    recs.append({"kind": "draws", "n": n, "counts": p.count([x[f"p{i}"] for x in cfgs]), "share": [int(round(1000 / len(p.vals)))] * len(p.vals), "how": f"{name}, uniform, {p.shape}"})
                elif p.k in ("float", "logfloat"):
                    recs.append({"kind": "draws", "n": n, "counts": p.count([x[f"p{i}"] for x in cfgs]), "share": [int(round(1000 * (b - a))) for a, b in zip(p.cells(), p.cells()[1:])], "how": f"{name}, uniform, {p.shape}"})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": name})
    return recs


def first(job):
    name, sd = job
    recs = []
    try:
        from rungs import MODE

        rng = random.Random(sd)
        fix_seeds(sd)
        ps = [Param({"k": k, "n": 3, "def": rng.choice(("low", "high") if k == "cat" else ("low", "quarter", "middle", "high"))}, sd + i, rng.choice(CONFS)) for i, k in enumerate(rng.sample(("float", "int", "logfloat", "logint", "cat"), 3))]
        with quiet():
            kw = {"sample_default_first": True}
            if name in MODE:
                kw["sample_default_at_target"] = rng.random() < 0.5
            opt = make(name, space_of(ps, name in MODE, rng), None, **kw)
            s = opt.ask({}, None)
        c = {k: v for k, v in s.config.items() if k != "e"}
        want = {f"p{i}": p.default for i, p in enumerate(ps)}
        if name in MODE and kw["sample_default_at_target"]:
            c["e"], want["e"] = s.config["e"], 9
        recs.append({"kind": "first", "first": [repr(c.get(k)) for k in sorted(want)], "default": [repr(want[k]) for k in sorted(want)], "how": name})
    except Exception as e:  # noqa: BLE001
        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e}", "how": f"{name} first"})
    return recs


# -------------------------------------------------------------------------- PriorBand
def mixing(job):
    """What PriorBand draws from, as a run goes on."""
    case, name, sd, n = job
    recs = []
    try:
        import neps
        from neps.search_spaces.search_space import SearchSpace
        from neps.optimizers.multi_fidelity.sampling_policy import EnsemblePolicy
        from rungs import classes

        rng = random.Random(sd)
        fix_seeds(sd)
        eta, rungs = case["eta"], case["rungs"]
        fids = [rng.choice((1, 2, 5)) * 1]
        fids = [fids[0] * eta**r for r in range(rungs)]
        ps = [Param({"k": k, "n": 3, "def": "quarter" if k != "cat" else "low"}, sd + i, "low") for i, k in enumerate(("float", "cat", rng.choice(("int", "logint", "logfloat"))))]
        items = [(f"p{i}", p.hp) for i, p in enumerate(ps)] + [("e", neps.Integer(fids[0], fids[-1], is_fidelity=True))]
        sp = SearchSpace(**dict(items))
        seen = []

        class Watched(EnsemblePolicy):
            def sample(self, inc=None, weights=None, *a, **k):
                seen.append((None if inc is None else {x: y for x, y in inc.hp_values().items() if x != "e"}, None if weights is None else dict(weights)))
                return super().sample(inc, weights, *a, **k)

        opt = classes()[name](pipeline_space=sp, budget=1, eta=eta, ignore_errors=True, sampling_policy=Watched, sample_default_first=False, sample_default_at_target=False,
                              prior_weight_type=case["weight"], inc_sample_type=case["inc"], inc_style=case["style"])
        # what one bracket from the lowest rung on costs, continued evaluations at what they add
        widths = (opt.sh_brackets[0] if hasattr(opt, "sh_brackets") else opt).config_map
        cost = sum(widths[r] * (fids[r] - (fids[r - 1] if r else 0)) for r in range(rungs))
        S = {"eta": eta, "fids": fids, "cost": cost, "weight": case["weight"], "style": case["style"]}
        trials, running, H, cfg = {}, [], [], {}
        for i in range(n):
            while running and (len(running) >= case["workers"] or rng.random() < 0.5):
                t, j = running.pop(rng.randrange(len(running)))
                loss = rng.randrange(1, 10**6)
                done(t, loss)
                H[j]["open"], H[j]["loss"] = False, loss
            seen.clear()
            with quiet():
                s = opt.ask(dict(trials), None)
            c, r = (int(x) for x in s.id.split("_"))
            if s.previous_config_id is None:
                if len(seen) != 1 or seen[0][1] is None:
                    recs.append({"kind": "failed", "what": f"{len(seen)} samples for a new configuration", "how": name})
                    break
                inc, w = seen[0]
                who = -1 if inc is None else next((x for x, v in cfg.items() if v == inc), -2)
                recs.append({"kind": "mix", "s": S, "h": [dict(x) for x in H], "rung": r, "w": {k: int(round(1e6 * float(v))) for k, v in w.items()}, "active": inc is not None, "inc": who, "how": f"{name} {case}"})
                if who == -2:
                    recs[-1] = {"kind": "failed", "what": "the incumbent is none of the configurations", "how": name}
                    break
                cfg[c] = {k: v for k, v in s.config.items() if k != "e"}
            t = new_trial(s, i)
            trials[s.id] = t
            H.append({"id": c, "rung": r, "loss": 0, "open": True})
            running.append((t, len(H) - 1))
    except Exception as e:  # noqa: BLE001
        import traceback

        recs.append({"kind": "failed", "what": f"{type(e).__name__}: {e} {traceback.format_exc()[-300:]}", "how": f"{name} {case}"})
    return recs


# ------------------------------------------------------------------------------ check
KINDS = {"single": single, "centred": centred, "joint": joint, "searching": searching, "first": first, "mixing": mixing}


def run_job(j):
    return KINDS[j[0]](j[1])


def jobs_for(cases, s, T):
    rng = random.Random(s * 7919)
    jobs = []
    for c in cases["singles"]:
        jobs += [("single", (c, rng.randrange(1 << 30), 2000)) for _ in range(8 if T else 1)]
    jobs += [("centred", rng.randrange(1 << 30)) for _ in range(400 if T else 60)]
    js = sorted(cases["joints"], key=str)
    rng.shuffle(js)
    jobs += [("joint", (c, rng.randrange(1 << 30))) for c in (js if T else js[:120])]
    for name in SEARCHERS:
        jobs += [("searching", (name, rng.randrange(1 << 30), 2000 if name.startswith("PriorBand") else 900)) for _ in range(6 if T else 1)]
        if SEARCHERS[name][0] and name != "RandomSearchPriors" or name == "BayesianOptimization":
            jobs += [("first", (name, rng.randrange(1 << 30))) for _ in range(40 if T else 4)]
    ss = sorted(cases["searches"], key=str)
    rng.shuffle(ss)
    for i, c in enumerate(ss if T else ss[:48]):
        for name in ("PriorBand", "PriorBandAsha", "PriorBandAshaHB") if T else (("PriorBand", "PriorBand", "PriorBandAsha", "PriorBandAshaHB")[i % 4],):
            jobs.append(("mixing", (c, name, rng.randrange(1 << 30), 60 if T else 36)))
    return jobs


def strip(r):
    return {k: v for k, v in r.items() if k != "how"}


def priors(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    cases = vlib.generate(rep, "MCPrior", "MCPrior_deep.cfg" if T else "MCPrior.cfg")
    jobs = jobs_for(cases, s, T)
    random.Random(s).shuffle(jobs)
    res = vlib.pmap(run_job, jobs, chunk=2)
    flat = [(j, r) for j, rs in zip(jobs, res) for r in rs]
    verd = vlib.table(rep, "TablePrior", "Table.cfg", [strip(r) for _, r in flat])
    rep.add(traces_validated_against_impl=len(flat))
    rep.cov["kinds"] = {k: sum(r["kind"] == k for _, r in flat) for k in sorted({r["kind"] for _, r in flat})}
    rep.cov["mixes_with_incumbent"] = sum(r["kind"] == "mix" and r["active"] for _, r in flat)
    rep.sample(flat[0][1])
    rep.sample(flat[-1][1])
    seen = {}
    for (j, r), v in zip(flat, verd):
        if v:
            k = (j[0], tuple(sorted(v)), r["kind"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1:
                rep.violation(f"{r['how']}: wrong {sorted(v)}: {str(strip(r))[:900]}", {"kind": "priors", "job": j})
    if seen:
        rep.cov["wrong"] = {str(k): n for k, n in seen.items()}


def replay(d):
    k, x = d["job"]
    rs = run_job((k, tuple(x) if isinstance(x, list) else x))
    v = vlib.table(None, "TablePrior", "Table.cfg", [strip(r) for r in rs])
    for r, b in zip(rs, v):
        if b:
            print(sorted(b), r)
    return 1 if any(v) else 0
