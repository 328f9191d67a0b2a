"""P25: values keep their meaning when they are encoded, normalised and cast.  Judged by Encoding.tla."""

from __future__ import annotations

import math
import random

import vlib

PPM = 10**6


def ppm(x) -> int:
    return -9 if x is None or math.isnan(x) else int(round(max(-1.0, min(2.0, float(x))) * PPM))


def ranks(xs) -> list[int]:
    s = sorted(set(xs))
    return [s.index(x) for x in xs]


# ------------------------------------------------------------------------------- domains
class Real:
    """A real domain of a given shape, with the values that its steps or positions stand for."""

    def __init__(self, shape, rng, *, plain=False):
        from neps.search_spaces.domain import Domain

        self.k, self.n = shape["k"], shape["n"]
        self.log = False
        n = self.n
        if self.k == "steps":
            how = "int" if plain else rng.choice(("int", "int", "indices", "unitcat", "intbins", "floatbins"))
            lo = rng.choice((0, 1, -3, 17, -1000, 10**6))
            if how == "indices":
                lo, st, self.dom = 0, 1, Domain.indices(n, is_categorical=rng.random() < 0.5)
            elif how == "unitcat":
                lo, st, self.dom = 0, 1 / (n - 1), Domain.floating(0, 1, bins=n, is_categorical=True)
            elif how == "int":
                st, self.dom = 1, Domain.integer(lo, lo + n - 1)
            elif how == "intbins":
                st = rng.choice((2, 3, 10))
                self.dom = Domain.integer(lo, lo + st * (n - 1), bins=n)
            else:
                st = rng.choice((0.25, 2.0, 0.1))
                self.dom = Domain.floating(lo, lo + st * (n - 1), bins=n)
            self.lo, self.st = lo, st
        else:
            self.log = rng.random() < 0.4
            self.lo, self.hi = rng.choice(((1e-6, 10.0), (1.0, 2.0), (0.5, 4096.0)) if self.log else ((math.log(1e-6), math.log(10.0)), (math.log(0.5), math.log(4096.0)), (0.0, 1.0), (-5.0, 5.0), (1e-3, 1e5), (100.0, 101.0)))
            self.dom = Domain.floating(self.lo, self.hi, log=self.log)

    def value(self, at):
        p = at[0] / at[1]
        if self.k == "steps":
            v = self.lo + self.st * at[0]  # of n - 1
            return int(v) if self.dom.is_int else float(v)
        if at[0] == 0 or at[0] == at[1]:
            return self.hi if at[0] else self.lo
        return math.exp(math.log(self.lo) + p * (math.log(self.hi) - math.log(self.lo))) if self.log else self.lo + p * (self.hi - self.lo)

    def see(self, v) -> dict:
        v = float(v)
        if self.k == "steps":
            i = round((v - self.lo) / self.st)
            return {"l": i if abs(self.lo + self.st * i - v) < 1e-6 * self.st else -1, "p": 0, "inside": True}
        p = (math.log(v) - math.log(self.lo)) / (math.log(self.hi) - math.log(self.lo)) if self.log else (v - self.lo) / (self.hi - self.lo)
        return {"l": 0, "p": ppm(p), "inside": self.lo <= v <= self.hi}


def walks(job):
    """Several walks of the same length side by side: one column each."""
    cs, sd = job
    import torch

    from neps.search_spaces.domain import Domain

    rng = random.Random(sd)
    L = len(cs[0]["doms"])
    real = [[Real(d, rng) for d in c["doms"]] for c in cs]
    recs = [{"kind": "walk", "doms": c["doms"], "at": c["at"], "seen": []} for c in cs]
    try:
        how = rng.choice(("one", "cast", "translate"))
        val = [r[0].value(c["at"]) for r, c in zip(real, cs)]
        for i in range(L):
            if i:
                frm, to = [r[i - 1].dom for r in real], [r[i].dom for r in real]
                if how == "one":
                    val = [t.cast(torch.tensor([v], dtype=torch.int64 if f.is_int else torch.float64), frm=f)[0].item() for v, f, t in zip(val, frm, to)]
                elif how == "cast":
                    val = [t.cast(torch.tensor([[v, v]], dtype=torch.float64), frm=f)[0, 1].item() for v, f, t in zip(val, frm, to)]
                else:
                    whole = all(f.is_int for f in frm) and rng.random() < 0.5
                    x = torch.tensor([val, val], dtype=torch.int64 if whole else torch.float64)
                    y = Domain.translate(x, frm=frm, to=to, **({} if rng.random() < 0.5 else {"dtype": torch.float64}))
                    val = y[1].tolist()
            for c, r, v in zip(recs, real, val):
                c["seen"].append(r[i].see(v))
        return [(c, how) for c in recs]
    except Exception as e:  # noqa: BLE001
        return [({"kind": "failed", "what": f"{type(e).__name__}: {e}"}, how)]


# ---------------------------------------------------------------- one parameter, all values
def parameter(spec):
    import neps

    k = spec["k"]
    if k == "cat":
        return neps.CategoricalParameter(spec["choices"])
    c = neps.FloatParameter if k == "float" else neps.IntegerParameter
    return c(spec["lo"], spec["hi"], log=spec["log"])


def values(spec) -> list:
    if spec["k"] == "cat":
        return spec["choices"]
    if "vals" in spec:
        return [int(v) for v in spec["vals"]]
    if spec["k"] == "int":
        return list(range(spec["lo"], spec["hi"] + 1))
    m = spec["m"]
    lo, hi = spec["lo"], spec["hi"]
    if spec["log"]:
        a, b = math.log(lo), math.log(hi)
        return [lo, *[math.exp(a + (b - a) * i / m) for i in range(1, m)], hi]
    return [lo, *[lo + (hi - lo) * i / m for i in range(1, m)], hi]


def index(v, vs, k):
    """Which of the values it is (floats: up to rounding errors)."""
    if k == "float":
        i = min(range(len(vs)), key=lambda j: abs(vs[j] - v))
        return i if abs(vs[i] - v) <= 1e-9 * max(abs(vs[i]), 1e-3 * (vs[-1] - vs[0]) if vs[0] <= 0 else 0) + 1e-300 else -1
    i = vs.index(v) if v in vs else -1
    return i if i >= 0 and type(v) is type(vs[i]) else -1


def encoders(spec, p):
    """The ways in which values of a parameter are turned into numbers and back: name, there, back, judged how."""
    import torch

    from neps.search_spaces.encoding import CategoricalToUnitNorm, ConfigEncoder, MinMaxNormalizer

    def col(t):
        return (lambda vs: t.encode(vs).tolist()), (lambda us: t.decode(torch.tensor(us, dtype=torch.float64)))

    e = ConfigEncoder.default({"p": p})
    whole = (lambda vs: e.encode([{"p": v} for v in vs])[:, 0].tolist()), (lambda us: [c["p"] for c in e.decode(torch.tensor(us, dtype=torch.float64).unsqueeze(1))])
    if spec["k"] == "cat":
        n = len(spec["choices"])
        yield "ConfigEncoder", (lambda vs: [u / (n - 1) for u in whole[0](vs)]), (lambda us: whole[1]([u * (n - 1) for u in us])), "exact"
        yield "CategoricalToUnitNorm", *col(CategoricalToUnitNorm(spec["choices"])), "exact"
        yield "Parameter", (lambda vs: [p.value_to_normalized(v) / (n - 1) for v in vs]), (lambda us: [p.normalized_to_value(u * (n - 1)) for u in us]), "exact"
        return
    yield "ConfigEncoder", *whole, "exact"
    if spec["k"] == "int":
        yield "Domain, whole numbers", (lambda vs: p.domain.to_unit(torch.tensor(vs)).tolist()), (lambda us: p.domain.from_unit(torch.tensor(us, dtype=torch.float64)).tolist()), "exact"
        yield "Domain, one by one", (lambda vs: [p.domain.to_unit_one(v) for v in vs]), (lambda us: [p.domain.from_unit_one(u) for u in us]) if hasattr(p.domain, "from_unit_one") else (lambda us: [p.domain.from_unit(torch.tensor(u, dtype=torch.float64)).item() for u in us]), "exact"
    yield "MinMaxNormalizer", *col(MinMaxNormalizer(p.domain)), "exact"
    yield "Parameter", (lambda vs: [p.value_to_normalized(v) for v in vs]), (lambda us: [p.normalized_to_value(u) for u in us]), "norm" if spec["k"] == "int" else "exact"


def scale(spec):
    """All values of a parameter, in every way."""
    recs = []
    name = "definition"
    try:
        p = parameter(spec)
        vs = values(spec)
        n = len(vs)
        wide = "vals" in spec
        dom = {"k": "logint" if spec.get("log") and spec["k"] == "int" else "steps" if spec["k"] != "float" else "cont", "n": n}
        for name, there, back, kind in encoders(spec, p):
            us = there(vs)
            bs = back(us)
            if wide and kind == "norm" and spec["log"]:
                recs.append({"kind": "norm", "dom": dom, "rows": [{"u": ppm(u), "r": r, "back": i if b == v else -1} for i, (u, v, b, r) in enumerate(zip(us, vs, bs, ranks(us)))]})
                continue
            if wide:
                recs.append({"kind": "powers", "rows": [{"u": ppm(u), "back": b == v} for u, v, b in zip(us, vs, bs)]})
                continue
            recs.append({"kind": kind, "dom": dom, "rows": [{"u": ppm(u), "r": r, "back": index(b, vs, spec["k"])} for u, r, b in zip(us, ranks(us), bs)]})
            if spec["k"] == "int":
                # (a position between any two values, and many more)
                M = max(4 * n + 1, 101) if dom["k"] == "steps" else 4 * math.ceil(math.log(spec["hi"] / spec["lo"]) * spec["hi"]) + 7
                if M <= 4000:
                    recs.append({"kind": "lift", "dom": dom, "lv": [index(b, vs, "int") for b in back([(2 * j - 1) / (2 * M) for j in range(1, M + 1)])]})
            if dom["k"] == "logint" and kind == "exact" and spec.get("base"):
                pw = [spec["base"] ** i for i in range(64) if spec["base"] ** i <= spec["hi"]]
                us = there(pw)
                recs.append({"kind": "powers", "rows": [{"u": ppm(u), "back": b == v} for u, v, b in zip(us, pw, back(us))]})
        return recs
    except Exception as e:  # noqa: BLE001
        return [*recs, {"kind": "failed", "what": f"{name}: {type(e).__name__}: {e}"}]


def scale_specs(rng, T):
    out = []
    for n in [2, 3, 4, 5, 7, 10, 33, 100, 101, *([257, 500, 1000] if T else [])]:
        for lo in {0, 1, -5, rng.randrange(-10**6, 10**6)}:
            out.append({"k": "int", "lo": lo, "hi": lo + n - 1, "log": False})
        for lo in {1, 2, rng.randrange(3, 40)}:
            out.append({"k": "int", "lo": lo, "hi": lo + n - 1, "log": True})
        if n <= 33:
            for kind in ("str", "int", "float", "mixed"):
                c = {"str": [f"c{i}" for i in range(n)], "int": [3 * i - 2 for i in range(n)], "float": [i / 4 for i in range(n)],
                     "mixed": [(f"{i}", i + 0.5, i)[i % 3] for i in range(n)]}[kind]
                rng.shuffle(c)
                out.append({"k": "cat", "choices": c})
    for b, m in ((2, 7), (3, 4), (10, 2), *([(2, 9), (10, 3)] if T else [])):
        out.append({"k": "int", "lo": 1, "hi": b**m, "log": True, "base": b})
    for lo, hi in ((0, 10**9), (-10**6, 10**8), (1, 2**20 + 1)):
        out.append({"k": "int", "lo": lo, "hi": hi, "log": False, "vals": [lo + (hi - lo) * i // 8 for i in range(9)]})
    out.append({"k": "int", "lo": 1, "hi": 10**9, "log": True, "vals": [10**i for i in range(10)]})
    for lo, hi, log in ((0.0, 1.0, False), (-5.0, 5.0, False), (1e-3, 1e5, False), (100.0, 101.0, False), (1e-12, 1e-6, True), (1e-6, 10.0, True), (1.0, 2.0, True), (0.5, 4096.0, True), (1e-3, 1e5, True), (-1e9, 1e-9, False)):
        for m in (1, 2, 5, 16, *([100] if T else [])):
            out.append({"k": "float", "lo": lo, "hi": hi, "log": log, "m": m})
    return out


# -------------------------------------------------------------------- whole configurations
def configs(sd):
    import torch

    from neps.search_spaces.encoding import CategoricalToUnitNorm, ConfigEncoder

    rng = random.Random(sd)
    specs = {}
    names = ["a", "b", "B", "x1", "x10", "x2", "_", "lr", "é"]
    rng.shuffle(names)
    for n in names[: rng.randrange(1, 7)]:
        k = rng.choice(("int", "float", "cat", "logint"))
        if k == "cat":
            specs[n] = {"k": "cat", "choices": rng.sample(["u", "v", "w", 1, 2.5, 7, "1", "x y"], rng.randrange(2, 7))}
        elif k == "float":
            lo, hi, log = rng.choice(((0.0, 1.0, False), (-5.0, 5.0, False), (1e-6, 10.0, True), (2.0, 64.0, True)))
            specs[n] = {"k": "float", "lo": lo, "hi": hi, "log": log, "m": rng.choice((1, 3, 10))}
        elif k == "int":
            lo = rng.choice((0, 1, -7, 100))
            specs[n] = {"k": "int", "lo": lo, "hi": lo + rng.choice((1, 4, 9)), "log": False}
        else:
            specs[n] = {"k": "int", "lo": 1, "hi": rng.choice((3, 10, 30)), "log": True}
    consts = {f"k{i}": rng.choice((1, "c", None, 2.5, True)) for i in range(rng.randrange(3))}
    N = rng.choice((1, 2, 7))
    try:
        params = {n: parameter(s) for n, s in specs.items()}
        vs = {n: values(s) for n, s in specs.items()}
        unit = {n for n, s in specs.items() if s["k"] == "cat" and rng.random() < 0.4}
        e = ConfigEncoder.default(params, constants=consts or rng.choice((None, {})), custom_transformers={n: CategoricalToUnitNorm(specs[n]["choices"]) for n in unit} or None)
        cfgs, ins = [], []
        order = list(e.transformers)
        for _ in range(N):
            ix = {n: rng.randrange(len(vs[n])) for n in specs}
            items = [(n, vs[n][i]) for n, i in ix.items()] + list(consts.items()) + ([("unrelated", 3)] if rng.random() < 0.3 else [])
            rng.shuffle(items)
            cfgs.append(dict(items))
            ins.append([ix[n] for n in order])
        cols = [e.index_of[n] for n in order]
        if sorted(order) != sorted(specs) or sorted(cols) != list(range(len(specs))) or e.ncols != len(specs):
            return {"kind": "failed", "what": "parameters without a column of their own"}, sd
        dt = {} if rng.random() < 0.7 else {"dtype": torch.float64}
        kept = [dict(c) for c in cfgs]
        x = e.encode(cfgs, **dt)
        y = e.decode(x)
        z = torch.cat([e.encode([c], **dt) for c in cfgs])
        rest = kept == cfgs and all(set(c) == set(specs) | set(consts) and all(c[k] is v or (c[k] == v and type(c[k]) is type(v)) for k, v in consts.items()) for c in y)
        num = {n: n in unit or specs[n]["k"] != "cat" for n in order}

        def shown(t):
            return [[ppm(r[c]) if num[n] else int(round(float(r[c]) * PPM)) for n, c in zip(order, cols)] for r in t.tolist()]

        doms = [{"k": "logint" if specs[n].get("log") and specs[n]["k"] == "int" else "steps", "n": len(vs[n]), "num": num[n]} for n in order]
        return {"kind": "config", "doms": doms, "in": ins, "out": [[index(c[n], vs[n], specs[n]["k"]) for n in order] for c in y], "u": shown(x), "alone": shown(z), "rest": rest}, sd
    except Exception as ex:  # noqa: BLE001
        return {"kind": "failed", "what": f"configurations: {type(ex).__name__}: {ex}"}, sd


# ------------------------------------------------------------------------------------ check
def run_job(j):
    kind, x = j
    if kind == "walks":
        return walks(x)
    if kind == "scale":
        return [(r, x) for r in scale(x)]
    return [configs(x)]


def encoding(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s * 7919)
    cases = vlib.generate(rep, "MCEncoding", "MCEncoding_deep.cfg" if T else "MCEncoding.cfg")
    by = {}
    for c in cases:
        by.setdefault(len(c["doms"]), []).append(c)
    jobs = []
    for _ in range(4):
        for cs in by.values():
            rng.shuffle(cs)
            i = 0
            while i < len(cs):
                k = rng.randrange(1, 6)
                jobs.append(("walks", (cs[i:i + k], rng.randrange(1 << 30))))
                i += k
    jobs += [("scale", x) for x in scale_specs(rng, T)]
    jobs += [("configs", rng.randrange(1 << 30)) for _ in range(12000 if T else 1200)]
    res = vlib.pmap(run_job, jobs, chunk=24)
    flat = [(j, r, how) for j, rs in zip(jobs, res) for r, how in rs]
    verd = vlib.table(rep, "TableEncoding", "Table.cfg", [r for _, r, _ in flat])
    rep.add(traces_validated_against_impl=len(flat))
    rep.cov["kinds"] = {k: sum(r["kind"] == k for _, r, _ in flat) for k in ("walk", "exact", "norm", "lift", "powers", "config")}
    rep.sample(flat[0][1])
    rep.sample(flat[-1][1])
    seen = {}
    for (j, r, how), v in zip(flat, verd):
        if v:
            k = (j[0], tuple(sorted(v)), r["kind"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == 1:
                rep.violation(f"{j[0]} {how}: wrong {sorted(v)}: {str(r)[:900]}", {"kind": "encoding", "job": j})


def replay(d):
    k, x = d["job"]
    rs = run_job((k, tuple(x) if k == "walks" else x))
    v = vlib.table(None, "TableEncoding", "Table.cfg", [r for r, _ in rs])
    for (r, how), b in zip(rs, v):
        if b:
            print(sorted(b), how, r)
    return 1 if any(v) else 0
