"""P24: what the definition of a search space means, however it is written.  Runs with real definitions, judged by SpaceDef.tla."""

from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
from math import ceil, floor
from pathlib import Path

import vlib

KEY = {"fid": "is_fidelity", "conf": "default_confidence"}
TEXT = {1: "adam", 2: "sgd", 3: "none of them"}


def pyval(x):
    q = x["v"]
    return {"int": lambda: q // 4, "float": lambda: q / 4, "bool": lambda: bool(q // 4), "str": lambda: TEXT[q]}[x["t"]]()


def enote(q: int, rng) -> str:
    """A number in scientific notation, in one of the ways YAML hands over as text (no point, or no sign in the exponent)."""
    n = q / 4
    out = [f"{int(n * 100)}e-2", f"{int(n * 1000)}E-3", f"{n:g}e0", f"{n * 10:g}e-1", f"{int(n * 100)}e-02"]
    if q % 40 == 0:
        out += [f"{int(n) // 10}e1", f"{int(n) // 10}E1", f"{n / 10:.1f}e1", f"{int(n) // 10}e+1", f"{int(n) // 10}e01", f"{int(n) // 10}.e1"]
    if 0 < n < 10:
        out += [f".{int(n * 100):03d}e1"]
    return rng.choice(out)


def text(x, rng) -> str:
    """A value as it stands in a YAML file."""
    q = x["v"]
    if x["t"] == "e":
        s = enote(q, rng)
        return rng.choice((s, s, f'"{s}"'))
    if x["t"] == "float":
        return rng.choice((str(q / 4), str(q / 4), f"{q / 4:.4f}", f"{q / 4:.4e}"))
    if x["t"] == "bool":
        return rng.choice((("no", "false", "False", "off"), ("yes", "true", "True", "on"))[q // 4])
    return json.dumps(TEXT[q]) if x["t"] == "str" else str(q // 4)


def flag(n, v, rng) -> str:
    if v == 2:
        return rng.choice(('"true"', "1", "0", "ture", "[true]"))
    return rng.choice((("false", "no", "off"), ("true", "yes", "on"))[v])


def yaml_lines(defs, rng, ind="") -> list[str]:
    out = []
    for name, d in defs:
        if "value" in d:
            out.append(f"{ind}{name}: {text(d['value'], rng)}")
            continue
        keys = [k for k in d if k not in ("form", "k")]
        rng.shuffle(keys)
        out.append(f"{ind}{name}:" + (" {}" if not keys else ""))
        for k in keys:
            v = d[k]
            if k in ("lower", "upper", "default"):
                t = text(v, rng)
            elif k in ("log", "fid"):
                t = flag(k, v, rng)
            elif k == "choices":
                t = "[" + ", ".join(text(x, rng) for x in v) + "]"
            else:
                t = str(v)
            out.append(f"{ind}  {KEY.get(k, k)}: {t}")
    return out


def obj(d, rng):
    import neps

    kw = {}
    for k, v in d.items():
        if k in ("lower", "upper", "default"):
            kw[k] = pyval(v)
        elif k in ("log", "fid"):
            kw[KEY.get(k, k)] = rng.choice(("yes", 1)) if v == 2 else bool(v)
        elif k == "choices":
            kw[k] = rng.choice((list, tuple))([pyval(x) for x in v])
        elif k == "conf":
            kw["default_confidence"] = v
        elif k == "value":
            kw[k] = pyval(v)
    two = rng.random() < 0.5
    c = {"int": (neps.Integer, neps.IntegerParameter), "float": (neps.Float, neps.FloatParameter), "cat": (neps.Categorical, neps.CategoricalParameter),
         "const": (neps.Constant, neps.ConstantParameter)}[d["k"]][two]
    if d["k"] in ("int", "float") and rng.random() < 0.3:
        return c(kw.pop("lower"), kw.pop("upper"), **kw)
    return c(**kw)


def cs(defs, clause, rng):
    import ConfigSpace as C

    out = C.ConfigurationSpace()
    hs = {}
    for name, d in defs:
        k = d["k"]
        if k == "const":
            h = C.Constant(name, pyval(d["value"]))
        elif k == "cat":
            h = rng.choice((C.CategoricalHyperparameter, C.OrdinalHyperparameter))(name, [pyval(x) for x in d["choices"]], default_value=pyval(d["default"]))
        elif k == "normal":
            h = C.NormalFloatHyperparameter(name, mu=1.0, sigma=1.0) if rng.random() < 0.5 else C.NormalIntegerHyperparameter(name, mu=5, sigma=2, lower=1, upper=9)
        else:
            h = (C.UniformIntegerHyperparameter if k == "int" else C.UniformFloatHyperparameter)(
                name, lower=pyval(d["lower"]), upper=pyval(d["upper"]), log=bool(d.get("log", 0)), default_value=pyval(d["default"]))
        hs[name] = h
        out.add_hyperparameter(h)
    if clause:
        a, b = hs["p1"], hs["p2"]
        if rng.random() < 0.5:
            out.add_condition(C.EqualsCondition(a, b, b.choices[0] if hasattr(b, "choices") else b.sequence[0]))
        else:
            out.add_forbidden_clause(C.ForbiddenEqualsClause(a, 5))
    return out


def enc(v):
    import numpy as np

    if v is None:
        return {"t": "none", "v": 0}
    if isinstance(v, (bool, np.bool_)):
        return {"t": "bool", "v": 4 * int(v)}
    if isinstance(v, (int, np.integer)):
        return {"t": "int", "v": 4 * int(v)}
    if isinstance(v, (float, np.floating)):
        return {"t": "float", "v": int(v * 4) if v * 4 == int(v * 4) else -9999}
    return {"t": "str", "v": next((k for k, t in TEXT.items() if t == str(v)), -1)} if isinstance(v, str) else {"t": type(v).__name__, "v": -1}


def enc2(v):
    if isinstance(v, float):
        return {"t": "float", "fl": floor(v * 4), "ce": ceil(v * 4)}
    e = enc(v)
    return {"t": e["t"], "fl": e["v"], "ce": e["v"]}


def param(h) -> dict:
    import neps

    none = enc(None)
    p = {"kind": "?", "lo": none, "hi": none, "log": 0, "fid": int(h.is_fidelity), "def": enc(h.default), "conf": "low", "choices": [], "value": none}
    if isinstance(h, neps.ConstantParameter):
        return p | {"kind": "const", "value": enc(h.value)}
    p["conf"] = str(h.default_confidence_choice)
    if isinstance(h, neps.CategoricalParameter):
        return p | {"kind": "cat", "choices": [enc(c) for c in h.choices]}
    return p | {"kind": "int" if isinstance(h, neps.IntegerParameter) else "float", "lo": enc(h.lower), "hi": enc(h.upper), "log": int(h.log)}


def run_case(c: dict) -> dict:
    import torch

    import neps
    from neps.optimizers.base_optimizer import BaseOptimizer
    from neps.optimizers.random_search.optimizer import RandomSearch

    torch.set_num_threads(1)
    rng = random.Random(c["seed"])
    d = vlib.tmpdir("sdef")
    cwd = os.getcwd()
    box: dict = {}

    class Mine(BaseOptimizer):
        def __init__(self, pipeline_space, **kw):
            super().__init__(pipeline_space=pipeline_space, **kw)
            box["space"] = pipeline_space
            self.inner = RandomSearch(pipeline_space=pipeline_space)

        def ask(self, trials, budget_info):
            return self.inner.ask(trials, budget_info)

    def f(**kw):
        box["got"] = kw
        return 1.0

    names = ["p1", "p2"][: len(c["defs"])]
    named = list(zip(names, c["defs"]))
    out, msg, end, shown, same = io.StringIO(), "", "ok", "", True
    try:
        os.chdir(d)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            try:
                form = c["defs"][0]["form"]
                space, args = None, None
                order = named[:]
                rng.shuffle(order)
                if form in ("file", "wrap"):
                    lines = yaml_lines(order, rng, "  " if form == "wrap" else "")
                    shown = "\n".join((["pipeline_space:"] if form == "wrap" else []) + lines) + "\n"
                    (d / "space.yaml").write_text(shown)
                    space = rng.choice((str, Path))(d / "space.yaml")
                elif form == "inline":
                    shown = "\n".join(["max_evaluations_total: 1", "pipeline_space:", *yaml_lines(order, rng, "  ")]) + "\n"
                    (d / "args.yaml").write_text(shown)
                    args = d / "args.yaml"
                else:
                    shown = f"{form} " + json.dumps(c["defs"])
                    inside = [(n, x) for n, x in order if x["form"] in ("cs", "csin")]
                    conf = cs(inside, c["clause"], rng) if inside else None
                    if form == "cs":
                        space = conf
                    else:
                        space = {n: obj(x, rng) for n, x in order if x["form"] == "py"}
                        if conf is not None:
                            space = {"inner": conf, **space} if rng.random() < 0.5 else {**space, "inner": conf}
                neps.run(run_pipeline=f, root_directory=d / "r", searcher=Mine, post_run_summary=False,
                         **({"run_args": str(args)} if args else {"pipeline_space": space, "max_evaluations_total": 1}))
            except Exception as e:  # noqa: BLE001
                end, msg = "refused", f"{type(e).__name__}: {e}"
        seen = {"end": end, "params": [], "fid": 0, "prior": 0, "got": []}
        if "got" in box:
            seen["got"] = [enc2(box["got"][n]) if n in box["got"] else {"t": "missing", "fl": 0, "ce": 0} for n in names]
            seen["got"] += [{"t": "extra", "fl": 0, "ce": 0}] * (len(box["got"]) - len(names))
        if end == "ok":
            sp = box["space"]
            seen["params"] = [param(sp.hyperparameters[n]) if n in sp.hyperparameters else {} for n in names]
            seen["params"] += [{}] * (len(sp.hyperparameters) - len(names))
            seen["fid"] = 0 if sp.fidelity is None else names.index(sp.fidelity_name) + 1 if sp.fidelity is sp.hyperparameters.get(sp.fidelity_name) else -1
            seen["prior"] = int(sp.has_prior)
        return {"defs": c["defs"], "clause": c["clause"], "seen": seen, "msg": msg, "shown": shown}
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r} {json.dumps(c)}\n{shown}\n{traceback.format_exc()}"}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def reform(c: dict, rng) -> dict:
    """The same definition written in another kind of YAML document."""
    if all(d["form"] == "file" for d in c["defs"]):
        f = rng.choice(("file", "file", "wrap", "inline"))
        return {**c, "defs": [{**d, "form": f} for d in c["defs"]]}
    return c


def explain(r, broken) -> str:
    return f"{', '.join(sorted(broken))} not as specified for\n{r['shown']} -> {json.dumps(r['seen'])} {r['msg'][:300]}"


def family(c) -> str:
    d = c["defs"][0]
    return f"{d['form']}/{'pair' if len(c['defs']) > 1 else 'const' if 'value' in d else 'choices' if 'choices' in d else 'range' if 'lower' in d else 'other'}" \
           f"/{'type' if 'type' in d else ''}/{'prior' if 'default' in d or 'conf' in d else ''}/{'flags' if 'log' in d or 'fid' in d else ''}"


def spacedef(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    cases = vlib.generate(rep, "MCSpaceDef", "MCSpaceDef.cfg")
    rng.shuffle(cases)
    if not T:  # from every family, the large ones thinned out
        fams: dict = {}
        for c in cases:
            fams.setdefault(family(c), []).append(c)
        cases = [c for f in fams.values() for c in f[:240]]
        rep.cov["families"] = len(fams)
    jobs = [{**reform(c, rng), "seed": rng.randrange(10**9)} for c in cases]
    res = vlib.pmap(run_case, jobs, chunk=16)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    keys = ("defs", "clause", "seen")
    verd = vlib.table(rep, "TableSpaceDef", "Table.cfg", [{k: r[k] for k in keys} for r in res])
    rep.add(distinct_traces=len({json.dumps([r["defs"], r["clause"]], sort_keys=True) for r in res}), traces_validated_against_impl=len(res))
    rep.cov["ends"] = {e: sum(r["seen"]["end"] == e for r in res) for e in ("ok", "refused")}
    seen: dict = {}
    for j, r, v in zip(jobs, res, verd):
        if v:
            k = (tuple(sorted(v)), r["seen"]["end"], family(j))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == 1:
                rep.violation(explain(r, v), {"kind": "spacedef", "case": j})
    rep.sample({"shown": res[0]["shown"], "seen": res[0]["seen"]})


def replay(d):
    r = run_case(d["case"])
    if "error" in r:
        print(r["error"])
        return 2
    v = vlib.table(None, "TableSpaceDef", "Table.cfg", [{k: r[k] for k in ("defs", "clause", "seen")}])[0]
    print(explain(r, v) if v else "as specified")
    return 1 if v else 0
