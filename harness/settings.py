"""P22: what the arguments of a run mean, wherever they are given.  Whole runs, judged by Settings.tla."""

from __future__ import annotations

import contextlib
import io
import json
import os
import random
import shutil
import sys
from pathlib import Path

import vlib

ARG = {"root": "root_directory", "fn": "run_pipeline", "space": "pipeline_space", "total": "max_evaluations_total", "per": "max_evaluations_per_run",
       "cost": "max_cost_total", "ign": "ignore_errors", "lerr": "loss_value_on_error", "cerr": "cost_value_on_error", "summ": "post_run_summary",
       "over": "overwrite_working_directory", "dev": "development_stage_id", "task": "task_id", "cont": "continue_until_max_evaluation_completed",
       "hooks": "pre_load_hooks"}
BOOL = {"ign", "summ", "over", "cont"}
FLOAT = {"lerr", "cerr"}
ALG = {1: "random_search", 2: "bayesian_optimization", 3: "pibo", 4: "hyperband", 5: "priorband", 6: "Mine"}
KW = {6: "alpha", 2: "initial_design_size", 3: "initial_design_size", 4: "eta", 5: "eta"}
PARAMS = {1: {"x"}, 2: {"y"}, 3: {"x", "p"}, 4: {"x", "e"}, 5: {"x", "p", "e"}}
SPACE = {1: {"x": {"lower": 0.0, "upper": 1.0}}, 2: {"y": {"lower": 0.0, "upper": 1.0}},
         3: {"x": {"lower": 0.0, "upper": 1.0}, "p": {"lower": 1, "upper": 9, "default": 3, "default_confidence": "medium"}},
         4: {"x": {"lower": 0.0, "upper": 1.0}, "e": {"lower": 1, "upper": 9, "is_fidelity": True}},
         5: {"x": {"lower": 0.0, "upper": 1.0, "default": 0.5}, "p": {"lower": 1, "upper": 9, "default": 3, "default_confidence": "medium"}, "e": {"lower": 1, "upper": 9, "is_fidelity": True}}}
MOD = '''
import json, neps
def log(**k):
    with open({log!r}, "a") as f:
        f.write(json.dumps(k) + "\\n")
def _f(i, kw):
    n = sum(json.loads(x)["k"] == "eval" for x in open({log!r})) if __import__("os").path.exists({log!r}) else 0
    log(k="eval", fn=i, params=sorted(kw))
    if n + 1 == {fail}:
        raise ValueError("planned")
    return dict(loss=1.0, cost=1.0)
def f1(**kw):
    return _f(1, kw)
def f2(**kw):
    return _f(2, kw)
def h1(opt):
    log(k="hook", h=1)
    return opt
def h2(opt):
    log(k="hook", h=2)
    return opt
def _p(d):
    return (neps.Float if isinstance(d["lower"], float) else neps.Integer)(**d)
SPACES = {{int(k): {{n: _p(d) for n, d in v.items()}} for k, v in json.loads({spaces!r}).items()}}
s1, s2, s3, s4, s5 = (SPACES[i] for i in range(1, 6))
from neps.optimizers.base_optimizer import BaseOptimizer
from neps.optimizers.random_search.optimizer import RandomSearch
class Mine(BaseOptimizer):
    def __init__(self, pipeline_space, alpha=-1, **kw):
        super().__init__(pipeline_space=pipeline_space, **kw)
        self.alpha, self.inner = alpha, RandomSearch(pipeline_space=pipeline_space)
    def ask(self, trials, budget_info):
        log(k="alpha", alpha=self.alpha)
        return self.inner.ask(trials, budget_info)
'''


class Case:
    """One run, prepared in a scratch directory."""

    def __init__(self, d: Path, c: dict):
        self.d, self.c = d, c
        self.rng = random.Random(c["seed"])
        (d / "mod.py").write_text(MOD.format(log=str(d / "log"), fail=c["fail"], spaces=json.dumps(SPACE)))
        self.mod: dict = {}
        exec(compile((d / "mod.py").read_text(), "mod", "exec"), self.mod)  # noqa: S102
        import yaml

        self.yaml = yaml
        for i, s in SPACE.items():
            (d / f"space{i}.yaml").write_text(yaml.safe_dump({k: {"type": "float" if isinstance(v["lower"], float) else "int", **v} for k, v in s.items()}))

    def scalar(self, n, v):
        if v == -1:
            return None
        if n in BOOL:
            return bool(v)
        if n in FLOAT:
            return float(v)
        if n == "root":
            return str(self.d / f"r{v}")
        return v

    # ---- in Python
    def py(self, n, v):
        if n == "fn":
            return self.mod[f"f{v}"]
        if n == "space":
            return self.rng.choice((self.mod[f"s{v}"], self.d / f"space{v}.yaml", str(self.d / f"space{v}.yaml")))
        if n == "hooks":
            return [self.mod[f"h{i}"] for i in {0: (), 1: (1,), 2: (2, 1)}[v]]
        if n == "root":
            return self.rng.choice((str, Path))(self.d / f"r{v}")
        return self.scalar(n, v)

    def call(self) -> dict:
        kw = {ARG[n]: self.py(n, v) for n, v in self.c["call"].items() if n in ARG}
        if "searcher" in self.c["call"]:
            s = self.c["call"]["searcher"]
            kw["searcher"] = ALG[s["alg"]] if s["kw"] == -1 else self.sdict(s)
            if s["alg"] == 6:
                kw["searcher"] = self.mod["Mine"]
        if "kw" in self.c["call"]:
            kw[KW[self.c["kwalg"]]] = self.c["call"]["kw"]
        return kw

    def sdict(self, s):
        if s["alg"] == 6:
            return {"path": str(self.d / "mod.py"), "name": "Mine", **({} if s["kw"] == -1 else {KW[6]: s["kw"]})}
        return {"strategy": ALG[s["alg"]], **({} if s["kw"] == -1 else {KW[s["alg"]]: s["kw"]})}

    # ---- in a file
    def file(self) -> Path | None:
        f, rng = self.c["file"], self.rng
        if not f and rng.random() < 0.8:
            return None
        out = {}
        for n, v in f.items():
            if n == "fn":
                out["run_pipeline"] = {"path": str(self.d / "mod.py"), "name": f"f{v}"}
            elif n == "space":
                out["pipeline_space"] = rng.choice((str(self.d / f"space{v}.yaml"), {"path": str(self.d / "mod.py"), "name": f"s{v}"},
                                                    self.yaml.safe_load((self.d / f"space{v}.yaml").read_text())))
            elif n == "hooks":
                out["pre_load_hooks"] = {f"h{i}": str(self.d / "mod.py") for i in {0: (), 1: (1,), 2: (2, 1)}[v]}
            elif n == "searcher":
                out["searcher"] = ALG[v["alg"]] if v["kw"] == -1 and v["alg"] != 6 else self.sdict(v)
            elif n != "kw":
                out[ARG[n]] = self.scalar(n, v)
        for n in ARG:  # nothing given is the same as not mentioned
            if n not in f and rng.random() < 0.15:
                out[ARG[n]] = rng.choice((None, "None"))
        # flat, or in groups of any name
        keys = list(out)
        rng.shuffle(keys)
        g: dict = {}
        for k in keys:
            where = rng.choice(("", "", "budget", "monitoring", "deep"))
            if where == "":
                g[k] = out[k]
            elif where == "deep":
                g.setdefault("a", {}).setdefault("b", {})[k] = out[k]
            else:
                g.setdefault(where, {})[k] = out[k]
        p = self.d / "args.yaml"
        p.write_text(self.yaml.safe_dump(g, sort_keys=False))
        return p

    # ---- on the command line
    def argv(self) -> list[str] | None:
        out = []
        for n, v in self.c["call"].items():
            if n in ("searcher", "kw"):
                continue
            o = "--" + ARG[n].replace("_", "-")
            if n == "fn":
                out += [o, f"{self.d / 'mod.py'}:f{v}"]
            elif n == "space":
                out += [o, str(self.d / f"space{v}.yaml")]
            elif n == "summ":
                out += [o if v else "--no-post-run-summary"]
            elif n in BOOL:
                if not v:
                    return None
                out += [o]
            elif n == "hooks" or v == -1:
                return None
            else:
                out += [o, str(self.scalar(n, v))]
        s = self.c["call"].get("searcher")
        if s is not None:
            if s["kw"] != -1 or s["alg"] == 6:
                return None
            out += ["--searcher", ALG[s["alg"]]]
        if "kw" in self.c["call"]:
            out += ["--searcher-kwargs", f"{KW[self.c['kwalg']]}={self.c['call']['kw']}"]
        return out

    def prepare(self):
        """Root 1 holds a run with a finished evaluation and one in progress."""
        import neps
        from neps.runtime import get_in_progress_trial

        d = {"n": 0}

        def f(**kw):
            get_in_progress_trial()
            d["n"] += 1
            if d["n"] == 2:
                raise KeyboardInterrupt
            return {"loss": 1.0, "cost": 1.0}
        # (the random search of the declared space of this case, whatever it is: the space is not part of a run's identity)
        with contextlib.suppress(KeyboardInterrupt):
            neps.run(run_pipeline=f, pipeline_space=self.mod["s1"], root_directory=self.d / "r1", max_evaluations_total=9, searcher="random_search", post_run_summary=False)
        (self.d / "r1" / "marker").write_text("")


def observe(case: Case, end: str, before: set) -> dict:
    from neps.state.filebased import load_filebased_neps_state

    d = case.d
    log = [json.loads(x) for x in (d / "log").read_text().splitlines()] if (d / "log").exists() else []
    ev = [x for x in log if x["k"] == "eval"]
    hooks = list(dict.fromkeys(x["h"] for x in log if x["k"] == "hook"))
    seen = {"end": end, "where": [-1, -1, -1], "recs": [], "fn": -1, "space": -1, "alg": -1, "kw": -1, "csv": 0, "hooks": hooks,
            "old": int((d / "r1" / "marker").exists())}
    if ev:
        seen["fn"] = ev[0]["fn"] if len({x["fn"] for x in ev}) == 1 else -5
        ps = {tuple(x["params"]) for x in ev}
        seen["space"] = next((i for i, p in PARAMS.items() if ps == {tuple(sorted(p))}), -5)
    runs = [p.parent for p in sorted(d.glob("**/configs")) if p.parent not in before]
    new = {}
    for r in [p.parent for p in sorted(d.glob("**/configs"))]:
        st = load_filebased_neps_state(r)
        ts = [t for t in st.get_all_trials().values() if (r, t.id, t.metadata.time_sampled) not in before]
        if ts or r in runs:
            new[r] = (st, ts)
    if end != "refused" and not new and (d / "r1" / "marker").exists():  # joined, nothing to do
        new[d / "r1"] = (load_filebased_neps_state(d / "r1"), [])
    if len(new) > 1:
        seen["where"] = [-9, -9, -9]
    for r, (st, ts) in new.items():
        rel = r.relative_to(d).parts
        w = [int(rel[0][1:]), -1, -1]
        for part in rel[1:]:
            if part.startswith("task_"):
                w[1] = int(part[5:]) if w[2] == -1 else -7
            elif part.startswith("dev_"):
                w[2] = int(part[4:])
            else:
                w[1] = -7
        seen["where"] = w if end != "refused" or ts else seen["where"]
        if end == "refused" and not ts:
            continue
        for t in sorted(ts, key=lambda t: t.metadata.time_sampled):
            if t.report is None:
                seen["recs"].append({"ok": -5, "loss": -1, "cost": -1})
            else:
                n = lambda v: -1 if v is None else int(v)  # noqa: E731
                seen["recs"].append({"ok": int(t.report.reported_as == "success"), "loss": n(t.report.loss), "cost": n(t.report.cost)})
        info = st.optimizer_info().info
        seen["alg"] = next((k for k, v in ALG.items() if v == info["searcher_alg"]), -5)
        kw = info["searcher_args"].get(KW.get(seen["alg"], ""), None)
        seen["kw"] = -1 if kw is None or (KW.get(seen["alg"]) == "eta" and kw == 3) else kw
        al = {x["alpha"] for x in log if x["k"] == "alpha"}  # what the searcher itself got
        if seen["alg"] == 6 and ts and al != {seen["kw"]}:
            seen["kw"] = -5
        seen["csv"] = int((r / "summary_csv" / "config_data.csv").exists())
    return seen


def run_case(c: dict) -> dict:
    """The record for the specification."""
    import torch

    import neps

    torch.set_num_threads(1)
    d = vlib.tmpdir("set")
    cwd, argv = os.getcwd(), sys.argv
    try:
        case = Case(d, c)
        if c["pre"]:
            case.prepare()
        before = set()
        for r in [p.parent for p in d.glob("**/configs")]:
            from neps.state.filebased import load_filebased_neps_state

            before.add(r)
            before |= {(r, t.id, t.metadata.time_sampled) for t in load_filebased_neps_state(r).get_all_trials().values()}
        f = case.file()
        av = case.argv() if c["cli"] else None
        end, msg = "ok", ""
        out = io.StringIO()
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                if av is not None:
                    from neps.utils import cli

                    sys.argv = ["neps", "run", *av, *(["--run-args", str(f)] if f else [])]
                    cli.main()
                else:
                    neps.run(**case.call(), **({"run_args": case.rng.choice((f, str(f)))} if f else {}))
        except Exception as e:  # noqa: BLE001
            msg = f"{type(e).__name__}: {e}"
            end = "raised" if type(e).__name__ == "WorkerRaiseError" else "refused"
        except SystemExit as e:
            end, msg = "refused", f"exit {e.code} {out.getvalue()[-300:]}"
        os.chdir(cwd)
        rec = {k: c[k] for k in ("call", "file", "pre", "fail")}
        return {**rec, "seen": observe(case, end, before), "msg": msg, "cli": av is not None}
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r} {json.dumps(c)}\n{traceback.format_exc()}"}
    finally:
        os.chdir(cwd)
        sys.argv = argv
        shutil.rmtree(d, ignore_errors=True)


def random_case(rng) -> dict:
    vals = {"root": (1, 2), "fn": (1, 2), "space": (1, 2, 3, 4, 5), "total": (1, 2, 3, 4), "per": (0, 1, 2, 3), "cost": (1, 2, 3), "ign": (0, 1), "lerr": (0, 7),
            "cerr": (0, 3), "summ": (0, 1), "over": (0, 1), "dev": (0, 3), "task": (0, 2), "cont": (0, 1), "hooks": (1, 2)}
    need = {"root", "fn", "space", "total"}
    call, file = {}, {}
    for n, v in vals.items():
        r = rng.random()
        if n in need:
            r = 0.1 + 0.9 * r if r < 0.95 else 0
        elif r < 0.5:
            continue
        if r < 0.1:
            continue
        if r < 0.45 or (n not in need and r < 0.7):
            call[n] = rng.choice(v)
        elif r < 0.75:
            file[n] = rng.choice(v)
        else:
            call[n], file[n] = rng.choice(v), rng.choice(v)
            if n in ("total", "per", "cost", "lerr", "cerr", "dev", "task") and rng.random() < 0.2:
                call[n] = -1
    c = {"call": call, "file": file, "pre": int(rng.random() < 0.4), "fail": rng.choice((0, 1, 2, 3)), "seed": rng.randrange(10**9), "cli": rng.random() < 0.35}
    # the searcher: suitable for the space that is effective is not known here, so both are chosen together
    sp = {call.get("space"), file.get("space")} - {None}
    k = rng.random()
    ok = [1, 6] + ([2, 3] if not sp & {4, 5} else []) + ([4] if sp and sp <= {4, 5} else []) + ([5] if sp == {5} else [])
    src = lambda: {"alg": rng.choice(ok), "kw": -1}  # noqa: E731
    if k < 0.35:
        call["searcher"] = src()
    elif k < 0.55:
        file["searcher"] = src()
        if rng.random() < 0.5 and file["searcher"]["alg"] in KW:
            file["searcher"]["kw"] = rng.choice((4, 5))
    elif k < 0.75:
        call["searcher"], file["searcher"] = src(), src()
        if file["searcher"]["alg"] in KW and rng.random() < 0.5:
            file["searcher"]["kw"] = rng.choice((4, 5))
    s = call.get("searcher") or file.get("searcher")
    if s and s["alg"] in KW and rng.random() < 0.5:
        call["kw"], c["kwalg"] = rng.choice((4, 5)), s["alg"]
    elif not s and rng.random() < 0.3:
        call["kw"], c["kwalg"] = 4, 2
    if "searcher" in call and call["searcher"]["alg"] in KW and call["searcher"]["alg"] != 6 and rng.random() < 0.2:
        call["searcher"]["kw"] = rng.choice((4, 5))
    if "per" in c["call"] and rng.random() < 0.3:
        c["call"].pop("per")
    return c


def explain(r, broken) -> str:
    return (f"{'command line' if r['cli'] else 'call'} {json.dumps(r['call'])} file {json.dumps(r['file'])} pre={r['pre']} fail={r['fail']}: "
            f"{', '.join(sorted(broken))} not as specified: {json.dumps(r['seen'])} {r['msg'][:300]}")


def settings(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    cases = vlib.generate(rep, "MCSettings", "MCSettings.cfg")
    rng.shuffle(cases)
    fix = lambda x: x or {}  # noqa: E731
    jobs = [{"call": fix(c["call"]), "file": fix(c["file"]), "pre": p, "fail": f, "seed": rng.randrange(10**9), "cli": rng.random() < 0.3}
            for c in cases for p in (0, 1) for f in (0, 2)] if T else \
           [{"call": fix(c["call"]), "file": fix(c["file"]), "pre": rng.randrange(2), "fail": rng.choice((0, 2)), "seed": rng.randrange(10**9), "cli": rng.random() < 0.3}
            for c in cases[:900]]
    for j in jobs:  # the pairs are about the settings, not about models: a searcher that is quick (by default there would be a model)
        j["call"]["searcher"] = {"alg": 1, "kw": -1}
    jobs += [random_case(rng) for _ in range(3000 if T else 500)]
    res = vlib.pmap(run_case, jobs, chunk=4)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd = vlib.table(rep, "TableSettings", "Table.cfg", [{k: r[k] for k in ("call", "file", "pre", "fail", "seen")} for r in res])
    rep.add(distinct_traces=len({json.dumps([r["call"], r["file"], r["pre"], r["fail"]], sort_keys=True) for r in res}), traces_validated_against_impl=len(res))
    rep.cov["ends"] = {e: sum(r["seen"]["end"] == e for r in res) for e in ("ok", "raised", "refused")}
    rep.cov["command line"] = sum(r["cli"] for r in res)
    seen = {}
    for j, r, v in zip(jobs, res, verd):
        if v:
            k = (tuple(sorted(v)), r["seen"]["end"], r["msg"].split(":")[0], r["cli"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] == 1:
                rep.violation(explain(r, v), {"kind": "settings", "case": j})
    rep.sample({k: res[0][k] for k in ("call", "file", "seen")})


def replay(d):
    r = run_case(d["case"])
    if "error" in r:
        print(r["error"])
        return 2
    v = vlib.table(None, "TableSettings", "Table.cfg", [{k: r[k] for k in ("call", "file", "pre", "fail", "seen")}])[0]
    print(explain(r, v) if v else "as specified")
    return 1 if v else 0
