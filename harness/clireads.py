"""P23: what the reading commands of the command line say about a run.  Judged by Cli.tla."""

from __future__ import annotations

import contextlib
import hashlib
import io
import math
import os
import random
import re
import shutil
import sys

import summary as sm
import vlib

LOSSES = ({1: 0.25, 2: 0.5, 3: 7.0, -1: -math.inf}, {1: -3.0, 2: 0.0, 3: 0.001, -1: -math.inf}, {1: 1e-5, 2: 1234567.5, 3: 1e12, -1: -math.inf})
NAN, INF, VAL = 10, 9, 50


def shown(text, losses):
    """A printed loss (six decimals or all of them) as the rank of the specification."""
    if text in ("N/A", "None", "nan"):
        return NAN
    try:
        x = float(text)
    except ValueError:
        return 98
    if x == math.inf:
        return INF
    for k, v in {**losses, VAL: losses[1] - 1}.items():
        if x == v or f"{x:.6f}" == f"{v:.6f}":
            return k
    return 99


def digest(root):
    return {str(p.relative_to(root)): hashlib.sha1(p.read_bytes()).hexdigest() if p.is_file() else "d" for p in root.rglob("*") if p.name != ".lock" and not p.name.endswith(".lock")}


def command(*args):
    from neps.utils import cli

    out, argv = io.StringIO(), sys.argv
    sys.argv = ["neps", *args]
    try:
        with contextlib.redirect_stdout(out):
            cli.main()
    finally:
        sys.argv = argv
    return out.getvalue()


def field(text, label):
    m = re.search(rf"^\s*{re.escape(label)}:[ \t]*(.*?)[ \t]*$", text, re.M)
    return m.group(1) if m else None


def section(text, title):
    """The lines below a title, up to the next title."""
    m = re.search(rf"^{re.escape(title)}:[ \t]*$(.*?)(?=^\S[^\n]*:[ \t]*$\n-----|\Z)", text, re.M | re.S)
    return m.group(1) if m else ""


def values(text, cfg):
    return all(re.search(rf"^\s*{re.escape(k)}:[ \t]*{re.escape(str(v))}[ \t]*$", text, re.M) for k, v in cfg.items())


def observe(root, cs, names, cfg, losses, rng, plot):
    ix = {n: i + 1 for i, n in enumerate(names)}
    where = ["--root-directory", str(root)]
    if rng.random() < 0.3:
        where = []
        (root.parent / "run_config.yaml").write_text(f"root_directory: {root}\nmax_evaluations_total: 3\n")
    before = digest(root)
    st = []
    for f in ("none", "pending", "evaluating", "succeeded"):
        t = command("status", *where, *([] if f == "none" else [f"--{f}"]))
        rows = [{"i": ix.get(m.group(1), 99), "st": m.group(3), "l": shown(m.group(4), losses)}
                for m in re.finditer(r"[ \t](\S+)[ \t]+(\S+)[ \t]+(PENDING|EVALUATING|SUCCESS|FAILED|CRASHED|SUBMITTED|CORRUPTED|UNKNOWN)[ \t]+(\S+)[ \t]*$", t, re.M)]
        b = section(t, "Best Trial")
        bid = field(b, "ID")
        st.append({"filter": f, "ok": int(field(t, "Succeeded Trials")), "failed": int(field(t, "Failed Trials (Errors)")), "active": int(field(t, "Active Trials")),
                   "pending": int(field(t, "Pending Trials")), "worker": int(field(t, "Pending Trials with Worker")), "loss": shown(field(t, "Best Loss Achieved"), losses),
                   "rows": rows, "best": 0 if bid is None else ix.get(bid, 99), "config": bid in cfg and values(b, cfg[bid]), "bestloss": 0 if bid is None else shown(field(b, "Loss"), losses)})
    t = command("results", *where)
    res = []
    for line in t.splitlines():
        m = re.match(r"^(\S+)\s+(-?inf|nan|-?[\d.]+)\s+(.*?)\s*$", line)
        if m and m.group(1) in ix:
            c = cfg[m.group(1)]
            res.append({"i": ix[m.group(1)], "l": shown(m.group(2), losses), "config": all(f"{k}: {v}".strip() in m.group(3) for k, v in c.items())})
    info = []
    for n in names:
        t = command("info-config", n, *where)
        s = field(t, "State") or ""
        info.append({"i": ix.get(field(t, "Trial ID"), 99), "config": field(t, "Trial ID") == n and values(t, cfg[n]), "st": s.replace("State.", ""), "l": shown(field(t, "Loss") or "None", losses),
                     "reported": "Reported As" in t, "worker": field(t, "Evaluating Worker ID") == ("None" if cs[ix[n] - 1]["st"] == "pending" else "w")})
    unknown = "No trial found" in command("info-config", "no_such", *where)
    if rng.random() < 0.5:  # a configuration whose creation was cut short does not exist
        (root / "configs" / "config_half").mkdir(exist_ok=True)
        before["configs/config_half"] = "d"
        unknown = unknown and "No trial found" in command("info-config", "half", *where)
    t = command("errors", *where)
    err = []
    for m in re.finditer(r"^Error in Trial ID: (\S+)[ \t]*$(.*?)(?=^Error in Trial ID|\Z)", t, re.M | re.S):
        err.append({"i": ix.get(m.group(1), 99), "own": bool(re.search(r"Worker ID: w[ \t]*$", m.group(2), re.M) and re.search(r"Error Type: RuntimeError", m.group(2)) and re.search(r"Error Message: x", m.group(2)))})
    if plot:
        command("results", *where, "--plot")
        f = root / "incumbents_evolution.png"
        if not f.exists() or f.read_bytes()[:4] != b"\x89PNG":
            return {"k": "failed", "what": "results --plot"}
        f.unlink()
    after = digest(root)
    other = root.parent / "missing"
    gone = "does not exist" in command("status", "--root-directory", str(other)) and not other.exists()
    return {"k": "ok", "cs": cs, "status": st, "results": res, "info": info, "errors": err, "unknown": unknown and gone, "same": before == after}


def job(j):
    cs, sd, plot = j
    rng = random.Random(sd)
    d = vlib.tmpdir("cli")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        names, cfg, losses = sm.build(d / "r", cs, rng, losses=rng.choice(LOSSES),
                                      info={"searcher_alg": rng.choice(("random_search", "mine")), **({"searcher_name": "n", "searcher_args": {"a": 1}} if rng.random() < 0.7 else {})})
        try:
            return observe(d / "r", cs, names, cfg, losses, rng, plot)
        except (Exception, SystemExit) as e:  # noqa: BLE001
            import traceback

            return {"k": "failed", "what": f"{type(e).__name__}: {e} in {traceback.extract_tb(e.__traceback__)[-1].name}"}
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def templates(rep):
    """init writes a settings file that is valid and never replaces one that exists."""
    import yaml

    d = vlib.tmpdir("cli")
    cwd = os.getcwd()
    os.chdir(d)
    try:
        for t in (None, "basic", "complete"):
            for path in (None, "other.yaml"):
                f = d / (path or "run_config.yaml")
                f.unlink(missing_ok=True)
                args = ["init", *(["--template", t] if t else []), *(["--config-path", path] if path else [])]
                command(*args)
                y = yaml.safe_load(f.read_text())
                if not {"run_pipeline", "pipeline_space", "root_directory", "max_evaluations_total"} <= set(y):
                    rep.violation(f"neps {' '.join(args)}: not a settings file: {sorted(y)}", {"kind": "clireads", "job": ["init"]})
                f.write_text("mine: 1\n")
                command(*args)
                if f.read_text() != "mine: 1\n":
                    rep.violation(f"neps {' '.join(args)} replaced an existing file", {"kind": "clireads", "job": ["init"]})
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def clireads(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCCli", "MCCli.cfg")
    cases = [c for c in vlib.generate(rep, "MCSummary", "MCSummary.cfg") if all(x["st"] != "half" for x in c)]
    rng = random.Random(s * 271)
    jobs = []
    for cs in cases:
        for _ in range(8 if T else 1):
            c = list(cs)
            rng.shuffle(c)
            jobs.append((c, rng.randrange(1 << 30), rng.random() < 0.04))
    for _ in range(2000 if T else 200):
        c = [rng.choice(rng.choice(cases) or [{"st": "pending", "l": 0}]) for _ in range(rng.randrange(5, 14))]
        jobs.append((c, rng.randrange(1 << 30), rng.random() < 0.04))
    res = vlib.pmap(job, jobs)
    verd = vlib.table(rep, "TableCli", "Table.cfg", res)
    rep.add(traces_validated_against_impl=len(jobs))
    rep.sample(res[-1])
    for j, x, v in zip(jobs, res, verd):
        if v and len(rep.violations) < 4:
            rep.violation(f"configurations {[(c['st'], c['l']) for c in j[0]]}: wrong {sorted(v)}: {x}", {"kind": "clireads", "job": j})
    templates(rep)


def replay(d):
    if len(d["job"]) == 1:
        rep = vlib.Report("P23")
        templates(rep)
        print(*[v["what"] for v in rep.violations], sep="\n")
        return 1 if rep.violations else 0
    x = job(tuple(d["job"]))
    v = vlib.table(None, "TableCli", "Table.cfg", [x])
    if v[0]:
        print(sorted(v[0]), x)
    return 1 if v[0] else 0
