"""Checks decided by Protocol.tla: model checking plus judged executions of real workers."""

from __future__ import annotations

import itertools
import json
import random
import time

import protocol as P
import vlib
from protocol import settings

_TPL: dict = {}


def template(kind: str, searcher: str = "probe"):
    key = (kind, searcher)
    if key not in _TPL:
        _TPL[key] = P.build_template(kind, searcher)
    return _TPL[key]


def templates(kinds, searcher="probe"):
    """Build many at once (in parallel)."""
    todo = [k for k in kinds if (k, searcher) not in _TPL]
    for k, p in zip(todo, vlib.pmap(lambda k: P.build_template(k, searcher), todo)):
        _TPL[(k, searcher)] = p


def W(n, **kw):
    return [{"set": settings(**kw.get("set", {})), "plan": kw.get("plan", [{"cost": 1}])} for _ in range(n)]


def scen(name, workers, tpl="", searcher="probe", **kw):
    return {"name": name, "searcher": searcher, "workers": workers, "tpl": tpl, **kw}


def late(*ws):
    return [{**w, "late": True} for w in ws]


def _run(job):
    sc, sd = job
    t = time.time()
    try:
        r = P.execute(template(sc["tpl"], sc["searcher"]), sc, sd)
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{e!r}\n{traceback.format_exc()}", "job": job}
    return {"trace": r["trace"], "steps": r["steps"], "by_worker": r["by_worker"], "hang": r["hang"],
            "t": time.time() - t,
            "exits": [(e[0], e[1]["chain"][0] if isinstance(e[1], dict) and "chain" in e[1] else None) for e in r["exits"]]}


def base_len(sc, first=0) -> int:
    """Number of operations worker `first` needs when it runs alone first."""
    r = P.execute(template(sc["tpl"], sc["searcher"]), sc, {"kind": "list", "first": first})
    return r["by_worker"].get(first, 0)


def lock_points(sc) -> list[int]:
    r = P.execute(template(sc["tpl"], sc["searcher"]), sc, {"kind": "list", "first": 0})
    return [i for i, k in enumerate(r["kinds"]) if k.endswith(("lock", "start", "end", "ask"))]


# ---- schedule families
def pb1(sc, stride=1, offset=0):
    """Worker 1 is interrupted once, at every operation; the other one runs to its end."""
    n = base_len(sc)
    return [{"kind": "list", "first": 0, "points": [[i, 1]]} for i in range(offset % stride, n + 1, stride)]


def pb2(sc, count, rng):
    """Interrupted at i, and control returned at j (at lock boundaries and events)."""
    pts = lock_points(sc)
    pairs = [(i, j) for i in pts for j in range(i + 2, i + 260, 7)]
    if count and count < len(pairs):
        pairs = rng.sample(pairs, count)
    return [{"kind": "list", "first": 0, "points": [[i, 1], [j, 0]]} for i, j in pairs]


def rand(count, seed, p=(0.01, 0.05, 0.2)):
    return [{"kind": "rand", "seed": seed * 1000 + i, "p": p[i % len(p)]} for i in range(count)]


def pct(count, seed, n=600, d=3):
    return [{"kind": "pct", "seed": seed * 1000 + i, "len": n, "d": d} for i in range(count)]


def crash_all(sc, stride=1, offset=0, partial=True):
    """Worker 1, running alone, is killed before every operation (and inside every write)."""
    r = P.execute(template(sc["tpl"], sc["searcher"]),
                  {**sc, "workers": [sc["workers"][0]]}, {"kind": "list", "first": 0})
    out = []
    for i, k in enumerate(r["kinds"]):
        if i % stride == offset % stride:
            out.append({"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, False]]})
        if partial and k == "0write":
            out.append({"kind": "list", "first": 0, "crash_w": 0, "crash": [[i, True]]})
    return out


def crash_rand(count, seed, n=350, p=0.03):
    rng = random.Random(seed)
    return [{"kind": "rand", "seed": seed * 1000 + i, "p": p, "crash_w": rng.randrange(2),
             "crash": [[rng.randrange(1, n), rng.random() < 0.3]]} for i in range(count)]


# ---- running and judging
def explain(sc, sd, res, v) -> str:
    tr = res["trace"]
    k = v["reached"]
    if v.get("bad") and k >= len(tr["ev"]):
        return f"scenario {sc['name']}: an invariant of the specification fails on the recorded execution"
    r = tr["ev"][k]
    prev = tr["obs"][tr["ev"][k - 1]["o"] - 1] if k else None
    short = {x: r[x] for x in r if x not in ("o", "fx", "view")}
    txt = (f"scenario {sc['name']}: the execution is not a behaviour of the specification: record {k + 1} of "
           f"{len(tr['ev'])}, {json.dumps(short)}, run directory {json.dumps(tr['obs'][r['o'] - 1])}"
           f" (before: {json.dumps(prev)})")
    if r.get("how", "").startswith("failed") or res["hang"]:
        txt += f" exits={res['exits']} {res['hang'] or ''}"
    return txt


def explore(rep: vlib.Report, jobs: list[tuple[dict, dict]], label="protocol"):
    t = time.time()
    templates(sorted({sc["tpl"] for sc, _ in jobs if sc["searcher"] == "probe"}))
    for s in {sc["searcher"] for sc, _ in jobs} - {"probe"}:
        templates(sorted({sc["tpl"] for sc, _ in jobs if sc["searcher"] == s}), s)
    res = vlib.pmap(_run, jobs)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    t1 = time.time()
    verd, st = vlib.judge("TraceProtocol", "TraceProtocol.cfg", [r["trace"] for r in res])
    rep.add(states=st["states"], transitions=st["transitions"], traces_validated_against_impl=sum(v["judged"] for v in verd),
            distinct_traces=st["distinct_traces"],
            trace_records=sum(len(r["trace"]["ev"]) for r in res),
            implementation_steps=sum(r["steps"] for r in res))
    c = rep.cov.setdefault("scenarios", {})
    for (sc, _), r in zip(jobs, res):
        e = c.setdefault(sc["name"], {"executions": 0, "max_evaluations_seen": 0})
        e["executions"] += 1
        e["max_evaluations_seen"] = max(e["max_evaluations_seen"], sum(x["k"] == "start" for x in r["trace"]["ev"]))
    if res:
        i = len(res) // 2
        rep.sample({"scenario": jobs[i][0]["name"], "schedule": jobs[i][1],
                    "records": [f"{x['a']}:{x['k']}" for x in res[i]["trace"]["ev"]][:60]})
    seen = set()
    for (sc, sd), r, v in zip(jobs, res, verd):
        if not v["ok"]:
            if sc["name"] in seen and len(rep.violations) >= 2:
                continue
            seen.add(sc["name"])
            rep.violation(explain(sc, sd, r, v), {"kind": "protocol", "scenario": sc, "schedule": sd})
    rep.cov.setdefault("seconds", {})[label] = [round(t1 - t, 1), round(time.time() - t1, 1)]


def replay(d: dict) -> int:
    sc, sd = d["scenario"], d["schedule"]
    r = _run((sc, sd))
    v, _ = vlib.judge("TraceProtocol", "TraceProtocol.cfg", [r["trace"]])
    for x in r["trace"]["ev"]:
        print(json.dumps({k: x[k] for k in x if k != "fx"}), json.dumps(r["trace"]["obs"][x["o"] - 1]))
    print(v)
    if not v[0]["ok"]:
        print(explain(sc, sd, r, v[0]))
    return 0 if v[0]["ok"] else 1


def cross(scs, fam):
    return [(sc, sd) for sc in scs for sd in fam]


def each(scs, fam):
    return [(sc, sd) for sc in scs for sd in fam(sc)]


# ------------------------------------------------------------------------- checks
def at_most_once(rep):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCProtocol", "MC_base.cfg")
    rep.model("MCProtocol", "MC_norecheck.cfg", expect="Owned")
    if T:
        rep.model("MCProtocol", "MC_three.cfg", workers=8, timeout=3000, mem="12g")
    claim = scen("two workers, two pending trials", W(2, set={"maxTotal": 3}), "pp")
    new = scen("two workers, empty run", W(2, set={"maxTotal": 2}), "")
    three = scen("three workers, three pending trials", W(3, set={"maxTotal": 4}), "ppp")
    rs = scen("two random-search workers", W(2, set={"maxTotal": 3}), "p", "random_search")
    jobs = each([claim], lambda c: pb1(c, 1 if T else 4, s))
    jobs += each([new], lambda c: pb1(c, 1 if T else 6, s))
    jobs += each([claim, new], lambda c: pb2(c, 1500 if T else 40, rng))
    jobs += cross([three], rand(600 if T else 40, s) + pct(600 if T else 30, s))
    jobs += cross([rs], rand(200 if T else 30, s))
    jobs += cross([scen("three workers, one killed", W(3, set={"maxTotal": 4}), "pp")], crash_rand(400 if T else 40, s))
    explore(rep, jobs)


def durable(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_base.cfg")
    plan = [{"cost": 1}, {"ok": False}, {"cost": 2}]
    one = W(1, set={"maxTotal": 4}, plan=plan)
    cr = scen("killed with results on disk, then resumed", one + late(*W(1, set={"maxTotal": 4}, plan=plan)), "sc")
    two = scen("two workers, results on disk", W(2, set={"maxTotal": 5}, plan=plan), "scs")
    intr = scen("interrupted evaluation, then resumed",
                W(1, set={"maxTotal": 4}, plan=[{"cost": 1}, {"intr": True}]) + late(*W(1, set={"maxTotal": 4}, plan=plan)), "s")
    jobs = each([cr], lambda c: crash_all(c, 1 if T else 4, s, partial=True))
    jobs += each([two], lambda c: pb1(c, 1 if T else 4, s))
    jobs += cross([two], rand(300 if T else 60, s) + pct(300 if T else 30, s))
    jobs += cross([intr], [{"kind": "list"}])
    jobs += cross([scen("two workers, one killed", W(2, set={"maxTotal": 5}, plan=plan), "sc")], crash_rand(400 if T else 40, s))
    explore(rep, jobs)


def sampling(rep):
    s, T = vlib.seed(), vlib.thorough()
    rng = random.Random(s)
    rep.model("MCProtocol", "MC_base.cfg")
    rep.model("MCProtocol", "MC_noserial.cfg", expect="SerialSampling")
    plan = [{"cost": 1}, {"ok": False}]
    two = scen("two workers sampling", W(2, set={"maxTotal": 3}, plan=plan), "")
    full = scen("two workers sampling, history on disk", W(2, set={"maxTotal": 5}, plan=plan), "sce")
    three = scen("three workers sampling", W(3, set={"maxTotal": 4}, plan=plan), "")
    jobs = each([two], lambda c: pb1(c, 1 if T else 5, s)) + each([full], lambda c: pb1(c, 1 if T else 8, s))
    jobs += each([two], lambda c: pb2(c, 1500 if T else 50, rng))
    jobs += cross([three], rand(600 if T else 40, s) + pct(600 if T else 30, s))
    jobs += cross([scen("sampler killed, others go on", W(3, set={"maxTotal": 4}, plan=plan), "s")],
                  crash_rand(500 if T else 40, s, n=250))
    explore(rep, jobs)


def oldest_first(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_base.cfg")
    n = 4 if T else 3
    kinds = ["".join(k) for m in range(1, n + 1) for k in itertools.product("pesc", repeat=m) if "p" in k]
    if not T:
        rng = random.Random(s)
        kinds = [k for k in kinds if len(k) < 3] + rng.sample([k for k in kinds if len(k) == 3], 14)
    kinds += ["ppppp", "epepp", "psppe"] + (["pppppppp", "spcpepps", "ppppppppppp"] if T else ["p" * 11])
    # ids are compared as text nowhere: eleven pending trials cross the 9/10 boundary
    sing = [scen(f"one worker on {k}", W(1, set={"maxTotal": len(k) + 1}), k) for k in kinds]
    jobs = cross(sing, [{"kind": "list"}])
    jobs += [(scen(f"one random-search worker on {k}", W(1, set={"maxTotal": len(k) + 1}), k, "random_search"), {"kind": "list"})
             for k in ("pp", "ppp")]
    two = scen("two workers on pppp", W(2, set={"maxTotal": 5}), "pppp")
    jobs += each([two], lambda c: pb1(c, 1 if T else 6, s))
    jobs += cross([two], rand(400 if T else 60, s))
    explore(rep, jobs)


def crash_resume(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_base.cfg")
    plan = [{"cost": 1}, {"ok": False}]
    sets = {"maxTotal": 3, "inProg": False}
    one = scen("killed at any point, then resumed", W(1, set=sets, plan=plan) + late(*W(1, set=sets, plan=plan)), "")
    two = scen("killed at any point while another worker runs",
               W(2, set=sets, plan=plan) + late(*W(1, set=sets, plan=plan)), "p")
    resp = {**two, "name": "killed and immediately replaced", "respawn": True}
    jobs = each([one], lambda c: crash_all(c, 1 if T else 2, s))
    jobs += cross([two, resp], crash_rand(600 if T else 60, s, n=300))
    # killed twice
    rng = random.Random(s)
    thr = scen("killed twice, then resumed", W(1, set=sets, plan=plan) + late(*W(2, set=sets, plan=plan)), "")
    jobs += [(thr, {"kind": "list", "crash": [[a, rng.random() < .3], [a + rng.randrange(5, 330), rng.random() < .3]]})
             for a in (rng.randrange(1, 330) for _ in range(500 if T else 60))]
    explore(rep, jobs)


def total_limit(rep):
    s, T = vlib.seed(), vlib.thorough()
    for c in ("MC_base", "MC_completed", "MC_one"):
        rep.model("MCProtocol", c + ".cfg")
    jobs = []
    plan = [{"cost": 1}, {"cost": 1}, {"ok": False}, {"cost": 1}]
    for n in (1, 2, 3, 5):
        for inp in (True, False):
            for tpl in ("", "s", "c", "e", "p", "se"):
                jobs.append((scen(f"one worker, total {n}, inprogress {inp}, {tpl}",
                                  W(1, set={"maxTotal": n, "inProg": inp}, plan=plan), tpl), {"kind": "list"}))
    for w in (2, 3):
        for n in (1, 2, 4):
            for inp in (True, False):
                sc = scen(f"{w} workers, total {n}, inprogress {inp}", W(w, set={"maxTotal": n, "inProg": inp}, plan=plan), "")
                jobs += cross([sc], rand(60 if T else 10, s + n, (0.01, 0.05, 0.2)) + pct(30 if T else 4, s + n))
    two = scen("two workers, total 2", W(2, set={"maxTotal": 2}, plan=plan), "s")
    jobs += each([two], lambda c: pb1(c, 1 if T else 4, s))
    # a later run with a larger limit continues
    for a, b in ((1, 3), (2, 2), (3, 2)):
        jobs.append((scen(f"total {a}, then total {b}", W(1, set={"maxTotal": a}) + late(*W(1, set={"maxTotal": b})), ""), {"kind": "list"}))
    explore(rep, jobs)


def budgets(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_perworker.cfg")
    rep.model("MCProtocol", "MC_cost.cfg")
    jobs = []
    plan = [{"cost": 1, "dur": 2}, {"cost": 3, "dur": 1}, {"ok": False, "dur": 2}, {"cost": 0, "dur": 0}, {"dur": 3}, {"cost": 2, "dur": 1}]
    lims = {"maxW": (0, 1, 3), "maxCost": (1, 3, 4, 5), "maxCostW": (1, 4, 5, 6), "maxWall": (1, 3, 5, 8),
            "maxTimW": (2, 3, 5, 6), "maxTim": (1, 3, 5, 8)}
    for k, vs in lims.items():
        for v in vs:
            for tpl in ("", "s", "ssc"):
                st = {k: v}
                if k == "maxW":
                    st["maxTotal"] = 6
                elif k != "maxCost":
                    st["maxTotal"] = 7
                jobs.append((scen(f"one worker, {k}={v}, {tpl}", W(1, set=st, plan=plan), tpl), {"kind": "list"}))
    for st in ({"maxCost": 3, "costErr": 2}, {"maxCost": 4, "costErr": 1, "lossErr": 50}, {"maxCostW": 5, "costErr": 1, "maxTotal": 8}):
        jobs.append((scen(f"one worker, {st}", W(1, set=st, plan=[{"cost": 1}, {"ok": False}]), ""), {"kind": "list"}))
    for k, v in (("maxW", 1), ("maxW", 2), ("maxCost", 3), ("maxCost", 5), ("maxCostW", 3), ("maxWall", 3), ("maxTim", 3), ("maxTimW", 3)):
        st = {k: v} if k == "maxCost" else {k: v, "maxTotal": 5}
        sc = scen(f"two workers, {k}={v}", W(2, set=st, plan=plan), "s")
        jobs += cross([sc], rand(60 if T else 8, s + v) + pct(30 if T else 4, s))
    # workers of the same run may have different limits
    mixed = scen("two workers with different limits",
                 W(1, set={"maxTotal": 6, "maxW": 1}, plan=plan) + W(1, set={"maxTotal": 4}, plan=plan), "")
    jobs += cross([mixed], rand(60 if T else 10, s))
    explore(rep, jobs)


def error_policy(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_raise.cfg")
    rep.model("MCProtocol", "MC_stop.cfg")
    jobs = []
    ok, bad = [{"cost": 1}], [{"cost": 1}, {"ok": False}, {"cost": 1}]
    for pol in ("ignore", "raise_any", "raise_worker", "stop_any", "stop_worker"):
        for tpl in ("", "c", "sc", "p"):
            jobs.append((scen(f"one worker, {pol}, {tpl}", W(1, set={"maxTotal": len(tpl) + 3, "onErr": pol}, plan=bad), tpl), {"kind": "list"}))
        for b in ("none", "str", "noloss"):
            jobs.append((scen(f"one worker, {pol}, result {b}", W(1, set={"maxTotal": 3, "onErr": pol}, plan=[{"cost": 1}, {"ok": False, "bad": b}]), ""), {"kind": "list"}))
        # an error together with a limit that is reached at the same time
        jobs.append((scen(f"one worker, {pol}, error and limit", W(1, set={"maxTotal": 2, "maxW": 2, "onErr": pol}, plan=bad), ""), {"kind": "list"}))
        sc = scen(f"two workers, {pol}, one fails", W(1, set={"maxTotal": 5, "onErr": pol}, plan=bad) + W(1, set={"maxTotal": 5, "onErr": pol}, plan=ok), "")
        jobs += cross([sc], rand(80 if T else 14, s) + pct(30 if T else 6, s))
        jobs += each([sc], lambda c: pb1(c, 2 if T else 12, s))
    for st in ({"onErr": "ignore", "lossErr": 50}, {"onErr": "raise_any", "lossErr": 50}, {"onErr": "raise_any", "costErr": 2},
               {"onErr": "ignore", "lossErr": 50, "costErr": 2}):
        jobs.append((scen(f"one worker, {st}", W(1, set={"maxTotal": 4, **st}, plan=bad), ""), {"kind": "list"}))
    mixed = scen("two workers, different policies", W(1, set={"maxTotal": 6, "onErr": "ignore"}, plan=bad) + W(1, set={"maxTotal": 6, "onErr": "raise_any"}, plan=ok), "")
    jobs += cross([mixed], rand(80 if T else 14, s))
    explore(rep, jobs)


def accounting(rep):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCProtocol", "MC_base.cfg")
    plan = [{"cost": 2}, {"ok": False}, {"cost": 0}, {"ok": False}, {"cost": 3}]
    jobs = []
    for st in ({}, {"costErr": 2}, {"lossErr": 9, "costErr": 1}):
        jobs.append((scen(f"one worker {st}", W(1, set={"maxTotal": 5, **st}, plan=plan), "sc"), {"kind": "list"}))
        sc = scen(f"two workers {st}", W(2, set={"maxTotal": 5, **st}, plan=plan), "sc")
        jobs += each([sc], lambda c: pb1(c, 1 if T else 12, s))
        jobs += cross([sc], rand(200 if T else 20, s) + pct(100 if T else 6, s))
    three = scen("three workers", W(3, set={"maxTotal": 6, "costErr": 1}, plan=plan), "")
    jobs += cross([three], rand(300 if T else 30, s) + pct(200 if T else 10, s))
    explore(rep, jobs)
