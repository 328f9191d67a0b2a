"""P27: the objects searchers work with (search spaces and configurations).  Judged by Configs.tla."""

from __future__ import annotations

import json
import math
import random
import signal

import vlib

NAMES = ("a", "b", "lr", "Z", "n_layers", "x1", "opt", "é")
CONFS = ("low", "medium", "high")
BAD = 10**6  # a value that is none of the parameter's
JUNK = -5  # a value of another type


def space(rng):
    """Definitions: name -> how to make the parameter, and what a value may be."""
    import neps

    n = rng.choice((1, 2, 3, 4, 5))
    names = sorted(rng.sample(NAMES, n))
    fid = rng.choice((None, *range(n)))
    defs = []
    for i, nm in enumerate(names):
        kind = rng.choice(("float", "int")) if i == fid else rng.choice(("float", "float", "int", "int", "cat", "cat", "const"))
        d = {"name": nm, "kind": kind, "fid": i == fid, "conf": rng.choice(CONFS), "log": rng.random() < 0.4}
        if kind == "float":
            d["lo"], d["hi"] = rng.choice(((0.0, 1.0), (-3.5, 2.25), (1e-5, 0.1), (10.0, 1000.0))) if not d["log"] else rng.choice(((1e-5, 0.1), (0.5, 64.0)))
            d["some"] = [d["lo"], d["hi"], d["lo"] + (d["hi"] - d["lo"]) * 0.25, d["lo"] + (d["hi"] - d["lo"]) * 0.625]
            d["bad"] = [d["lo"] - 1, d["hi"] * 1.5 + 1, d["hi"] + 1e-3]
            d["make"] = lambda d=d, **k: neps.Float(d["lo"], d["hi"], log=d["log"], is_fidelity=d["fid"], default_confidence=d["conf"], **k)
        elif kind == "int":
            d["lo"], d["hi"] = rng.choice(((0, 1), (-4, 9), (1, 2), (3, 50))) if not d["log"] else rng.choice(((1, 2), (1, 100), (3, 9)))
            d["some"] = sorted({d["lo"], d["hi"], (d["lo"] + d["hi"]) // 2})
            d["bad"] = [d["lo"] - 1, d["hi"] + 1, d["hi"] + 100]
            d["make"] = lambda d=d, **k: neps.Integer(d["lo"], d["hi"], log=d["log"], is_fidelity=d["fid"], default_confidence=d["conf"], **k)
        elif kind == "cat":
            d["some"] = rng.choice((["x", "y"], [1, 2, 3], ["1", 1, 2.5], [0.5, "a b", 7, "no"], ["t", "u", "v", "w", "z"]))
            d["bad"] = ["unknown", 99, -1.5]
            d["make"] = lambda d=d, **k: neps.Categorical(list(d["some"]), default_confidence=d["conf"], **k)
        else:
            d["some"] = rng.choice(([5, 6], ["s", "t"], [0.5, 1.5], [0, 1]))
            d["bad"] = []
            d["make"] = lambda d=d, **k: neps.Constant(d["some"][0])
        d["default"] = rng.choice(d["some"]) if kind != "const" and rng.random() < 0.6 else None
        defs.append(d)
    return defs


def build(defs):
    from neps.search_spaces.search_space import SearchSpace

    return SearchSpace(**{d["name"]: d["make"](**({} if d["kind"] == "const" else {"default": d["default"]})) for d in defs})


def same(a, b):
    return type(a) is type(b) and a == b


def raw(d, v):
    """A value as the real code has it, checked for its type: ("n", number), ("i", place) or None."""
    if v is None:
        return None
    if d["kind"] in ("cat", "const"):
        k = [i for i, x in enumerate(d["some"]) if same(x, v)]
        return ("i", k[0]) if k else ("i", BAD)
    if isinstance(v, bool) or not isinstance(v, (int, float)) or (isinstance(v, float) and not math.isfinite(v)):
        return ("i", JUNK)
    if d["kind"] == "int":
        return ("n", v) if isinstance(v, int) else ("i", JUNK)
    return ("n", v) if isinstance(v, float) else ("i", JUNK)


def given(d, v):
    """A value handed to the real code (any number will do where it has the value)."""
    if v is None or d["kind"] in ("cat", "const"):
        return raw(d, v)
    return ("n", float(v)) if d["kind"] == "float" else ("n", int(v))


def look(defs, s):
    """What one object says about itself, and whether it is consistent."""
    out, ok = [], list(s.hyperparameters) == [d["name"] for d in defs] and list(s) == list(s.hyperparameters) and len(s) == len(defs)
    for d in defs:
        h = s.hyperparameters[d["name"]]
        ok = ok and s[d["name"]] is h and type(h).__name__ == {"float": "FloatParameter", "int": "IntegerParameter", "cat": "CategoricalParameter", "const": "ConstantParameter"}[d["kind"]]
        ok = ok and h.is_fidelity == d["fid"]
        c = "low"
        if d["kind"] != "const":
            names = [k for k, x in h.DEFAULT_CONFIDENCE_SCORES.items() if x == h.default_confidence_score]
            c = names[0] if names else "?"
            ok = ok and h.has_prior == (h.default is not None)
            ok = ok and (h.normalized_value is None) == (h.value is None)
        if d["kind"] in ("float", "int"):
            ok = ok and same(h.lower, d["lo"]) and same(h.upper, d["hi"]) and h.log == d["log"]
        if d["kind"] == "cat":
            ok = ok and len(h.choices) == len(d["some"]) and all(same(x, y) for x, y in zip(h.choices, d["some"]))
        if d["kind"] != "const" and h.value is not None and raw(d, h.value)[1] not in (BAD, JUNK):
            try:
                ok = ok and math.isclose(h.normalized_value, h.value_to_normalized(h.value), abs_tol=1e-9)
            except Exception:  # noqa: BLE001
                ok = False
        out.append([raw(d, h.value), raw(d, h.default), c])
    f = [d["name"] for d in defs if d["fid"]]
    ok = ok and (s.fidelity is s.hyperparameters[f[0]] and s.fidelity_name == f[0] and s.has_fidelity if f else s.fidelity is None and not s.has_fidelity)
    ok = ok and set(s.categoricals) == {d["name"] for d in defs if d["kind"] == "cat"} and all(s.categoricals[n] is s.hyperparameters[n] for n in s.categoricals)
    ok = ok and set(s.numerical) == {d["name"] for d in defs if d["kind"] in ("int", "float") and not d["fid"]} and all(s.numerical[n] is s.hyperparameters[n] for n in s.numerical)
    cs = {d["name"] for d in defs if d["kind"] == "const"}
    ok = ok and set(s.constants) == cs and all(same(s.constants[n], s.hyperparameters[n].value) for n in cs)
    return out, bool(ok)


def close(d, x, y):
    """So close that the comparison of values may go either way."""
    if d["kind"] != "float" or x is None or y is None or x == y:
        return False
    f = math.log if d["log"] else float
    return abs(f(x) - f(y)) < 1e-7 * (f(d["hi"]) - f(d["lo"]))


def pick(d, rng, bad=0.15, none=0.0):
    r = rng.random()
    if r < none:
        return None
    if r < none + bad and d["bad"]:
        return rng.choice(d["bad"])
    v = rng.choice(d["some"])
    if d["kind"] == "int" and rng.random() < 0.2:
        return float(v)
    return v


class Endless(BaseException):
    pass


def too_long(*_):
    raise Endless("the operation does not end")


def history(job):
    o = job
    signal.signal(signal.SIGALRM, too_long)
    import numpy as np

    rng = random.Random(o["seed"])
    random.seed(o["seed"]), np.random.seed(o["seed"] % 2**32)
    defs = space(rng)
    objs = [build(defs)]
    first, ok0 = look(defs, objs[0])
    ev, text = [], []
    for _ in range(o["n"]):
        # rather recent objects, and only so many
        who = lambda: rng.choice([0, *range(len(objs))][-6:] if rng.random() < 0.5 else range(len(objs)))  # noqa: E731
        a, b = who(), who()
        s = objs[a]
        ops = ["copy", "sample", "sample", "default", "load", "load", "mutate", "cross"] if len(objs) < o["max"] else []
        ops += ["value", "value", "setdef", "conf", "top", "defaults", "setall", "setall", "equal", "equals", "write", "values", "other", "other"]
        op = rng.choice(ops) if rng.random() < 0.8 or len(objs) >= o["max"] else rng.choice(("sample", "mutate", "cross", "load"))
        e = {"op": op, "a": a + 1, "b": b + 1, "dict": [], "prior": [], "vals": []}
        new, call = [], ""
        i = rng.randrange(len(defs))
        d = defs[i]
        h = s[d["name"]]
        signal.setitimer(signal.ITIMER_REAL, 10)
        try:
            if op == "copy":
                new = [s.clone()]
            elif op == "sample":
                pr, e["ign"] = rng.random() < 0.5, rng.random() < 0.5
                call = f"priors={pr} ignore_fidelity={e['ign']}"
                new = [s.sample(user_priors=pr, ignore_fidelity=e["ign"], patience=rng.choice((1, 1, 10)))]
            elif op == "default":
                e["ign"], e["miss"] = rng.random() < 0.5, rng.random() < 0.6
                new = [s.sample_default_configuration(ignore_fidelity=e["ign"], ignore_missing_defaults=e["miss"])]
            elif op in ("load", "setall"):
                dct = {}
                bad = rng.choice((0, 0, 0, 0.3))
                for j, x in enumerate(defs):
                    if rng.random() < 0.7:
                        v = pick(x, rng, bad)
                        if x["kind"] == "const" and rng.random() < 0.8 and op == "load":
                            v = s[x["name"]].value
                        dct[x["name"]] = v
                        e["dict"].append([j, given(x, v)])
                if bad and rng.random() < 0.2:
                    dct["nobody"] = 1
                    e["dict"].append([None, None])
                items = list(dct.items())
                rng.shuffle(items)
                dct, before = dict(items), dict(items)
                if op == "load":
                    call = repr(dct)
                    new = [s.from_dict(dct)]
                else:
                    t = lambda p: rng.random() < p  # noqa: E731
                    A = {"vals": t(0.7), "defs": t(0.6), "conf": rng.choice(CONFS) if t(0.95) else "junk", "nov": t(0.3), "nod": t(0.3), "consts": t(0.3)}
                    e["A"] = A
                    call = f"{dct!r} {A}"
                    s.set_hyperparameters_from_dict(dct, defaults=A["defs"], values=A["vals"], confidence=A["conf"], delete_previous_defaults=A["nod"],
                                                    delete_previous_values=A["nov"], overwrite_constants=A["consts"])
                if dct != before:
                    e["op"] = "changed the dictionary it was given"
            elif op == "mutate":
                if rng.random() < 0.5:
                    e["b"] = a + 1
                    new = [s.mutate()]
                else:
                    new = [s.mutate(parent=objs[b])]
            elif op == "cross":
                p = rng.choice((0.0, 0.5, 1.0))
                e["how"] = {0.0: "none", 0.5: "some", 1.0: "all"}[p]
                new = list(s.crossover(objs[b], p, patience=rng.choice((1, 50))))
            elif op in ("value", "setdef"):
                v = pick(d, rng, 0.25, 0.2)
                if d["kind"] == "const" and rng.random() < 0.5:
                    v = h.value
                e["p"], e["v"] = i + 1, [i, given(d, v)]
                call = f"{d['name']} {v!r}"
                (h.set_value if op == "value" else h.set_default)(v)
            elif op == "conf":
                if d["kind"] == "const":
                    continue
                e["p"], e["c"] = i + 1, rng.choice((*CONFS, *CONFS, "junk"))
                h.set_default_confidence_score(e["c"])
            elif op == "top":
                s.set_to_max_fidelity()
            elif op == "defaults":
                s.set_defaults_to_current_values()
            elif op == "equal":
                e["fid"] = rng.random() < 0.5
                if any(close(x, s[x["name"]].value, objs[b][x["name"]].value) for x in defs):
                    continue
                r = s.is_equal_value(objs[b], include_fidelity=e["fid"])
                e["ret"] = r if isinstance(r, bool) else bool(r)
            elif op == "equals":
                e["ret"] = all(s[x["name"]] == objs[b][x["name"]] for x in defs)
            elif op == "other":
                if d["kind"] == "const":
                    continue
                e["p"], e["how"] = i + 1, rng.choice(("simple", "local_search"))
                kw = {"std": rng.choice((0.1, 0.5))} if e["how"] == "local_search" and rng.random() < 0.5 and d["kind"] != "cat" else {}
                if rng.random() < 0.5:
                    e["b"] = a + 1
                    m = h.mutate(mutation_strategy=e["how"], **kw)
                else:
                    m = h.mutate(objs[b][d["name"]], mutation_strategy=e["how"], **kw)
                cn = [k for k, x in m.DEFAULT_CONFIDENCE_SCORES.items() if x == m.default_confidence_score]
                e["one"] = [raw(d, m.value), raw(d, m.default), cn[0] if cn else "?"]
            elif op == "write":
                w = s.serialize()
                e["vals"] = [[j, raw(x, w[x["name"]])] for j, x in enumerate(defs)]
            elif op == "values":
                w = s.hp_values()
                e["vals"] = [[j, raw(x, w[x["name"]])] for j, x in enumerate(defs)]
            e["res"] = "ok"
        except (Exception, Endless) as x:  # noqa: BLE001
            e["res"] = f"{type(x).__name__}: {x}"[:200]
            if isinstance(x, Endless):
                e["endless"] = True
            new = []
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        objs += new
        e["prior"] = [bool(x.has_prior) for x in new]
        seen = [look(defs, x) for x in objs]
        e["heap"] = [x for x, _ in seen]
        e["sound"] = all(x for _, x in seen) and ok0
        ev.append(e)
        if e.pop("endless", False):
            e["op"] = "endless"  # no step of the specification
        text.append(f"{e['op']}({e['a']}{',' + str(e['b']) if op in ('mutate', 'other', 'cross', 'equal', 'equals') else ''} {call}) -> {e['res']}")
    return number(defs, first, ev), text


def number(defs, first, ev):
    """Numbers become their places in the order of all numbers of the parameter."""
    vals = [{float(d["lo"]), float(d["hi"])} if d["kind"] in ("int", "float") else set() for d in defs]

    def see(j, v):
        if v is not None and v[0] == "n":
            vals[j].add(float(v[1]))

    for e in [{"heap": [first]}, *ev]:
        for s in e["heap"]:
            for j, (v, d, _) in enumerate(s):
                see(j, v), see(j, d)
        for v in e.get("one", [])[:2]:
            see(e["p"] - 1, v)
        for j, v in [*e.get("dict", []), *e.get("vals", []), *([e["v"]] if "v" in e else [])]:
            if j is not None:
                see(j, v)
    place = [{x: i for i, x in enumerate(sorted(v))} for v in vals]

    def tok(j, v):
        return -1 if v is None else place[j][float(v[1])] if v[0] == "n" else v[1]

    def obj(s):
        return [{"v": tok(j, v), "d": tok(j, d), "c": c} for j, (v, d, c) in enumerate(s)]

    sp = [{"kind": d["kind"], "fid": d["fid"], "lo": place[j][float(d["lo"])] if d["kind"] in ("int", "float") else 0,
           "hi": place[j][float(d["hi"])] if d["kind"] in ("int", "float") else len(d["some"]) - 1} for j, d in enumerate(defs)]
    out = []
    for e in ev:
        e = dict(e)
        e["heap"] = [obj(s) for s in e["heap"]]
        e["dict"] = [{"p": j + 1 if j is not None else 99, "v": tok(j, v) if j is not None else 0} for j, v in e["dict"]]
        if "one" in e:
            j = e["p"] - 1
            e["one"] = {"v": tok(j, e["one"][0]), "d": tok(j, e["one"][1]), "c": e["one"][2]}
        e["vals"] = [tok(j, v) for j, v in e["vals"]]
        if "v" in e:
            e["v"] = tok(*e["v"])
        out.append(e)
    return {"sp": sp, "first": obj(first), "ev": out}


def run_job(j):
    try:
        return history(j)
    except Exception as e:  # noqa: BLE001
        import traceback

        return {"error": f"{j}: {e!r}\n{traceback.format_exc()}"}


def explain(r, v):
    t, text = r
    k = min(v["reached"], len(t["ev"]) - 1)
    prev = t["ev"][k - 1]["heap"] if k else [t["first"]]
    e = t["ev"][k]
    diff = [(i + 1, prev[i] if i < len(prev) else None, x) for i, x in enumerate(e["heap"]) if i >= len(prev) or prev[i] != x]
    return (f"objects of {json.dumps(t['sp'])}: operation {k + 1}, {text[k]}, did what Configs does not allow: consistent {e['sound']}, "
            f"changed or new objects {json.dumps(diff)}, {json.dumps({x: e[x] for x in e if x not in ('heap',)})}; of "
            f"{json.dumps(prev[e['a'] - 1])}; before: {text[max(0, k - 4):k]}")


def confobj(rep: vlib.Report):
    s, T = vlib.seed(), vlib.thorough()
    rep.model("MCConfigs", f"MCConfigs{'_deep' if T else ''}.cfg")
    rng = random.Random(s * 104729)
    jobs = [{"seed": rng.randrange(1 << 30), "n": rng.choice((15, 40, 60)), "max": rng.choice((3, 6, 10))} for _ in range(12000 if T else 1200)]
    res = vlib.pmap(run_job, jobs, chunk=40)
    for r in res:
        if "error" in r:
            raise vlib.CheckError(r["error"])
    verd, st = vlib.judge("TraceConfigs", "TraceConfigs.cfg", [r[0] for r in res], batch=200)
    ops = {}
    for r in res:
        for e in r[0]["ev"]:
            x = ops.setdefault(e["op"], [0, 0])
            x[e["res"] != "ok"] += 1
    rep.add(states=st["states"], transitions=st["transitions"], distinct_traces=st["distinct_traces"], traces_validated_against_impl=sum(v["judged"] for v in verd))
    rep.cov["operations"] = {k: {"done": a, "refused": b} for k, (a, b) in sorted(ops.items())}
    rep.sample({"space": res[0][0]["sp"], "operations": res[0][1][:6]})
    seen = {}
    for j, r, v in zip(jobs, res, verd):
        if not v["ok"]:
            k = min(v["reached"], len(r[0]["ev"]) - 1)
            e = r[0]["ev"][k]
            k = (e["op"], e["res"][:40], e["sound"])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 1:
                rep.violation(explain(r, v), {"kind": "confobj", "job": j})
    if seen:
        rep.cov["rejected"] = {str(k): n for k, n in seen.items()}


def replay(d):
    r = run_job(d["job"])
    if "error" in r:
        print(r["error"])
        return 2
    v, _ = vlib.judge("TraceConfigs", "TraceConfigs.cfg", [r[0]])
    for x in r[1]:
        print(x)
    if not v[0]["ok"]:
        print(explain(r, v[0]))
    return 0 if v[0]["ok"] else 1
