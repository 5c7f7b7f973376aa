"""check <property>: discharges every obligation of the property on /repo's current source, replays the
counterexamples of those that fail on the real library, and writes the evidence."""

import argparse
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("GVC_REPO", "/repo")
VENV = os.environ.get("GVC_PYTHON", "/opt/venv/bin/python")
sys.dont_write_bytecode = True
sys.path.insert(0, VERIF)

from gvc import plans  # noqa: E402

LEVEL = "proof"


# ---------------------------------------------------------------- workers

_loaded = False


def load(cross):
    """Import the package on the verifier's Keras; every task runs in a process of its own forked after this."""
    global _loaded
    sys.setrecursionlimit(20000)
    from gvc import keras_stub as K

    def on_alarm(*a):
        raise OutOfTime("importing the package takes more than 120 s")

    try:
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(120)
        K.load_groco()
        _loaded = True
    except BaseException as e:
        _loaded = f"{type(e).__name__}: {e}"
    finally:
        signal.alarm(0)
    for m in ("t_layers", "t_padding", "t_groups", "t_utils", "t_checker"):
        __import__(f"gvc.{m}")
    if cross:
        from gvc import crosscheck

        crosscheck.install()


class OutOfTime(BaseException):
    """Not an Exception: neither the code nor the engine may take it for one of its own."""


def run_task(job):
    i, (mod, func, kw), limit = job
    t0 = time.time()
    out = {"i": i, "task": f"{func}({kw})", "proved": 0, "by": {}, "failed": [], "paths": 0, "rejected": 0, "covers": {}, "notes": [], "functions": []}

    def on_alarm(*a):
        raise OutOfTime(f"more than {limit} s")

    from gvc import poly

    before = dict(poly.STATS)
    try:
        if _loaded is not True:
            raise RuntimeError(f"the package cannot be loaded by the verifier: {_loaded}")
        signal.signal(signal.SIGALRM, on_alarm)
        signal.alarm(int(limit))
        m = __import__(f"gvc.{mod}", fromlist=["x"])
        out.update(getattr(m, func)(**kw).as_dict())
        if not out["proved"] and not out["failed"]:
            out["failed"].append(("obligations", "undecided", "no obligation was generated", None))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        out["failed"].append(("verifier", "undecided", f"{type(e).__name__}: {str(e)[:200]} at {tb[-1].filename}:{tb[-1].lineno}", None))
        poly.CTX = None
    finally:
        signal.alarm(0)
    out["i"] = i
    out["time"] = time.time() - t0
    out["stats"] = {k: poly.STATS[k] - before.get(k, 0) for k in poly.STATS}
    out["failed"] = [[str(a), str(b), str(c)[:600], jsonable(d)] for a, b, c, d in out["failed"][:6]]
    return out


def jsonable(v):
    try:
        json.dumps(v)
        return v
    except TypeError:
        return json.loads(json.dumps(v, default=str))


# ---------------------------------------------------------------- the replay harness

class Battery:
    def __init__(self, cases, jobs, seconds, tag):
        self.dir = tempfile.mkdtemp(prefix=f"gvc_{tag}_")
        self.out = os.path.join(self.dir, "out.json")
        with open(os.path.join(self.dir, "cases.json"), "w") as f:
            json.dump(cases, f)
        env = dict(os.environ, GVC_REPO=REPO, GVC_KERAS_HOME=os.path.join(self.dir, "keras"), PYTHONDONTWRITEBYTECODE="1")
        for k in ("PYTHONPATH", "PYTHONHOME", "VIRTUAL_ENV"):
            env.pop(k, None)
        self.log = open(os.path.join(self.dir, "log"), "w")
        self.seconds = seconds
        self.p = subprocess.Popen(
            [VENV, os.path.join(HERE, "battery.py"), "--cases", os.path.join(self.dir, "cases.json"), "--out", self.out, "--jobs", str(jobs),
             "--seconds", str(seconds)], stdout=self.log, stderr=self.log, cwd=self.dir, env=env, start_new_session=True,
        )

    def result(self):
        try:
            self.p.wait(self.seconds + 90)
        except subprocess.TimeoutExpired:
            os.killpg(self.p.pid, signal.SIGKILL)
        self.log.close()
        try:
            with open(self.out) as f:
                r = json.load(f)
        except (OSError, ValueError):
            with open(os.path.join(self.dir, "log")) as f:
                r = {"run": 0, "held": 0, "rejected": 0, "failed": [], "too_large": 0, "left": 0, "wall_s": 0, "harness": [], "error": f.read()[-2000:]}
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
        return r


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """(title, case) of the findings listed for this property."""
    out = []
    with open(os.path.join(VERIF, "known_findings.jsonl")) as f:
        for line in f:
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            d = json.loads(line)
            if d["property"] == pid:
                out.append(d)
    return out


# ---------------------------------------------------------------- main

def main():
    p = argparse.ArgumentParser()
    p.add_argument("property")
    p.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    p.add_argument("--jobs", type=int, default=int(os.environ.get("GVC_JOBS", "0")) or max(2, min(8, os.cpu_count() or 2)))
    p.add_argument("--task", help="only tasks whose description contains this")
    a = p.parse_args()
    pid, thorough = a.property, a.tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    budget = 3000 if thorough else 420
    todo = plans.unique_tasks(plans.tasks(pid, thorough, seed))
    if not thorough:
        todo = plans.quick_tasks(pid, todo)
    if a.task:
        todo = [t for t in todo if a.task in repr(t)]
    known = known_findings(pid)
    cases = plans.cases(pid, thorough, seed)
    battery = Battery(cases + [d["case"] for d in known], 3 if thorough else 2, 900 if thorough else 150, pid)

    order = list(enumerate(todo))
    order.sort(key=lambda t: -weight(t[1]))
    per_task = 900 if thorough else 300
    results = []
    load(thorough)
    with mp.get_context("fork").Pool(a.jobs, maxtasksperchild=1) as pool:
        it = pool.imap_unordered(run_task, [(i, t, per_task) for i, t in order], 1)
        left = len(order)
        while left:
            try:
                results.append(it.next(timeout=max(1, budget - (time.time() - t0))))
                left -= 1
            except mp.TimeoutError:
                break
        pool.terminate()
    done = {r["i"] for r in results}
    for i, t in order:
        if i not in done:
            results.append({"i": i, "task": f"{t[1]}({t[2]})", "proved": 0, "by": {}, "failed": [["budget", "undecided", "not reached within the time budget", None]],
                            "paths": 0, "rejected": 0, "covers": {}, "notes": [], "functions": [], "time": 0, "stats": {}})
    results.sort(key=lambda r: r["i"])
    if os.environ.get("GVC_TIMES"):
        with open(os.environ["GVC_TIMES"], "w") as f:
            for r in sorted(results, key=lambda r: -r["time"]):
                print(f"{r['time']:.1f} {r['task']} {[x[:3] for x in r['failed']] or ''}", file=f)
    verifier_wall = time.time() - t0
    bat = battery.result()

    known_keys = {json.dumps(d["case"], sort_keys=True): d for d in known}
    known_seen, violations = [], []
    for case, why in bat["failed"]:
        d = known_keys.get(json.dumps(case, sort_keys=True))
        if d:
            known_seen.append((d, why))
        else:
            violations.append({"case": case, "why": why, "obligation": None})
    failing = [r for r in results if r["failed"]]
    rng = random.Random(seed)
    replays = None
    unreplayed = []
    if failing and not violations:
        # every counterexample on the real code, then a wide search around the properties
        extra = []
        origin = {}
        for r in failing:
            t = todo[r["i"]]
            for name, status, detail, model in r["failed"][:3]:
                for c in plans.model_cases(t, model, rng):
                    k = json.dumps(c, sort_keys=True)
                    if k not in origin:
                        origin[k] = (r["task"], name, status, detail, model)
                        extra.append(c)
        extra = extra[:400] + plans.cases(pid, thorough, seed + 1, count=400 if pid in ("C14", "C15") else 160)
        replays = Battery(extra, a.jobs, 330 if not thorough else 1200, pid).result()
        for case, why in replays["failed"]:
            o = origin.get(json.dumps(case, sort_keys=True))
            violations.append({"case": case, "why": why, "obligation": o})
        if not violations:
            # refuted at sizes that cannot be run
            for r in failing:
                t = todo[r["i"]]
                for name, status, detail, model in r["failed"][:3]:
                    if status == "refuted" and unrunnable(t, model, rng):
                        unreplayed.append((r, name, status, detail, model))
    status = 0
    rdir = os.path.join(VERIF, "evidence", "replay")
    lines = []
    if violations:
        status = 1
        os.makedirs(rdir, exist_ok=True)
        # one that belongs to a failed obligation, preferably, and small
        v = sorted(violations, key=lambda v: (v["obligation"] is None, len(json.dumps(v["case"]))))[0]
        if v["obligation"] is None and failing:
            r = failing[0]
            v["obligation"] = (r["task"],) + tuple(r["failed"][0])
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": v["case"], "what_failed": v["why"], "failed_obligation": v["obligation"],
                       "run": f"GVC_REPO={REPO} {VENV} {HERE}/battery.py --replay {path}",
                       "others": [[x["case"], x["why"]] for x in violations[:20] if x is not v]}, f, indent=1)
        print(f"failed obligation: {v['obligation'][0]}: {v['obligation'][1]} ({v['obligation'][2]})" if v["obligation"] else "found by running the real code")
        print(f"input: {json.dumps(v['case'])}")
        print(f"what failed: {v['why']}")
        lines.append(f"VIOLATION property={pid} replay={path}")
    elif unreplayed:
        status = 1
        os.makedirs(rdir, exist_ok=True)
        r, name, st, detail, model = unreplayed[0]
        path = os.path.join(rdir, f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "failed_obligation": [r["task"], name, st, detail, model], "note": "the sizes of the counterexample are too large to be run"}, f, indent=1)
        print(f"failed obligation: {r['task']}: {name}: {detail}")
        lines.append(f"VIOLATION property={pid} replay={path} no-failing-input-found")
    for d, why in known_seen:
        print(f"KNOWN-FINDING: property={pid} {d['what']}")
    for d in known:
        if not any(k is d for k, _ in known_seen):
            print(f"note: the known finding '{d['what']}' no longer fails")
    if bat.get("error"):
        print("note: the replay harness could not run:", bat["error"][-500:])
    undecided = [[r["task"], *f[:3]] for r in failing for f in r["failed"]]
    if undecided and status == 0:
        print(f"note: {len(failing)} of {len(todo)} tasks were not proved on this tree; the property was only tested (bounded) there:")
        for u in undecided[:8]:
            print("   ", " | ".join(str(x)[:160] for x in u))
    ev = evidence(pid, a, seed, t0, verifier_wall, todo, results, bat, replays, violations, undecided, known_seen, cases)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{pid} {a.tier}: {c['discharged']} of {c['obligations']} obligations discharged in {c['tasks']} tasks over {c['paths']} paths; "
          f"{bat['run']} real-code cases ({bat['held']} held, {bat['rejected']} rejected); {ev['wall_s']} s")
    for x in lines:
        print(x)
    # a harness that cannot run at all decides nothing
    if status == 0 and failing and bat.get("error") and not bat["run"]:
        print("error: neither the verifier nor the replay harness gave an answer")
        status = 2
    sys.exit(status)


def weight(t):
    """Longest tasks first."""
    mod, func, kw = t
    w = plans.ORDER.get(kw.get("group") or kw.get("name"), 1)
    if kw.get("ndim") == 3:
        w *= 3
    if kw.get("strides") == "sym" or mod == "t_padding":
        w *= 3
    if mod == "t_padding":
        w *= 3 ** kw.get("ndim", 1)
    if kw.get("padding", "").startswith("same"):
        w *= 1.5
    if not kw.get("lifting"):
        w *= 2
    return w


def unrunnable(task, model, rng):
    from gvc import battery_size

    conc = (model or {}).get("concrete")
    if task[0] != "t_layers" or not conc:
        return False
    return battery_size.too_large(dict(task[2], sizes=conc))


def evidence(pid, a, seed, t0, verifier_wall, todo, results, bat, replays, violations, undecided, known_seen, cases):
    proved = sum(r["proved"] for r in results)
    failed = sum(len(r["failed"]) for r in results)
    by = {}
    stats = {}
    covers = {}
    functions = set()
    for r in results:
        functions |= set(r["functions"])
        for k, v in r["by"].items():
            by[k] = by.get(k, 0) + v
        for k, v in r.get("stats", {}).items():
            stats[k] = stats.get(k, 0) + v
        for k, v in r["covers"].items():
            covers[k] = covers.get(k, 0) + v
    kinds = {}
    for r in results:
        k = r["task"].split("(")[0]
        kinds[k] = kinds.get(k, 0) + r["proved"]
    info = TRUSTED
    ev = {
        "property": pid, "tier": a.tier, "seed": seed, "level": LEVEL,
        "coverage": {
            "obligations": proved + failed, "discharged": proved, "discharged_by": by, "obligations_per_contract": kinds,
            "tasks": len(todo), "paths": sum(r["paths"] for r in results), "rejected_paths": sum(r["rejected"] for r in results),
            "reached": covers, "functions_under_contract": sorted(functions),
            "solver": {"z3_calls": stats.get("z3_calls", 0), "z3_seconds": round(stats.get("z3_time", 0), 2), "second_solver_calls": stats.get("cvc5_calls", 0),
                       "second_solver_disagreements": stats.get("cvc5_disagree", 0), "second_solver_unknown": stats.get("cvc5_unknown", 0)},
            "verifier_seconds": round(verifier_wall, 1),
            "checker_cmd": f"python3-vt -m gvc.runner {pid} --tier {a.tier}",
            "trusted_base": info,
            "source": source_hash(),
            "bounded": {"what": "real-code cases against independent oracles (not counted as proved)", "run": bat["run"], "held": bat["held"],
                        "rejected": bat["rejected"], "samples": cases[:2]},
        },
        "assumptions": ASSUMPTIONS + EXTRA.get(pid, []),
        "wall_s": round(time.time() - t0, 2),
        "violations": [{"case": v["case"], "what": v["why"], "obligation": v["obligation"]} for v in violations[:10]],
        "known_findings": [d["what"] for d, _ in known_seen],
        "undecided": undecided[:40],
    }
    if bat.get("harness"):
        ev["coverage"]["bounded"]["harness_errors"] = bat["harness"][:5]
    if replays is not None:
        ev["coverage"]["replayed"] = {k: replays[k] for k in ("run", "held", "rejected", "too_large", "left", "wall_s")}
    return ev


def source_hash():
    h = hashlib.sha256()
    n = 0
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "groco"))):
        for f in sorted(fs):
            if f.endswith(".py"):
                n += 1
                with open(os.path.join(d, f), "rb") as g:
                    h.update(g.read())
    return f"{n} files of {REPO}/groco, sha256 {h.hexdigest()[:16]}"


TRUSTED = [
    "the verification engine in /verif/gvc (symbolic integers, normal forms, path enumeration), Python 3.12 and z3",
    "contracts of the Keras and NumPy operations the code calls (gvc/tensor.py) and of Keras's layer classes (gvc/keras_stub.py), "
    "assumed; compared with the real ones on concrete inputs by gvc/conformance.py",
    "the documented transformations of every group element (gvc/elements.json), checked against their definition by property C03",
]
ASSUMPTIONS = [
    "tensor entries are real numbers (no rounding), integers are mathematical",
    "kernels, biases, inputs and activations are uninterpreted; activations are elementwise",
    "Keras executes eagerly: tracing, mixed precision policies, and other backends are not modelled",
]
EXTRA = {
    "C08": ["the backend's convolution computes the documented convolution (its contract)"],
    "C12": ["pooling with padding same_equiv is proved where the built-in 'same' padding is even in total; an odd total is a known finding"],
    "C09": ["grouped convolutions (groups > 1) are not proved: known finding"],
}


if __name__ == "__main__":
    main()
