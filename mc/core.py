"""Runner shared by every check: cases, parallel execution, evidence, replay files, known findings."""
import json
import multiprocessing
import os
import pickle
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")


def load_library():
    """Import the library from /repo's working tree (never from anywhere else)."""
    import torch

    torch.set_num_threads(1)
    import torch_struct

    root = os.path.realpath(os.path.dirname(torch_struct.__file__))
    if not root.startswith("/repo/"):
        raise SystemExit("torch_struct imported from %s, not /repo" % root)
    return torch_struct


class Violation(Exception):
    """The property fails; `detail` says where (JSON-able)."""

    def __init__(self, what, **detail):
        super().__init__(what)
        self.what = what
        self.detail = detail


class Stats:
    """What one case covered. Every number is incremented where the work is done."""

    def __init__(self):
        self.states = 0        # distinct states of the explored models / distinct explorer nodes
        self.transitions = 0   # distinct transitions taken
        self.traces = 0        # complete runs (structures, histories, schedules) compared with the code
        self.evals = 0         # comparisons of one implementation result with its oracle
        self.outcomes = set()  # a few distinct observed outcomes, to show that the run is not vacuous
        self.samples = []
        self.notes = []

    def outcome(self, o):
        if len(self.outcomes) < 50000:
            self.outcomes.add(o)

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)

    def note(self, s):
        if s not in self.notes:
            self.notes.append(s)

    def dump(self):
        return dict(states=self.states, transitions=self.transitions, traces=self.traces,
                    evals=self.evals, outcomes=self.outcomes, samples=self.samples, notes=self.notes)


class Stop(Exception):
    pass


def _jsonable(x):
    try:
        import torch
        if torch.is_tensor(x):
            x = x.detach()
            if x.numel() > 400:
                return {"shape": list(x.shape), "head": x.reshape(-1)[:100].tolist()}
            return x.tolist()
    except Exception:
        pass
    if isinstance(x, dict):
        return {str(k): _jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [_jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)


def _worker(job):
    modname, fn, kw, seed = job
    import importlib
    t0 = time.time()
    st = Stats()
    viol = None
    try:
        import torch
        torch.set_num_threads(1)
        torch.manual_seed(seed)
        torch.set_grad_enabled(True)
        torch.set_default_dtype(torch.float32)
        mod = importlib.import_module(modname)
        getattr(mod, fn)(st, **kw)
    except Violation as v:
        viol = {"what": v.what, "detail": _jsonable(v.detail)}
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except Exception as e:
        viol = {"what": "unexpected %s: %s" % (type(e).__name__, str(e)[:300]),
                "detail": {"traceback": traceback.format_exc()[-3000:]}}
    if viol is not None:
        viol["case"] = {"module": modname, "fn": fn, "kwargs": _jsonable(kw), "seed": seed}
    return fn, kw, st.dump(), viol, time.time() - t0


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get("known", []) if k["property"] == prop]


def in_child(fn):
    """fn() computed in a forked copy of this process, which is left as it was. Returns (value, None) or (None, error)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = (fn(), None)
            except Exception as e:
                out = (None, "%s: %s" % (type(e).__name__, str(e)[:300]))
            with os.fdopen(w, "wb") as f:
                pickle.dump(out, f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else (None, "the process died")


def run_check(prop, module, cases, tier, bounds, rule, assumptions=(), procs=8, exhaustive=True, fresh=False):
    """Run all cases, write evidence, print the verdict, return the exit code."""
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    jobs = [(module, fn, kw, SEED) for fn, kw in cases]
    tot = Stats()
    viols = []
    per_fn = {}
    notes = []
    slow = []

    def take(res):
        fn, kw, d, viol, dt = res
        slow.append((dt, fn, str(kw)[:160]))
        tot.states += d["states"]
        tot.transitions += d["transitions"]
        tot.traces += d["traces"]
        tot.evals += d["evals"]
        tot.outcomes |= {(fn, str(kw), o) for o in d["outcomes"]}
        p = per_fn.setdefault(fn, dict(cases=0, states=0, transitions=0, traces=0, comparisons=0, samples=[]))
        p["cases"] += 1
        for a, b in (("states", "states"), ("transitions", "transitions"), ("traces", "traces"),
                     ("comparisons", "evals")):
            p[a] += d[b]
        if len(p["samples"]) < 2:
            p["samples"] += [_jsonable(s) for s in d["samples"][:1]]
        for n in d["notes"]:
            if n not in notes:
                notes.append(n)
        if viol:
            viols.append(viol)

    if procs > 1 and len(jobs) > 1:
        load_library()
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(min(procs, len(jobs)), maxtasksperchild=1 if fresh else None) as pool:
            for res in pool.imap_unordered(_worker, jobs, chunksize=1):
                take(res)
                if len(viols) >= 5:
                    pool.terminate()
                    break
    else:
        load_library()
        for j in jobs:
            take(_worker(j))
            if len(viols) >= 5:
                break

    known = load_known(prop)
    new = []
    seen_known = set()
    for v in viols:
        for k in known:
            if k["match"] in v["what"]:
                seen_known.add(k["what"])
                break
        else:
            new.append(v)
    wall = time.time() - t0
    samples = []
    for fn, p in per_fn.items():
        samples += [{"case_kind": fn, "case": s} for s in p["samples"]]
    ev = {
        "property": prop, "tier": tier, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": tot.states, "transitions": tot.transitions,
            "traces_validated_against_impl": tot.traces,
            "evaluations": tot.evals,
            "distinct_nontrivial": len(tot.outcomes),
            "cases": sum(p["cases"] for p in per_fn.values()),
            "rule": rule, "bounds": bounds, "exhaustive": bool(exhaustive and not viols),
            "per_kind": {k: {a: b for a, b in p.items() if a != "samples"} for k, p in per_fn.items()},
            "samples": samples[:12] or ["none"],
            "notes": notes,
        },
        "assumptions": list(assumptions),
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if os.environ.get("MC_TIMES"):
        for dt, fn, kw in sorted(slow, reverse=True)[:12]:
            print("  %.2fs %s %s" % (dt, fn, kw))
    print("%s tier=%s cases=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d wall=%.1fs" % (
        prop, tier, ev["coverage"]["cases"], tot.states, tot.transitions, tot.traces, tot.evals,
        len(tot.outcomes), wall))
    for n in notes:
        print("note: " + n)
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for i, v in enumerate(new):
        path = os.path.join(rdir, "%s-%d.json" % (prop, i))
        v["property"] = prop
        v["replay_cmd"] = "bash /verif/check.sh replay %s" % path
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        print("  %s" % v["what"])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return 1 if new else 0
