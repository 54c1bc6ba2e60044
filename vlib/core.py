"""Property-based testing driver.

A property module (checks/cNN_*.py) registers *sub-checks*:

    @sub(strategy, quick=300, thorough=5000)
    def name(case, cx): ...

`strategy` is a Hypothesis strategy producing plain JSON-able data: the whole
generated case.  The body builds tensors from it (vlib.gen.T), runs the code in
/repo and compares with its oracle, raising AssertionError on disagreement.
Because the case is plain data, a (shrunk) failing case is its own replay file.
"""
import hashlib
import importlib
import json
import math
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


def _import_hypothesis():
    try:
        import hypothesis  # noqa
        return
    except ImportError:
        pass
    sys.path.append(VT)
    try:
        import sortedcontainers  # noqa
        import hypothesis  # noqa
        import hypothesis.strategies  # noqa
        import hypothesis.internal.conjecture.engine  # noqa
        import hypothesis.internal.conjecture.shrinker  # noqa
    finally:
        sys.path.remove(VT)


_import_hypothesis()

from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings  # noqa: E402
from hypothesis import strategies as st  # noqa: E402,F401


class HarnessError(Exception):
    """Something wrong with the machinery, not with the code under test."""


class Sub:
    def __init__(self, fn, strategy, quick, thorough, shards, timeout, rule):
        self.fn, self.strategy = fn, strategy
        self.quick, self.thorough = quick, thorough
        self.shards, self.timeout, self.rule = shards, timeout, rule
        self.name = fn.__name__


REGISTRY = {}


def sub(strategy, quick=200, thorough=None, shards=None, timeout=200, rule=None):
    """Registers a sub-check of the module's property (module global PROP)."""

    def deco(fn):
        prop = fn.__globals__["PROP"]
        s = Sub(fn, strategy, quick, thorough or quick * 20, shards, timeout, rule)
        REGISTRY.setdefault(prop, {})[s.name] = s
        return fn

    return deco


class Cx:
    """What a sub-check says about the case it is running."""

    def __init__(self):
        self.nontrivial = True
        self.labels = []
        self.known = []

    def trivial(self, cond=True):
        if cond:
            self.nontrivial = False

    def label(self, *names):
        self.labels.extend(str(n) for n in names)


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(",", ":"))


def derive_seed(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], "big")


def _quiet():
    import warnings
    import logging

    warnings.filterwarnings("ignore")
    logging.disable(logging.WARNING)


def _layouts(seed):
    """Tensors made by the checks from arrays have any layout in memory, chosen by the case."""
    import random

    import torch

    if not hasattr(torch, "_vlib_from_numpy"):
        torch._vlib_from_numpy = torch.from_numpy
    r = random.Random(seed)

    def from_numpy(a):
        t = torch._vlib_from_numpy(a)
        if t.ndim < 2 or not t.numel() or "/checks/" not in sys._getframe(1).f_code.co_filename:
            return t
        k = r.random()
        if k < 0.8:
            return t
        if k < 0.9:
            return torch.cat([t, t[..., :1]], -1)[..., :-1]
        return t.transpose(0, -1).contiguous().transpose(0, -1)

    torch.from_numpy = from_numpy


def run_case(s, case):
    """Runs one case.  Returns (cx, None) or (cx, failure text)."""
    import torch
    import numpy as np
    import random

    cx = Cx()
    # the code under test may use the global generators: pin them per case
    sd = derive_seed("case", canon(case)) % (2**31)
    torch.manual_seed(sd)
    np.random.seed(sd)
    random.seed(sd)
    _layouts(sd)
    try:
        s.fn(case, cx)
    except HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
    except BaseException as e:  # an exception on an input the property covers
        tb = traceback.format_exc()
        if isinstance(e, AssertionError):
            msg = "".join(traceback.format_exception_only(type(e), e)).strip()
            frames = traceback.extract_tb(e.__traceback__)
            where = [f"{f.filename}:{f.lineno}" for f in frames if "/checks/" in f.filename]
            return cx, f"{msg[:1500]} [{where[-1] if where else ''}]"
        return cx, tb[-3000:]
    return cx, None


SHRINK_S = {"quick": 40, "thorough": 120}
CASE_HANG_S = 200


def worker(prop, name, shard, n_examples, seed, tier, deadline, statusfile, stop):
    """Runs one shard of one sub-check; returns a result dict."""
    s = REGISTRY[prop][name]
    _quiet()
    state = {
        "evals": 0, "skipped": 0, "labels": {}, "distinct": set(), "nontrivial": set(),
        "samples": [], "fail": None, "fail_at": None, "failing": {}, "known": {},
    }
    status = open(statusfile, "w+")

    def note(text):
        status.seek(0)
        status.write(f"{time.time()}\n{text}")
        status.truncate()
        status.flush()

    def body(case):
        key = canon(case)
        now = time.time()
        if state["fail_at"] is None:
            if now > deadline or stop.is_set():
                state["skipped"] += 1
                return
        elif now > state["fail_at"] + SHRINK_S[tier] and key not in state["failing"]:
            return
        note(key)
        cx, fail = run_case(s, case)
        state["evals"] += 1
        d = hashlib.sha256(key.encode()).digest()[:8]
        for lab in cx.labels:
            state["labels"][lab] = state["labels"].get(lab, 0) + 1
        for k in cx.known:
            state["known"][k] = state["known"].get(k, 0) + 1
        state["distinct"].add(d)
        if cx.nontrivial:
            state["nontrivial"].add(d)
            if len(state["samples"]) < 2 and len(state["nontrivial"]) % 7 == 3 or not state["samples"]:
                state["samples"].append(key[:600])
        if fail is not None:
            if state["fail_at"] is None:
                state["fail_at"] = now
            state["failing"][key] = fail
            state["fail"] = (case, fail)
            raise AssertionError(fail)

    test = given(s.strategy)(body)
    test = settings(
        max_examples=n_examples, deadline=None, database=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        suppress_health_check=[HealthCheck.too_slow, HealthCheck.data_too_large,
                               HealthCheck.large_base_example],
        phases=[Phase.generate, Phase.shrink],
    )(test)
    test = hyp_seed(derive_seed(seed, prop, name, shard))(test)
    err = None
    try:
        test()
    except AssertionError:
        if state["fail"] is None:
            err = traceback.format_exc()
    except BaseException as e:
        if state["fail"] is None or isinstance(e, (HarnessError, KeyboardInterrupt)):
            err = traceback.format_exc()
    note("")
    status.close()
    res = {
        "name": name, "shard": shard, "evals": state["evals"], "skipped": state["skipped"],
        "labels": state["labels"], "distinct": state["distinct"],
        "nontrivial": state["nontrivial"], "samples": state["samples"],
        "known": state["known"], "error": err, "fail": None,
    }
    if state["fail"] is not None and err is None:
        # the last failing case hypothesis ran is the minimal one; confirm it
        best = min(state["failing"].items(), key=lambda kv: (len(kv[0]), kv[0]))
        for cand in (state["fail"], (json.loads(best[0]), best[1])):
            cx, fail = run_case(s, cand[0])
            if fail is not None:
                res["fail"] = (cand[0], fail)
                break
        else:
            res["error"] = "failure did not reproduce on replay: " + state["fail"][1]
    if res["fail"] is not None:
        stop.set()
    return res


def _task(conn, args):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        import torch

        torch.set_num_threads(1)
        res = worker(*args)
    except BaseException:
        res = {"name": args[1], "shard": args[2], "error": traceback.format_exc(), "fail": None,
               "evals": 0, "skipped": 0, "labels": {}, "distinct": set(), "nontrivial": set(),
               "samples": [], "known": {}}
    conn.send(res)
    conn.close()


class Pool:
    """One forked process per task, so that a native crash is attributed to the
    case that was running and takes nothing else down."""

    def __init__(self, n, scratch):
        self.n, self.scratch = n, scratch
        self.ctx = mp.get_context("fork")

    def run(self, tasks, hang_s, on_result):
        pending = list(tasks)
        live = {}
        k = 0
        while pending or live:
            while pending and len(live) < self.n:
                args, statusfile = pending.pop(0)
                a, b = self.ctx.Pipe(duplex=False)
                p = self.ctx.Process(target=_task, args=(b, args))
                p.start()
                b.close()
                live[p.sentinel] = (p, a, args, statusfile)
                k += 1
            mp.connection.wait([x[1] for x in live.values()] + list(live), timeout=1.0)
            for key in list(live):
                p, a, args, statusfile = live[key]
                res = None
                if a.poll():
                    try:
                        res = a.recv()
                    except EOFError:
                        res = None
                    p.join(20)
                    if p.is_alive():
                        p.kill()
                        p.join()
                    if res is None:
                        res = self._dead(p, args, statusfile)
                elif not p.is_alive():
                    res = self._dead(p, args, statusfile)
                else:
                    started, case = self._status(statusfile)
                    if case and time.time() - started > hang_s:
                        p.kill()
                        p.join()
                        res = {"name": args[1], "shard": args[2], "hang": json.loads(case)}
                if res is not None:
                    a.close()
                    del live[key]
                    on_result(args, res)

    @staticmethod
    def _status(statusfile):
        try:
            with open(statusfile) as f:
                t, _, case = f.read().partition("\n")
            return float(t), case
        except (OSError, ValueError):
            return 0.0, ""

    def _dead(self, p, args, statusfile):
        _, case = self._status(statusfile)
        out = {"name": args[1], "shard": args[2], "exit": p.exitcode}
        if case:
            try:
                out["crash"] = json.loads(case)
            except ValueError:
                out["crash"] = None
        return out


def _replay_child(prop, name, case, conn):
    _quiet()
    import torch

    torch.set_num_threads(1)
    try:
        cx, fail = run_case(REGISTRY[prop][name], case)
        conn.send(("fail", fail) if fail else ("ok", None))
    except BaseException:
        conn.send(("error", traceback.format_exc()))
    conn.close()


def replay_isolated(prop, name, case, hang_s):
    """Runs a case in its own process: ok | fail | crash | hang | error."""
    ctx = mp.get_context("fork")
    a, b = ctx.Pipe(duplex=False)
    p = ctx.Process(target=_replay_child, args=(prop, name, case, b))
    p.start()
    b.close()
    if a.poll(hang_s):
        try:
            r = a.recv()
        except EOFError:
            p.join(10)
            return "crash", f"the process died with exit code {p.exitcode}"
        p.join(20)
        return r
    if p.is_alive():
        p.kill()
        p.join()
        return "hang", f"no result after {hang_s} s"
    return "crash", f"the process died with exit code {p.exitcode}"


def load_known():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


def save_replay(prop, name, case, fail):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(canon(case).encode()).hexdigest()[:10]
    path = os.path.join(d, f"{prop}_{name}_{h}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "check": name, "case": case, "failure": fail}, f, indent=1)
    return path


def main(prop, tier, seed, budget, jobs, only=None, scale=1.0):
    t0 = time.time()
    subs = REGISTRY[prop]
    if only:
        subs = {k: v for k, v in subs.items() if k in only}
    import tempfile
    import shutil

    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    os.environ["VERIF_SCRATCH"] = scratch
    stop = mp.get_context("fork").Event()
    deadline = t0 + budget
    tasks = []
    # examples of one sub-check are split over shards: each shard is its own
    # seeded hypothesis run
    for name, s in subs.items():
        n = max(1, int((s.quick if tier == "quick" else s.thorough) * scale))
        shards = s.shards or max(1, min(jobs, n // 25))
        if tier == "thorough":
            shards = max(shards, jobs)
        for k in range(shards):
            share = n // shards + (1 if k < n % shards else 0)
            if share:
                sf = os.path.join(scratch, f"{name}_{k}.status")
                tasks.append(((prop, name, k, share, seed, tier, deadline, sf, stop), sf))
    # interleave sub-checks, so that a deadline hits all alike
    tasks.sort(key=lambda t: (t[0][2], t[0][1]))
    results, failures, errors = {}, [], []

    def on_result(args, res):
        name = args[1]
        if "hang" in res or "exit" in res:
            case = res.get("hang", res.get("crash"))
            if case is None:
                errors.append(f"{name}: worker ended with {res.get('exit')} outside a case")
                return
            kind, text = replay_isolated(prop, name, case, CASE_HANG_S)
            if kind in ("crash", "hang", "fail"):
                failures.append((name, case, f"{kind}: {text}"))
                stop.set()
            else:
                errors.append(f"{name}: worker ended ({res}) and the case then gave {kind} {text}")
            return
        if res["error"]:
            errors.append(f"{name}[{res['shard']}]: {res['error']}")
        if res["fail"]:
            failures.append((name, res["fail"][0], res["fail"][1]))
        r = results.setdefault(name, {"evals": 0, "skipped": 0, "labels": {}, "distinct": set(),
                                      "nontrivial": set(), "samples": [], "known": {}, "t": 0})
        for k in ("evals", "skipped"):
            r[k] += res[k]
        for k in ("labels", "known"):
            for lab, c in res[k].items():
                r[k][lab] = r[k].get(lab, 0) + c
        r["distinct"] |= res["distinct"]
        r["nontrivial"] |= res["nontrivial"]
        if len(r["samples"]) < 2:
            r["samples"] += res["samples"][: 2 - len(r["samples"])]

    try:
        Pool(jobs, scratch).run(tasks, CASE_HANG_S, on_result)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

    wall = time.time() - t0
    known_defs = [k for k in load_known() if k["property"] == prop and not k.get("fixed")]
    for k in known_defs:
        n = sum(r["known"].get(k["id"], 0) for r in results.values())
        print(f"KNOWN-FINDING: property={prop} {k['what']} (seen {n} times in this run)")
    # one failure per sub-check: the smallest
    by_sub = {}
    for name, case, fail in failures:
        if name not in by_sub or len(canon(case)) < len(canon(by_sub[name][0])):
            by_sub[name] = (case, fail)
    evals = sum(r["evals"] for r in results.values())
    coverage = {
        "evaluations": evals,
        "distinct_nontrivial": sum(len(r["nontrivial"]) for r in results.values()),
        "rule": sys.modules[subs[next(iter(subs))].fn.__module__].RULE,
        "samples": [
            {"check": n, "case": s} for n, r in sorted(results.items()) for s in r["samples"][:2]
        ],
        "per_check": {
            n: {"evaluations": r["evals"], "distinct": len(r["distinct"]),
                "distinct_nontrivial": len(r["nontrivial"]), "skipped_by_time_budget": r["skipped"],
                "labels": dict(sorted(r["labels"].items())[:40])}
            for n, r in sorted(results.items())
        },
        "explanation": "generated cases run against the real code in /repo; each check "
                       "compares with its oracle and raises on disagreement",
    }
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": ["CPU code paths only; no GPU in the sandbox"],
        "wall_s": round(wall, 2), "violations": len(by_sub),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    text = json.dumps(ev, indent=1)
    if len(text) > 60000:
        coverage["samples"] = coverage["samples"][:5]
        text = json.dumps(ev, indent=1)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        f.write(text)
    for n, r in sorted(results.items()):
        print(f"  {n}: {r['evals']} cases, {len(r['nontrivial'])} distinct non-trivial, "
              f"skipped {r['skipped']}, {dict(sorted(r['labels'].items())[:14])}")
    print(f"{prop}: {evals} cases in {wall:.1f} s, tier {tier}, seed {seed}")
    if by_sub:
        for name, (case, fail) in sorted(by_sub.items()):
            path = save_replay(prop, name, case, fail)
            print(f"check {name}: {fail}")
            print(f"case: {canon(case)[:1500]}")
            print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errors:
        for e in errors:
            print("HARNESS ERROR:", e, file=sys.stderr)
        return 3
    if not evals:
        print("HARNESS ERROR: no case ran", file=sys.stderr)
        return 3
    return 0
