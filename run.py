#!/opt/venv/bin/python
"""run.py PROP [--tier quick|thorough] [--replay FILE] [--only a,b] [--scale X] [--no-build]"""
import argparse
import glob
import importlib
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
for k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[k] = "1"
os.environ.update(
    PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", HF_HUB_OFFLINE="1",
)
sys.dont_write_bytecode = True

PY = "/opt/venv/bin/python"
if os.environ.get("PYTHONHASHSEED") != "0" or os.path.realpath(sys.prefix) != "/opt/venv":
    env = dict(os.environ, PYTHONHASHSEED="0")
    for k in ("PYTHONPATH", "LD_LIBRARY_PATH", "PYTHONHOME"):
        env.pop(k, None)
    os.execve(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, VERIF)


QUICK = 4.0  # the quick tier runs this many times the number of cases each sub-check names


def import_under_test():
    sys.path.insert(1, "/repo")
    import torch

    torch.set_num_threads(1)
    import pytorch3d
    import pytorch3d._C

    assert pytorch3d.__file__.startswith("/repo/"), pytorch3d.__file__
    assert pytorch3d._C.__file__.startswith("/repo/"), pytorch3d._C.__file__


def load(prop):
    mods = glob.glob(os.path.join(VERIF, "checks", prop.lower() + "_*.py"))
    if len(mods) != 1:
        raise SystemExit(f"no check module for {prop}")
    importlib.import_module("checks." + os.path.basename(mods[0])[:-3])


def setup():
    from vlib import build, core  # noqa: F401

    print("build:", build.ensure_built(), flush=True)
    import_under_test()
    print("setup: pytorch3d and hypothesis", core.st.__name__, "import")
    return 0


def run():
    if sys.argv[1:] == ["--setup"]:
        return setup()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--no-build", action="store_true")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED") or "1")
    except ValueError:
        seed = 1
    from vlib import build, core

    if not a.no_build:
        print("build:", build.ensure_built(), flush=True)
    import_under_test()
    load(a.prop)
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        kind, text = core.replay_isolated(a.prop, r["check"], r["case"], core.CASE_HANG_S)
        print(kind, text or "")
        if kind in ("fail", "crash", "hang"):
            print(f"VIOLATION property={a.prop} replay={a.replay}")
            return 1
        return 0 if kind == "ok" else 3
    budget = a.budget or (420 if tier == "quick" else 3000)
    return core.main(a.prop, tier, seed, budget, a.jobs, a.only and a.only.split(","),
                     a.scale or (QUICK if tier == "quick" else 1.0))


if __name__ == "__main__":
    try:
        rc = run()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
