"""Plants a bug: python3 tools/plant.py SPEC.py [--tests]  (scratch copy in /tmp/plant, removed by `plant.py --clean`).

SPEC.py defines SEEDS: list of dict(id, prop, edits=[(file, old, new)], demo=python source, needs, breaks).
For each: makes the patch against /repo's HEAD in a scratch copy, runs the demo with and without it and,
with --tests, the repository's stable tests; on success writes seeded/<id>/.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_DIR", "/tmp/plant")
R = S + "/repo"
DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
exec timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def setup():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if os.path.exists(R):
        sh(f"git -C {R} checkout -q -- . && git -C {R} clean -fdq && git -C {R} fetch -q /repo HEAD && git -C {R} checkout -q {head}")
        if sh(f"git -C {R} rev-parse HEAD").stdout.strip() == head:
            return
        shutil.rmtree(R)
    os.makedirs(S, exist_ok=True)
    sh(f"cp -a /repo {R}")


def build():
    s = re.sub(r"/repo\b", R, open("/opt/vp/build.sh").read())
    open(S + "/build.sh", "w").write(s)
    r = sh(f"bash {S}/build.sh")
    return r.returncode == 0, r.stdout[-500:] + r.stderr[-1500:]


def tests():
    s = re.sub(r"/repo\b", R, open("/opt/vp/test.sh").read()).replace("/opt/vp/reports", S + "/reports")
    s = s.replace("bash /opt/vp/build.sh ||", "true ||")
    open(S + "/test.sh", "w").write(s)
    sh(f"bash {S}/test.sh {S}/out.json")
    out = json.load(open(S + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    key = next(k for k in base if isinstance(base[k], list) and len(base[k]) > 500)
    passed = set(out.get("passed", []))
    return [t for t in base[key] if t not in passed]


def demo(d):
    r = sh(f"cd {R} && bash {d}/demo.sh")
    return r.returncode, (r.stdout + r.stderr)[-600:]


def main():
    if sys.argv[1] == "--clean":
        shutil.rmtree(S, ignore_errors=True)
        return
    spec = runpy.run_path(sys.argv[1])["SEEDS"]
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    for s in spec:
        if only and s["id"] not in only:
            continue
        setup()
        d = f"{V}/seeded/{s['id']}"
        tmp = f"{S}/{s['id']}"
        os.makedirs(tmp, exist_ok=True)
        open(tmp + "/demo.py", "w").write(s["demo"].lstrip())
        open(tmp + "/demo.sh", "w").write(DEMO)
        native = any("csrc" in f for f, _, _ in s["edits"])
        if native:
            build()
        rc0, out0 = demo(tmp)
        for f, old, new in s["edits"]:
            t = open(f"{R}/{f}").read()
            n = t.count(old)
            if n != 1:
                print(s["id"], "edit matches", n, "times in", f)
                break
            open(f"{R}/{f}", "w").write(t.replace(old, new))
        else:
            if native:
                ok, msg = build()
                if not ok:
                    print(s["id"], "DOES NOT BUILD", msg)
                    continue
            rc1, out1 = demo(tmp)
            if rc0 != 0 or rc1 == 0:
                print(s["id"], "DEMO BAD", rc0, out0, "|", rc1, out1)
                continue
            bad = tests() if "--tests" in sys.argv else []
            if bad:
                shutil.rmtree(d, ignore_errors=True)
                print(s["id"], "BREAKS TESTS", bad[:5], len(bad))
                continue
            open(tmp + "/patch.diff", "w").write(sh(f"git -C {R} diff").stdout)
            json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
            print(s["id"], "kept", out1.strip().splitlines()[-1:])
            sh(f"git -C {R} checkout -q -- .")


main()
