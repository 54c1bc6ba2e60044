"""mutate_cpp.py [--per-file N] [--workers W] [--seed S] [--files a.cpp,..] [--out LOG]

Development tool: random small mutations of the CPU sources of the extension.  A mutant's object files are compiled in a
scratch copy under /tmp/mutc and linked with the other objects of /repo/build; the checks of the properties which use the
file run against that copy.  Survivors are printed to the log for review.
"""
import argparse
import glob
import json
import os
import random
import re
import shutil
import subprocess
import threading

S = "/tmp/mutc"
C = "pytorch3d/csrc/"
PULSAR = "renderer.{}.cpu.cpp"
# file: (properties, sources to compile)
TABLE = {
    "ball_query/ball_query_cpu.cpp": "C26", "knn/knn_cpu.cpp": "C26", "sample_farthest_points/sample_farthest_points_cpu.cpp": "C26",
    "blending/sigmoid_alpha_blend_cpu.cpp": "C19", "compositing/alpha_composite_cpu.cpp": "C18", "compositing/norm_weighted_sum_cpu.cpp": "C18",
    "compositing/weighted_sum_cpu.cpp": "C18", "face_areas_normals/face_areas_normals_cpu.cpp": "C28,C01", "gather_scatter/gather_scatter_cpu.cpp": "C32",
    "iou_box3d/iou_box3d_cpu.cpp": "C33", "marching_cubes/marching_cubes_cpu.cpp": "C44", "marching_cubes/tables.h": "C44",
    "mesh_normal_consistency/mesh_normal_consistency_cpu.cpp": "C28", "packed_to_padded_tensor/packed_to_padded_tensor_cpu.cpp": "C04",
    "point_mesh/point_mesh_cpu.cpp": "C29", "points_to_volumes/points_to_volumes_cpu.cpp": "C34", "rasterize_meshes/rasterize_meshes_cpu.cpp": "C15,C17",
    "rasterize_points/rasterize_points_cpu.cpp": "C16", "sample_pdf/sample_pdf_cpu.cpp": "C23",
    "utils/geometry_utils.h": "C29,C15", "iou_box3d/iou_utils.h": "C33",
    "pulsar/include/renderer.draw.device.h": "C25", "pulsar/include/renderer.calc_signature.device.h": "C25", "pulsar/include/renderer.calc_gradients.device.h": "C25",
    "pulsar/include/renderer.backward.device.h": "C25", "pulsar/include/renderer.forward.device.h": "C25", "pulsar/include/closest_sphere_tracker.device.h": "C25",
    "pulsar/include/renderer.norm_cam_gradients.device.h": "C25", "pulsar/include/renderer.norm_sphere_gradients.device.h": "C25", "pulsar/include/renderer.render.device.h": "C25",
    "pulsar/include/renderer.get_screen_area.device.h": "C25", "pulsar/pytorch/renderer.cpp": "C25",
}
TEMP = "/repo/build/temp.linux-x86_64-cpython-312/repo/"
RULES = [
    (r" < ", [" <= ", " > "]), (r" <= ", [" < "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > "]), (r" == ", [" != "]), (r" != ", [" == "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
    (r"\bcontinue;", ["break;", ";"]), (r"\bbreak;", ["continue;", ";"]), (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
    (r"std::min\b", ["std::max"]), (r"std::max\b", ["std::min"]), (r"\bFMIN\b", ["FMAX"]), (r"\bFMAX\b", ["FMIN"]),
    (r"\bif \((?=[^;{}]*\) \{)", ["if (!!0 && ", "if (!!1 || "]), (r"(?<=[\[( ])0(?=[\]);, ])", ["1"]), (r"(?<=[\[( ])1(?=[\]);, ])", ["0", "2"]), (r"(?<=[\[( ])2(?=[\]);, ])", ["1"]),
    (r"\b1\.0f?\b", ["0.5f"]), (r"\b0\.5f?\b", ["1.0f"]), (r"\b2\.0f?\b", ["1.0f"]), (r"\babs\(", ["("]), (r"= -(?=[a-zA-Z(])", ["= "]), (r"\.x\b", [".y"]), (r"\.y\b", [".x"]), (r"\.z\b", [".x"]),
]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using|namespace)|TORCH_CHECK|AT_ASSERT|PULSAR_LOG|accessor<|THArg|ARGCHECK|LAUNCH|CUDA|static_assert|printf|\bwarn")


def sites(src):
    out, pos = [], 0
    for ln, line in enumerate(src.split("\n"), 1):
        code = line.split("//")[0]
        if not SKIP.search(line):
            for pat, news in RULES:
                for m in re.finditer(pat, code):
                    out += [(pos + m.start(), pos + m.end(), n, ln) for n in news]
        pos += len(line) + 1
    return out


def sh(cmd, timeout=None):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, timeout=timeout)


def flags():
    t = open(glob.glob("/repo/build/temp*/build.ninja")[0]).read()
    return tuple(re.search(rf"^{k} = (.*)$", t, re.M).group(1) for k in ("cflags", "post_cflags"))


def dependents(f):
    """Sources to compile for a change of f, from the depfiles of the build."""
    if f.endswith(".cpp"):
        return [C + f]
    r = sh("cd /repo/build/temp*/ && ninja -t deps")
    out, cur = [], None
    for line in r.stdout.split("\n"):
        if line and not line.startswith(" "):
            cur = line.split(": #")[0]
        elif line.strip() == "/repo/" + C + f:
            out.append(cur[len(TEMP):-2] + ".cpp")
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--per-file", type=int, default=15)
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--files")
    ap.add_argument("--out", default=S + "/log")
    a = ap.parse_args()
    random.seed(a.seed)
    os.makedirs(S, exist_ok=True)
    cf, pf = flags()
    jobs = []
    for f, props in TABLE.items():
        if a.files and not any(x in f for x in a.files.split(",")):
            continue
        src = open("/repo/" + C + f).read()
        ss = sites(src)
        random.shuffle(ss)
        for s, e, new, ln in ss[: a.per_file]:
            jobs.append((f, props, src[:s] + new + src[e:], ln, src.split("\n")[ln - 1].strip(), src[s:e], new))
    random.shuffle(jobs)
    print(len(jobs), "mutants", flush=True)
    deps = {f: dependents(f) for f in {j[0] for j in jobs}}
    log, lock, stats = open(a.out, "a"), threading.Lock(), {}

    def work(w):
        d = f"{S}/{w}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/o")
        sh(f"rsync -a --exclude build --exclude .git /repo/ {d}/repo/; rsync -a --exclude .git --exclude seeded --exclude evidence --exclude replays {os.path.dirname(os.path.dirname(os.path.abspath(__file__)))}/ {d}/verif/")
        sh(f"mkdir -p {d}/verif/evidence {d}/verif/replays; sed -i 's#/repo#{d}/repo#g' {d}/verif/run.py {d}/verif/checks/*.py {d}/verif/vlib/*.py")
        so = os.path.basename(glob.glob("/repo/pytorch3d/_C*.so")[0])
        while True:
            with lock:
                if not jobs:
                    return
                f, props, m, ln, line, old, new = jobs.pop()
            path = f"{d}/repo/{C}{f}"
            open(path, "w").write(m)
            objs, ok = [], True
            for k, srcf in enumerate(deps[f]):
                o = f"{d}/o/{k}.o"
                r = sh(f"c++ {cf.replace('-g ', '').replace('-I/repo/', f'-I{d}/repo/')} {d}/repo/{srcf} -o {o} {pf}")
                if r.returncode:
                    ok = False
                    break
                objs.append(o)
            res = "does not compile"
            if ok:
                skip = {TEMP + s[:-4] + ".o" for s in deps[f]}
                rest = [o for o in glob.glob(TEMP + "**/*.o", recursive=True) if o not in skip]
                sh(f"rm -f {d}/repo/pytorch3d/{so}")
                r = sh(f"c++ -shared -o {d}/repo/pytorch3d/{so} {' '.join(objs + rest)} -L/opt/venv/lib/python3.12/site-packages/torch/lib -lc10 -ltorch -ltorch_cpu -ltorch_python")
                assert r.returncode == 0, r.stderr[-2000:]
                res = None
                for p in props.split(","):
                    try:
                        r = sh(f"cd {d}/verif && VERIF_SEED=1 VERIF_TIER=quick timeout 200 /opt/venv/bin/python run.py {p} --no-build --jobs {a.jobs}", timeout=260)
                        if r.returncode:
                            res = f"{p} rc={r.returncode}"
                            break
                    except subprocess.TimeoutExpired:
                        res = f"{p} timeout"
                        break
            sh(f"cp /repo/{C}{f} {path}")
            with lock:
                stats[str(res)[:4]] = stats.get(str(res)[:4], 0) + 1
                log.write(json.dumps(dict(file=f, line=ln, code=line, old=old, new=new, killed=res)) + "\n")
                log.flush()

    ts = [threading.Thread(target=work, args=(i,)) for i in range(a.workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stats)


if __name__ == "__main__":
    main()
