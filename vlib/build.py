"""Bring pytorch3d._C up to date with /repo's working tree.

The extension is built where /opt/vp/build.sh builds it (/repo/build and
/repo/pytorch3d/_C*.so, both ignored by git).  When ninja says that every object
is newer than the sources it depends on, and the .so is newer than every object
and was linked from them, nothing is done.
"""
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

REPO = "/repo"
PY = "/opt/venv/bin/python"
STAMP = os.path.join(REPO, "build", "verif_stamp")


def build_env():
    env = dict(os.environ)
    env.update(
        HOME=env.get("HOME", "/root"),
        LANG="C.UTF-8",
        PYTHONDONTWRITEBYTECODE="1",
        PATH="/opt/venv/bin:/usr/lib/ccache:/usr/local/sbin:/usr/local/bin:"
        "/usr/sbin:/usr/bin:/sbin:/bin",
        CCACHE_DIR="/opt/ccache",
        CCACHE_MAXSIZE="5G",
        PYTORCH3D_FORCE_NO_CUDA="1",
        TORCH_DONT_CHECK_COMPILER_ABI="1",
        MAX_JOBS=str(os.cpu_count() or 8),
    )
    for k in ("FORCE_CUDA", "PYTORCH3D_NO_EXTENSION", "PYTORCH3D_NO_NINJA", "PYTHONPATH"):
        env.pop(k, None)
    return env


def source_digest():
    h = hashlib.sha256()
    files = glob.glob(os.path.join(REPO, "pytorch3d", "csrc", "**", "*"), recursive=True)
    for f in sorted(files) + [os.path.join(REPO, "setup.py")]:
        if os.path.isfile(f) and f.endswith((".cpp", ".h", ".cuh", ".hpp", ".c", ".py", ".inl")):
            h.update(f.encode())
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def so_files():
    return glob.glob(os.path.join(REPO, "pytorch3d", "_C*.so"))


def so_id(so):
    st = os.stat(so)
    return f"{st.st_size}:{st.st_mtime_ns}"


def _stamp_ok(digest):
    sos = so_files()
    if len(sos) != 1:
        return False
    try:
        with open(STAMP) as f:
            return f.read().split() == [digest, so_id(sos[0])]
    except OSError:
        return False


def _ninja_clean():
    """True if ninja has nothing to do and the .so is newer than all objects and
    than every C++ source."""
    sos = so_files()
    if len(sos) != 1:
        return False
    dirs = glob.glob(os.path.join(REPO, "build", "temp.*"))
    if len(dirs) != 1:
        return False
    try:
        r = subprocess.run(
            ["ninja", "-n", "-C", dirs[0]], env=build_env(), stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, timeout=120,
        )
    except (OSError, subprocess.TimeoutExpired):
        return False
    if r.returncode != 0 or "no work to do" not in r.stdout:
        return False
    so_m = os.stat(sos[0]).st_mtime_ns
    objs = {
        os.path.relpath(o, dirs[0])[:-2]
        for o in glob.glob(os.path.join(dirs[0], "**", "*.o"), recursive=True)
    }
    srcs = glob.glob(os.path.join(REPO, "pytorch3d", "csrc", "**", "*.cpp"), recursive=True)
    # every source has its object, and no object is left from a removed source
    if objs != {os.path.relpath(s, "/")[:-4] for s in srcs}:
        return False
    for o in glob.glob(os.path.join(dirs[0], "**", "*.o"), recursive=True):
        if os.stat(o).st_mtime_ns > so_m:
            return False
    for f in glob.glob(os.path.join(REPO, "pytorch3d", "csrc", "**", "*"), recursive=True):
        if f.endswith((".cpp", ".h")) and os.stat(f).st_mtime_ns > so_m:
            return False
    if os.stat(os.path.join(REPO, "setup.py")).st_mtime_ns > so_m:
        return False
    return True


def ensure_built():
    """Returns a short description of what was done; raises on a failed build."""
    os.makedirs(os.path.join(REPO, "build"), exist_ok=True)
    with open(os.path.join(REPO, "build", "verif_lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        digest = source_digest()
        if _stamp_ok(digest):
            return "up to date (stamp)"
        if _ninja_clean():
            how = "up to date (ninja)"
        else:
            for so in so_files():
                os.unlink(so)
            r = subprocess.run(
                [PY, "setup.py", "-q", "build_ext", "--inplace", "--force"],
                cwd=REPO, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                text=True,
            )
            if r.returncode != 0 or len(so_files()) != 1:
                sys.stderr.write(r.stdout[-4000:])
                raise RuntimeError("building pytorch3d._C failed")
            how = "rebuilt"
        with open(STAMP, "w") as f:
            f.write(f"{digest} {so_id(so_files()[0])}")
        return how
