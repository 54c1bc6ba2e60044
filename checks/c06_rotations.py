"""C06: conversions between rotation representations describe the same rotation."""
import math

import numpy as np
import torch
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

from pytorch3d import transforms as X
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, fl, ints, one_of, raises, rng

PROP = "C06"
RULE = ("Batches of 1-4 rotations, each from an axis class (random, coordinate axis, in a coordinate plane) and an "
        "angle class (0, tiny, random, right angles, pi, next to pi, above pi), in every batch shape from () to (2,2) "
        "and both float types; oracle: scipy's rotations in float64. Non-trivial: some angle is not 0.")
EULER = [a + b + c for a in "XYZ" for b in "XYZ" for c in "XYZ" if a != b and b != c]
ANGLES = ["zero", "tiny", "small", "any", "any", "quarter", "pi", "near_pi", "near_pi2"]
AXES = ["any", "any", "coord", "plane"]
ROT = d(angle=one_of(*ANGLES), axis=one_of(*AXES), s=ints(0, 10**6))
SHAPES = {1: [(), (1,), (1, 1)], 2: [(2,), (1, 2)], 3: [(3,)], 4: [(4,), (2, 2)]}


def rotvec(c):
    r = rng(c["s"])
    ax = {"any": lambda: r.standard_normal(3), "coord": lambda: np.eye(3)[r.integers(0, 3)] * r.choice([-1, 1]),
          "plane": lambda: r.standard_normal(3) * (np.arange(3) != r.integers(0, 3))}[c["axis"]]()
    ax = ax / max(np.linalg.norm(ax), 1e-9)
    a = {"zero": 0.0, "tiny": 10.0 ** r.uniform(-9, -4), "small": 10.0 ** r.uniform(-4, -1), "any": r.uniform(0, math.pi),
         "quarter": math.pi / 2, "pi": math.pi, "near_pi": math.pi - 10.0 ** r.uniform(-7, -3),
         "near_pi2": math.pi - 10.0 ** r.uniform(-3, -1)}[c["angle"]]
    return ax * a


def dist(A, B):
    return float(np.abs(A - B).max()) if A.size else 0.0


def as_mats(x, shape):
    return x.detach().double().numpy().reshape(-1, *shape)


@sub(d(rots=st.lists(ROT, min_size=1, max_size=4), shape=ints(0, 2), dt=one_of("f32", "f64"), k=SEED), quick=3000, thorough=80000)
def same_rotation(case, cx):
    r = rng(case["k"])
    v = np.stack([rotvec(c) for c in case["rots"]])
    n = len(v)
    shp = SHAPES[n][case["shape"] % len(SHAPES[n])]
    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    eps = 1e-5 if dt == torch.float32 else 1e-9
    cx.trivial(all(c["angle"] == "zero" for c in case["rots"]))
    for c in case["rots"]:
        cx.label(c["angle"])
    ref = Rotation.from_rotvec(v)
    R = ref.as_matrix()
    q = np.roll(ref.as_quat(), 1, axis=1)
    mk = lambda a, s: torch.from_numpy(np.ascontiguousarray(a)).to(dt).reshape(*shp, *s)
    aa, M, Q = mk(v, (3,)), mk(R, (3, 3)), mk(q, (4,))

    def check(out, s, what, tol=eps):
        equal(tuple(out.shape), (*shp, *s), f"{what} shape")
        assert out.dtype == dt, f"{what}: dtype {out.dtype}"
        assert bool(torch.isfinite(out).all()), f"{what}: not finite {out}"
        o = as_mats(out, s)
        if s == (3, 3):
            err = dist(o, R)
        elif s == (4,):
            assert np.abs(np.linalg.norm(o, axis=1) - 1).max() < 10 * tol, f"{what}: not of unit norm"
            err = dist(Rotation.from_quat(np.roll(o, -1, 1)).as_matrix(), R)
        else:
            err = dist(Rotation.from_rotvec(o).as_matrix(), R)
        assert err <= tol, f"{what}: differs by {err} from the rotation {v.tolist()}"
        return o

    check(X.axis_angle_to_matrix(aa), (3, 3), "axis_angle_to_matrix")
    check(X.axis_angle_to_matrix(aa, fast=True), (3, 3), "axis_angle_to_matrix fast", 10 * eps + (3e-4 if dt == torch.float32 else 3e-8))
    o = check(X.axis_angle_to_quaternion(aa), (4,), "axis_angle_to_quaternion")
    check(X.quaternion_to_matrix(Q), (3, 3), "quaternion_to_matrix")
    scale = float(10.0 ** r.uniform(-3, 3))
    check(X.quaternion_to_matrix(Q * scale), (3, 3), "quaternion_to_matrix of a scaled quaternion")
    check(X.quaternion_to_matrix(-Q), (3, 3), "quaternion_to_matrix of -q")
    o = check(X.quaternion_to_axis_angle(Q), (3,), "quaternion_to_axis_angle")
    lo = np.linalg.norm(v, axis=1).min()
    if lo > 1e-3:  # -q of a tiny rotation is an angle next to 2 pi, which rounding decides
        check(X.quaternion_to_axis_angle(-Q), (3,), "quaternion_to_axis_angle of -q", 5 * eps + eps / lo)
    o = check(X.matrix_to_quaternion(M), (4,), "matrix_to_quaternion", 20 * eps)
    assert (o[:, 0] >= 0).all(), "matrix_to_quaternion: negative real part"
    o = check(X.matrix_to_axis_angle(M), (3,), "matrix_to_axis_angle", 20 * eps)
    assert (np.linalg.norm(o, axis=1) <= math.pi + 1e-4).all(), "matrix_to_axis_angle: angle above pi"
    ang = np.linalg.norm(v, axis=1)
    u = 1e-6 if dt == torch.float32 else 1e-14
    fast_tol = 20 * eps + float(np.where(math.pi - ang > 2e-5, np.minimum(5 * u / np.maximum(np.sin(ang), 1e-12), 1e-1), 1e-4)[ang > 1].max(initial=0))
    check(X.matrix_to_axis_angle(M, fast=True), (3,), "matrix_to_axis_angle fast", fast_tol + 2e-4)
    d6 = X.matrix_to_rotation_6d(M)
    equal(d6, M[..., :2, :].reshape(*shp, 6), "matrix_to_rotation_6d")
    s6 = torch.from_numpy(10.0 ** r.uniform(-3, 3, 2)).to(dt)
    d6b = torch.cat([d6[..., :3] * s6[0], (d6[..., 3:] + d6[..., :3] * float(r.standard_normal())) * s6[1]], -1)
    check(X.rotation_6d_to_matrix(d6), (3, 3), "rotation_6d_to_matrix", 10 * eps)
    check(X.rotation_6d_to_matrix(d6b), (3, 3), "rotation_6d_to_matrix of unnormalised input", 100 * eps)
    for conv in (EULER[case["k"] % 12], EULER[case["k"] // 12 % 12]):
        e = X.matrix_to_euler_angles(M, conv)
        equal(tuple(e.shape), (*shp, 3), "euler shape")
        i0, i2 = "XYZ".index(conv[0]), "XYZ".index(conv[2])
        x = R[:, i0, i2]
        # next to gimbal lock the conversion is not defined
        if (1 - np.abs(x) > 1e-3).all():
            back = as_mats(X.euler_angles_to_matrix(e, conv), (3, 3))
            assert dist(back, R) < (1e-3 if dt == torch.float32 else 1e-7), f"euler {conv}: {dist(back, R)}"
            eo = as_mats(e, (3,))
            mid = eo[:, 1]
            ok = (mid >= 0) & (mid <= math.pi) if i0 == i2 else np.abs(mid) <= math.pi / 2
            assert ok.all() and (np.abs(eo) <= math.pi + 1e-5).all(), f"euler {conv}: range {eo}"
        # there the angle in the middle still is, also for entries which rounding left above 1
        e = as_mats(X.matrix_to_euler_angles(M * (1 + (case["k"] % 3) * torch.finfo(dt).eps), conv), (3,))
        x = np.clip(x, -1, 1)
        want = np.arccos(x) if i0 == i2 else np.arcsin(x) * (-1 if i0 - i2 in (-1, 2) else 1)
        tol = 2e-3 if dt == torch.float32 else 1e-7
        assert np.isfinite(e).all() and np.abs(e[:, 1] - want).max() < tol, f"euler {conv}: middle angle {e[:, 1]}, not {want}"


@sub(d(seed=SEED, conv=one_of(*EULER), n=ints(1, 4), sp=boolean(), dt=one_of("f32", "f64")), quick=800, thorough=20000)
def euler(case, cx):
    r = rng(case["seed"])
    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    a = r.uniform(-4, 4, (case["n"], 3))
    if case["sp"]:
        a = r.integers(-4, 5, (case["n"], 3)) * math.pi / 4
    t = torch.from_numpy(a).to(dt)
    out = X.euler_angles_to_matrix(t, case["conv"])
    # angles about moving axes: R(first) R(second) R(third) on column vectors
    want = Rotation.from_euler(case["conv"], a).as_matrix()
    close(out, torch.from_numpy(want).reshape(-1, 3, 3), 2e-6 if dt == torch.float32 else 1e-12, 0, "euler_angles_to_matrix")
    for bad in ("XX", case["conv"][0] + case["conv"][:2], "XYW", "XYZX"):
        raises(lambda: X.euler_angles_to_matrix(t, bad), ValueError, what=bad)
        raises(lambda: X.matrix_to_euler_angles(out, bad), ValueError, what=bad)


@sub(d(seed=SEED, a=st.lists(ROT, min_size=2, max_size=2), shape=one_of("same", "bcast", "single"), unit=boolean(), dt=one_of("f32", "f64")),
     quick=1200, thorough=30000)
def quaternions(case, cx):
    r = rng(case["seed"])
    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    tol = 1e-5 if dt == torch.float32 else 1e-12
    va, vb = rotvec(case["a"][0]), rotvec(case["a"][1])
    ra, rb = Rotation.from_rotvec(va), Rotation.from_rotvec(vb)
    sa, sb = r.choice([-1, 1], 2)
    A = torch.from_numpy(np.roll(ra.as_quat(), 1) * sa).to(dt)
    B = torch.from_numpy(np.roll(rb.as_quat(), 1) * sb).to(dt)
    p = torch.from_numpy(r.standard_normal((3, 3))).to(dt)
    if case["shape"] == "bcast":
        Ax, Bx = A.expand(2, 1, 4), B.expand(3, 4)
        lead = (2, 3)
    elif case["shape"] == "same":
        Ax, Bx = A.expand(3, 4), B.expand(3, 4)
        lead = (3,)
    else:
        Ax, Bx, lead = A, B, ()
    ab = X.quaternion_multiply(Ax, Bx)
    equal(tuple(ab.shape), (*lead, 4), "product shape")
    assert bool((ab[..., 0] >= 0).all()), "quaternion_multiply: negative real part"
    want = (ra * rb).as_matrix()
    close(X.quaternion_to_matrix(ab), torch.from_numpy(want).expand(*lead, 3, 3), tol, 0, "quaternion_multiply")
    raw = X.quaternion_raw_multiply(Ax, Bx)
    close(X.standardize_quaternion(raw), ab, tol, 0, "raw multiply")
    # Hamilton product of arbitrary quaternions: norms multiply, i*j=k
    U, V = torch.from_numpy(r.standard_normal((2, 4))).to(dt).unbind(0)
    W = X.quaternion_raw_multiply(U, V).double()
    u, v = U.double().numpy(), V.double().numpy()
    w = np.concatenate([[u[0] * v[0] - u[1:] @ v[1:]], u[0] * v[1:] + v[0] * u[1:] + np.cross(u[1:], v[1:])])
    close(W, torch.from_numpy(w), tol * 10, 0, "quaternion_raw_multiply")
    inv = X.quaternion_invert(A)
    close(X.quaternion_to_matrix(inv), torch.from_numpy(ra.inv().as_matrix()), tol, 0, "quaternion_invert")
    Ap = A.expand(2, 1, 4) if case["shape"] == "bcast" else A
    out = X.quaternion_apply(Ap, p)
    close(out, torch.from_numpy(ra.apply(p.double().numpy())).expand(out.shape), 10 * tol, 0, "quaternion_apply")
    s = X.standardize_quaternion(torch.stack([A, -A]))
    assert bool((s[:, 0] >= 0).all())
    close(X.quaternion_to_matrix(s), torch.from_numpy(ra.as_matrix()).expand(2, 3, 3), tol, 0, "standardize_quaternion")
    raises(lambda: X.quaternion_apply(A, p[:, :2]), ValueError, what="2D points")
    raises(lambda: X.matrix_to_quaternion(p[:2]), ValueError, what="2x3 matrix")


@sub(d(seed=SEED, n=ints(1, 6), dt=one_of("f32", "f64")), quick=200, thorough=4000)
def random_rotations(case, cx):
    dt = torch.float32 if case["dt"] == "f32" else torch.float64
    torch.manual_seed(case["seed"])
    q = X.random_quaternions(case["n"], dtype=dt)
    equal(tuple(q.shape), (case["n"], 4), "shape")
    close(q.norm(dim=1), torch.ones(case["n"]), 1e-5, 0, "unit norm")
    assert bool((q[:, 0] >= 0).all()) and q.dtype == dt
    for R in (X.random_rotations(case["n"], dtype=dt), X.random_rotation(dtype=dt)[None]):
        assert R.dtype == dt
        close(R @ R.transpose(1, 2), torch.eye(3).expand(len(R), 3, 3), 1e-5, 0, "orthogonal")
        close(torch.linalg.det(R), torch.ones(len(R)), 1e-5, 0, "determinant 1")


@sub(d(rots=st.lists(ROT, min_size=1, max_size=3)), quick=300, thorough=8000)
def gradients(case, cx):
    """Gradients through the conversions are finite, also at the identity and at pi."""
    v = torch.from_numpy(np.stack([rotvec(c) for c in case["rots"]])).float()
    for c in case["rots"]:
        cx.label(c["angle"])
    g = torch.randn(len(v), 3, 3)
    a = v.clone().requires_grad_(True)
    R = X.axis_angle_to_matrix(a)
    (R * g).sum().backward()
    assert bool(torch.isfinite(a.grad).all()), f"axis_angle_to_matrix: gradient {a.grad}"
    q = X.axis_angle_to_quaternion(v).requires_grad_(True)
    (X.quaternion_to_matrix(q) * g).sum().backward()
    assert bool(torch.isfinite(q.grad).all()), "quaternion_to_matrix gradient"
    M = R.detach().clone().requires_grad_(True)
    X.matrix_to_quaternion(M).sum().backward()
    assert bool(torch.isfinite(M.grad).all()), f"matrix_to_quaternion gradient {M.grad}"


@sub(d(rots=st.lists(ROT.filter(lambda c: c["angle"] in ("any", "small", "quarter")), min_size=2, max_size=2), k=SEED), quick=120, thorough=4000)
def derivatives(case, cx):
    """Gradients of every conversion equal finite differences."""
    r = rng(case["k"])
    v, w = (torch.from_numpy(rotvec(c)[None]) for c in case["rots"])
    p = torch.from_numpy(r.standard_normal((1, 3)))
    q, u = X.axis_angle_to_quaternion(v), X.axis_angle_to_quaternion(w)
    conv = EULER[case["k"] % 12]
    M = X.axis_angle_to_matrix
    x = M(v)[0, "XYZ".index(conv[0]), "XYZ".index(conv[2])]
    fs = [(M, v), (lambda a: M(a, fast=True), v), (X.axis_angle_to_quaternion, v), (X.quaternion_to_matrix, q * 1.7),
          (lambda a: X.matrix_to_quaternion(M(a)), v), (lambda a: X.matrix_to_axis_angle(M(a)), v), (lambda a: X.matrix_to_axis_angle(M(a), fast=True), v),
          (lambda a: X.matrix_to_rotation_6d(M(a)), v), (X.rotation_6d_to_matrix, torch.from_numpy(r.standard_normal((1, 6)))),
          (lambda e: X.euler_angles_to_matrix(e, conv), torch.from_numpy(r.uniform(-3, 3, (1, 3)))),
          (lambda a, b: X.quaternion_multiply(a, b), q, u), (X.quaternion_apply, q, p), (X.quaternion_invert, q),
          (lambda a: X.quaternion_to_axis_angle(a / a.norm(dim=-1, keepdim=True)), q)]
    if 1 - abs(float(x)) > 1e-2:
        fs.append((lambda a: X.matrix_to_euler_angles(M(a), conv), v))
    for i, (f, *xs) in enumerate(fs):
        xs = [a.detach().clone().requires_grad_(True) for a in xs]
        out = f(*xs)
        g = torch.from_numpy(r.standard_normal(tuple(out.shape)))
        grads = torch.autograd.grad((out * g).sum(), xs)
        for a, gr in zip(xs, grads):
            dirn = torch.from_numpy(r.standard_normal(tuple(a.shape)))
            h = 1e-6
            with torch.no_grad():
                f1, f2 = (f(*[b + s * dirn if b is a else b for b in xs]) for s in (h, -h))
            if float((f1 - f2).abs().max()) > 1e-3:
                cx.label("jump")  # the sign of a quaternion, angles wrapping around
                continue
            fd = float(((f1 - f2) * g).sum() / (2 * h))
            got = float((gr * dirn).sum())
            assert abs(fd - got) < 1e-3 * (1 + abs(fd)), f"derivative of conversion {i} ({conv}): {got}, finite differences {fd}"
