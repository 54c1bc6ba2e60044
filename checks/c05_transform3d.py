"""C05: Transform3d is the algebra of the 4x4 matrices it stands for."""
import math

import numpy as np
import torch
from hypothesis import strategies as st

from pytorch3d.transforms import Rotate, RotateAxisAngle, Scale, Transform3d, Translate
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng, rot

PROP = "C05"
RULE = ("Random histories of up to 6 operations (compose, the translate/scale/rotate shorthands, inverse in both "
        "forms, stack, every index form, clone, dtype cast) over transforms of batch size 1 or N, in float32 and "
        "float64; the model is the stack of 4x4 float64 matrices built from the definitions. Non-trivial: at least "
        "two operations that change the matrix.")
DT = {"f32": torch.float32, "f64": torch.float64}
LEAF = ["translate3", "translate_n3", "translate_mixed", "scale1", "scale_n", "scale_n3", "scale3", "scale_mixed",
        "rotate", "rotate33", "axis_angle", "axis_angle_rad", "matrix", "matrix44", "identity"]
OPS = ["compose", "compose2", "fluent", "inverse", "inverse_c", "stack", "getint", "getneg", "getlist", "getslice",
       "getbool", "getlong", "clone", "cast", "to_copy"]


def axis_mat(axis, a):
    c, s = math.cos(a), math.sin(a)
    # counter-clockwise rotation of column vectors
    return {"X": [[1, 0, 0], [0, c, -s], [0, s, c]], "Y": [[c, 0, s], [0, 1, 0], [-s, 0, c]],
            "Z": [[c, -s, 0], [s, c, 0], [0, 0, 1]]}[axis]


def row(R=None, t=None):
    M = torch.eye(4, dtype=torch.float64)
    if R is not None:
        M[:3, :3] = torch.as_tensor(np.asarray(R), dtype=torch.float64)
    if t is not None:
        M[3, :3] = torch.as_tensor(np.asarray(t), dtype=torch.float64)
    return M


def leaf(kind, r, N, dt, base=None):
    """A transform (or base.shorthand(...)) and its matrices (n,4,4)."""
    n = N
    t = r.integers(-8, 9, (N, 3)) * 0.25
    s = r.choice([0.5, 0.75, 1.25, 2.0, -1.0, 1.5], (N, 3))
    kw = {} if base is not None else {"dtype": dt}
    if kind.startswith("translate"):
        mk = Translate if base is None else base.translate
        if kind == "translate3":
            o, t = mk(float(t[0, 0]), float(t[0, 1]), torch.tensor(t[0, 2]), **kw), t[:1]
        elif kind == "translate_n3":
            o = mk(torch.tensor(t, dtype=dt), **kw)
        else:
            t[:, 1] = t[0, 1]
            t[:, 2] = t[0, 2]
            o = mk(torch.tensor(t[:, 0], dtype=dt), float(t[0, 1]), torch.tensor([t[0, 2]]), **kw)
        return o, torch.stack([row(t=x) for x in t])
    if kind.startswith("scale"):
        mk = Scale if base is None else base.scale
        if kind == "scale1":
            s = np.repeat(s[:1, :1], 3, 1)
            o = mk(float(s[0, 0]), **kw)
        elif kind == "scale_n":
            s = np.repeat(s[:, :1], 3, 1)
            o = mk(torch.tensor(s[:, 0], dtype=dt), **kw)
        elif kind == "scale_n3":
            o = mk(torch.tensor(s, dtype=dt), **kw)
        elif kind == "scale3":
            s = s[:1]
            o = mk(float(s[0, 0]), torch.tensor(s[0, 1]), torch.tensor([s[0, 2]]), **kw)
        else:
            s[:, 0] = s[0, 0]
            o = mk(float(s[0, 0]), torch.tensor(s[:, 1], dtype=dt), torch.tensor(s[:, 2], dtype=dt), **kw)
        return o, torch.stack([row(R=np.diag(x)) for x in s])
    if kind.startswith("rotate"):
        R = rot(r, N)
        if kind == "rotate33":
            R = R[:1]
        mk = Rotate if base is None else base.rotate
        o = mk((R[0] if kind == "rotate33" else R).to(dt), **kw)
        return o, torch.stack([row(R=x) for x in R.to(dt).double()])
    if kind.startswith("axis_angle"):
        ax = "XYZ"[int(r.integers(0, 3))]
        deg = kind == "axis_angle"
        a = r.integers(-12, 13, N) * 15.0
        val = a if deg else np.deg2rad(a)
        single = bool(r.integers(0, 2))
        arg = float(val[0]) if single else torch.tensor(val, dtype=dt)
        mk = RotateAxisAngle if base is None else base.rotate_axis_angle
        use_ax = ax if r.integers(0, 2) else ax.lower()
        o = mk(arg, axis=use_ax, degrees=deg, **kw)
        a = a[:1] if single else a
        # points are row vectors: the stored matrix is the transpose
        return o, torch.stack([row(R=np.array(axis_mat(ax, math.radians(x))).T) for x in a])
    M = torch.stack([row(R=rot(r).numpy() @ np.diag(s[i]) + 0.1 * r.standard_normal((3, 3)), t=t[i]) for i in range(N)])
    if kind == "identity":
        return Transform3d(dtype=dt), torch.eye(4, dtype=torch.float64)[None]
    if kind == "matrix44":
        return Transform3d(matrix=M[0].to(dt)), M[:1].to(dt).double()
    return Transform3d(matrix=M.to(dt)), M.to(dt).double()


def bmm(a, b):
    if len(a) != len(b):
        a, b = (a.expand(len(b), 4, 4), b) if len(a) == 1 else (a, b.expand(len(a), 4, 4))
    return a @ b


def check(o, M, dt, r, what, low=False):
    equal(len(o), len(M), f"{what}: len")
    got = o.get_matrix()
    assert got.dtype == dt, f"{what}: dtype {got.dtype} instead of {dt}"
    tol = 1e-9 if dt == torch.float64 and not low else 2e-4
    scale = float(M.abs().max()) + 1
    close(got, M, tol * scale, 0, f"{what}: matrix")
    pts = torch.from_numpy(r.standard_normal((5, 3)))
    hom = torch.cat([pts, torch.ones(5, 1).double()], 1)[None] @ M
    want = hom[..., :3] / hom[..., 3:]
    out = o.transform_points(pts.to(dt))
    if len(M) == 1:
        equal(tuple(out.shape), (5, 3), f"{what}: shape of (P,3) points")
        want1 = want[0]
    else:
        want1 = want
    close(out, want1, 20 * tol * scale, 0, f"{what}: transform_points")
    bp = torch.from_numpy(r.standard_normal((len(M), 4, 3)))
    hom = torch.cat([bp, torch.ones(len(M), 4, 1).double()], 2) @ M
    close(o.transform_points(bp.to(dt)), hom[..., :3] / hom[..., 3:], 20 * tol * scale, 0, f"{what}: batched points")
    A = M[:, :3, :3]
    inv = torch.linalg.inv(A)
    cond = float(torch.linalg.cond(A).max())
    isc = float(inv.abs().max()) + 1
    if cond < 100:
        close(o.transform_normals(bp.to(dt)), bp @ inv.transpose(1, 2), 20 * tol * isc * cond, 0, f"{what}: transform_normals")
        n1 = o.transform_normals(pts.to(dt))
        equal(tuple(n1.shape), (5, 3) if len(M) == 1 else (len(M), 5, 3), f"{what}: normals shape")


CASE = d(seed=SEED, N=ints(1, 4), dt=one_of("f32", "f64"), first=one_of(*LEAF), n1=boolean(),
         ops=st.lists(d(op=one_of(*OPS), leaf=one_of(*LEAF), a=ints(0, 50), single=boolean()), max_size=6))


@sub(CASE, quick=4000, thorough=100000)
def history(case, cx):
    r = rng(case["seed"])
    dt = DT[case["dt"]]
    o, M = leaf(case["first"], r, 1 if case["n1"] else case["N"], dt)
    check(o, M, dt, r, case["first"])
    changed, low = 0, dt == torch.float32
    for s in case["ops"]:
        op, a = s["op"], s["a"]
        n = len(M)
        m = 1 if s["single"] else (n if n > 1 else case["N"])
        src, srcM = o, M
        cx.label(op)
        if op == "compose":
            t, K = leaf(s["leaf"], r, m, dt)
            o, M = o.compose(t), bmm(M, K)
            changed += 1
        elif op == "compose2":
            t, K = leaf(s["leaf"], r, m, dt)
            u, L = leaf(LEAF[a % len(LEAF)], r, m, dt)
            inner = t.compose(u)
            if a % 2:
                o, M = o.compose(t, u), bmm(bmm(M, K), L)
            else:
                o, M = o.compose(inner), bmm(M, bmm(K, L))
            changed += 1
        elif op == "fluent":
            kind = s["leaf"] if not s["leaf"].startswith(("matrix", "identity")) else "translate3"
            o, K = leaf(kind, r, m, dt, base=o)
            M = bmm(M, K)
            changed += 1
        elif op in ("inverse", "inverse_c"):
            if float(torch.linalg.cond(M).max()) > 1e3:
                continue
            o, M = o.inverse(invert_composed=op == "inverse_c"), torch.linalg.inv(M)
            changed += 1
        elif op == "stack":
            t, K = leaf(s["leaf"], r, 1 + a % 2, dt)
            o, M = o.stack(t), torch.cat([M, K])
            if len(M) > 8:
                return
        elif op == "clone":
            o = o.clone()
        elif op == "to_copy":
            assert o.to("cpu") is o
            o = o.to("cpu", copy=True)
        elif op == "cast":
            low = True
            dt = torch.float64 if dt == torch.float32 else torch.float32
            o = o.to("cpu", dtype=dt)
        else:
            if op in ("getint", "getneg"):
                i = a % n - (n if op == "getneg" else 0)
                o, M = o[i], M[i][None]
            elif op == "getslice":
                lo = a % n
                o, M = o[lo:], M[lo:]
            else:
                idx = [int(x) for x in r.integers(-n, n, 1 + a % 3)]
                if op == "getbool":
                    mask = torch.from_numpy(r.integers(0, 2, n).astype(bool))
                    mask[a % n] = True
                    o, M = o[mask], M[mask]
                else:
                    o = o[idx if op == "getlist" else torch.tensor(idx)]
                    M = M[torch.tensor(idx)]
        if float(M.abs().max()) > 1e3 or float(M[:, 3, 3].abs().min()) < 0.05:
            return
        check(o, M, dt, r, op, low)
        if op != "cast":
            check(src, srcM, dt, r, f"source of {op}", low)
    cx.trivial(changed < 2)


@sub(d(seed=SEED, N=ints(1, 3), a=one_of(*LEAF), b=one_of(*LEAF)), quick=600, thorough=15000)
def laws(case, cx):
    """Inverses cancel, composition is the order of application, homogeneous division."""
    r = rng(case["seed"])
    dt = torch.float64
    A, MA = leaf(case["a"], r, case["N"], dt)
    B, MB = leaf(case["b"], r, case["N"], dt)
    if float(torch.linalg.cond(bmm(MA, MB)).max()) > 1e4:
        return cx.trivial()
    pts = torch.from_numpy(r.standard_normal((case["N"], 4, 3)))
    C = A.compose(B)
    close(C.transform_points(pts), B.transform_points(A.transform_points(pts)), 1e-8, 1e-8, "compose")
    for inv in (C.inverse(), C.inverse(invert_composed=True)):
        close(inv.transform_points(C.transform_points(pts)), pts.expand(max(len(inv), case["N"]), -1, -1), 1e-7, 1e-7, "inverse after")
        close(C.compose(inv).get_matrix(), torch.eye(4).double().expand(len(C), 4, 4), 1e-8, 0, "C . C^-1")
        close(inv.inverse().get_matrix(), C.get_matrix(), 1e-7, 1e-7, "inverse of inverse")
    # projective matrix and eps
    P = torch.from_numpy(r.standard_normal((case["N"], 4, 4)))
    if case["seed"] % 3 == 0:
        P[:, :, 3] = 0
    T = Transform3d(matrix=P)
    eps = 0.25
    hom = torch.cat([pts, torch.ones(case["N"], 4, 1).double()], 2) @ P
    w = hom[..., 3:]
    w = torch.where(w >= 0, torch.ones_like(w), -torch.ones_like(w)) * w.abs().clamp(min=eps)
    close(T.transform_points(pts, eps=eps), hom[..., :3] / w, 1e-9, 1e-9, "transform_points with eps")


@sub(d(seed=SEED, bad=one_of("mat_shape", "mat_dim", "compose_type", "points_dim", "normals_dim", "batch", "axis", "tr_shape", "rot_shape", "sizes")),
     quick=150, thorough=1500)
def rejected(case, cx):
    r = rng(case["seed"])
    X = lambda *s: torch.from_numpy(r.standard_normal(s)).float()
    f = {"mat_shape": lambda: Transform3d(matrix=X(2, 3, 4)), "mat_dim": lambda: Transform3d(matrix=X(4)),
         "compose_type": lambda: Transform3d().compose(X(1, 4, 4)), "points_dim": lambda: Transform3d().transform_points(X(3)),
         "normals_dim": lambda: Transform3d().transform_normals(X(2, 2, 2, 3)),
         "batch": lambda: Translate(X(3, 3)).transform_points(X(2, 4, 3)), "axis": lambda: RotateAxisAngle(3.0, axis="W"),
         "tr_shape": lambda: Translate(X(3, 2)), "rot_shape": lambda: Rotate(X(3, 2)),
         "sizes": lambda: Translate(X(3), X(2), 1.0)}[case["bad"]]
    raises(f, ValueError, what=case["bad"])
