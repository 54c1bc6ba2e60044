"""C03: volume batches and their local/world voxel coordinates."""
import torch
from hypothesis import strategies as st

from pytorch3d.structures import Volumes
from pytorch3d.structures.volumes import VolumeLocator
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, fl, ints, one_of, raises, rng

PROP = "C03"
RULE = ("Random batches of 1-3 volumes (2-6 voxels per side, equal or different sizes, given as list or tensor, "
        "every documented form of voxel size and translation, both align_corners), then 0-3 operations; oracle: "
        "the documented coordinate formulas evaluated per voxel in float64. Non-trivial: a non-unit voxel size or "
        "non-zero translation, or volumes of different sizes.")

SIZE = st.lists(ints(2, 6), min_size=3, max_size=3)
CASE = d(seed=SEED, sizes=st.lists(SIZE, min_size=1, max_size=3), how=one_of("list", "tensor"), align=boolean(),
         vox=one_of("float", "int", "tuple", "list", "t3", "tn3", "tn1", "t1"), tr=one_of("tuple", "list", "t3", "tn3", "t13"),
         feats=ints(0, 3), dens=ints(1, 2),
         ops=st.lists(d(op=one_of("clone", "getint", "getlist", "getslice", "getbool", "getlong", "update_list", "update_tensor",
                                  "update_both", "to_copy", "to"), a=ints(0, 60)), max_size=3))


def vox_arg(r, kind, N):
    v = r.choice([0.25, 0.5, 1.0, 1.5, 2.0, 0.1], (N, 3))
    if kind == "float":
        return float(v[0, 0]), torch.full((N, 3), float(v[0, 0]))
    if kind == "int":
        return 2, torch.full((N, 3), 2.0)
    if kind in ("tuple", "list"):
        return (tuple if kind == "tuple" else list)(float(x) for x in v[0]), torch.tensor(v[:1]).float().expand(N, 3)
    if kind == "t3":
        return torch.tensor(v[0]).float(), torch.tensor(v[:1]).float().expand(N, 3)
    if kind == "tn3":
        return torch.tensor(v).float(), torch.tensor(v).float()
    if kind == "tn1":
        return torch.tensor(v[:, :1]).float(), torch.tensor(v[:, :1]).float().expand(N, 3)
    return torch.tensor([v[0, 0]]).float(), torch.full((N, 3), float(v[0, 0]))


def tr_arg(r, kind, N):
    t = r.integers(-8, 9, (N, 3)) * 0.25
    if kind in ("tuple", "list"):
        return (tuple if kind == "tuple" else list)(float(x) for x in t[0]), torch.tensor(t[:1]).float().expand(N, 3)
    if kind == "t3":
        return torch.tensor(t[0]).float(), torch.tensor(t[:1]).float().expand(N, 3)
    if kind == "t13":
        return torch.tensor(t[:1]).float(), torch.tensor(t[:1]).float().expand(N, 3)
    return torch.tensor(t).float(), torch.tensor(t).float()


def ref_grid(size, vox, tr, align):
    """local and world coordinates of every voxel, shape (D,H,W,3) in xyz order"""
    ax = []
    for n in size:
        k = torch.arange(n, dtype=torch.float64)
        ax.append(-1 + 2 * k / (n - 1) if align else -1 + (2 * k + 1) / n)
    z, y, x = torch.meshgrid(*ax, indexing="ij")
    loc = torch.stack([x, y, z], -1)
    whd = torch.tensor(size[::-1], dtype=torch.float64)
    return loc, loc * (whd - 1) * 0.5 * vox.double() - tr.double()


def check(v, m, loose):
    N = len(m["sizes"])
    equal(len(v), N, "len")
    equal(v.get_align_corners(), m["align"], "align_corners")
    equal(v.get_grid_sizes(), torch.tensor(m["sizes"]), "get_grid_sizes")
    R = m["pad"]
    for name, lst in (("densities", m["dens"]), ("features", m["feats"])):
        got, gl = getattr(v, name)(), getattr(v, name + "_list")()
        if lst is None:
            assert got is None and gl is None, f"{name} of a volume without"
            continue
        want = torch.zeros(N, lst[0].shape[0], *R)
        for i, x in enumerate(lst):
            want[i][:, : x.shape[1], : x.shape[2], : x.shape[3]] = x
        equal(got, want, name)
        equal(len(gl), N, f"{name}_list length")
        for i in range(N):
            equal(gl[i], lst[i], f"{name}_list")
    loc, wor = v.get_coord_grid(world_coordinates=False), v.get_coord_grid(world_coordinates=True)
    equal(tuple(loc.shape), (N, *R, 3), "local grid shape")
    equal(tuple(wor.shape), (N, *R, 3), "world grid shape")
    g = torch.Generator().manual_seed(0)
    pts = torch.randn(N, 5, 2, 3, generator=g)
    if N % 2:  # any layout in memory
        pts = pts.transpose(1, 2).contiguous().transpose(1, 2)
    for i, s in enumerate(m["sizes"]):
        l, w = ref_grid(s, m["vox"][i], m["tr"][i], m["align"])
        sl = tuple(slice(0, k) for k in s)
        close(loc[i][sl], l, 1e-5, 1e-5, "local coordinates of the voxels")
        close(wor[i][sl], w, 1e-4, 1e-5, "world coordinates of the voxels")
    w2l, l2w = v.world_to_local_coords(pts), v.local_to_world_coords(pts)
    whd = torch.tensor([s[::-1] for s in m["sizes"]]).double()[:, None, None]
    vox, tr = m["vox"].double()[:, None, None], m["tr"].double()[:, None, None]
    close(l2w, pts.double() * (whd - 1) * 0.5 * vox - tr, 1e-4, 1e-5, "local_to_world_coords")
    close(w2l, (pts.double() + tr) / (0.5 * vox) / (whd - 1), 1e-4, 1e-4, "world_to_local_coords")
    close(v.local_to_world_coords(w2l), pts, 1e-4, 1e-4, "world -> local -> world")
    close(v.get_local_to_world_coords_transform().transform_points(pts[:, :, 0]), l2w[:, :, 0], 1e-5, 1e-5, "transform")
    close(v.get_world_to_local_coords_transform().transform_points(pts[:, :, 0]), w2l[:, :, 0], 1e-5, 1e-5, "transform")
    if all(tuple(s) == tuple(R) for s in m["sizes"]):
        smp = torch.nn.functional.grid_sample(v.densities(), loc, align_corners=m["align"], padding_mode="border")
        close(smp, v.densities(), 1e-4, 1e-4, "sampling a volume at its local coordinates")


@sub(CASE, quick=2500, thorough=60000)
def history(case, cx):
    r = rng(case["seed"])
    sizes = [tuple(s) for s in case["sizes"]]
    if case["how"] == "tensor":
        sizes = [sizes[0]] * len(sizes)
    N = len(sizes)
    pad = tuple(max(s[k] for s in sizes) for k in range(3))
    vox, voxm = vox_arg(r, case["vox"], N)
    tr, trm = tr_arg(r, case["tr"], N)
    mk = lambda C: [T(r, (C, *s)) for s in sizes]
    dens, feats = mk(case["dens"]), mk(case["feats"]) if case["feats"] else None
    form = (lambda x: torch.stack(x)) if case["how"] == "tensor" else (lambda x: [y.clone() for y in x])
    v = Volumes(densities=form(dens), features=None if feats is None else form(feats), voxel_size=vox,
                volume_translation=tr, align_corners=case["align"])
    m = dict(sizes=sizes, pad=pad, vox=voxm, tr=trm, align=case["align"], dens=dens, feats=feats)
    check(v, m, False)
    cx.label(case["how"], f"align={case['align']}", "different sizes" if len(set(sizes)) > 1 else "same size")
    for o in case["ops"]:
        op, a = o["op"], o["a"]
        cx.label(op)
        N = len(m["sizes"])
        src, msrc = v, dict(m)
        if op == "clone":
            v = v.clone()
        elif op == "to":
            assert v.to("cpu") is v
        elif op == "to_copy":
            v = v.to("cpu", copy=True)
            assert v is not src
        elif op.startswith("get"):
            idx = [int(x) for x in r.integers(0, N, 1 + a % 3)]
            if op == "getint":
                idx = [a % N]
                v = v[idx[0]]
            elif op == "getlist":
                v = v[idx]
            elif op == "getlong":
                v = v[torch.tensor(idx)]
            elif op == "getslice":
                lo = a % N
                v, idx = v[lo:], list(range(lo, N))
            else:
                mask = [bool(x) for x in r.integers(0, 2, N)]
                mask[a % N] = True
                v, idx = v[torch.tensor(mask)], [i for i in range(N) if mask[i]]
            ti = torch.tensor(idx)
            m = dict(m, sizes=[m["sizes"][i] for i in idx], vox=m["vox"][ti], tr=m["tr"][ti],
                     dens=[m["dens"][i] for i in idx], feats=m["feats"] and [m["feats"][i] for i in idx])
        else:
            full = all(tuple(max(s[k] for s in m["sizes"]) for k in range(3))[j] == m["pad"][j] for j in range(3))
            if op == "update_list" and not full:
                continue  # the list form then defines a smaller padded size
            new = [T(r, (1 + a % 2, *s)) for s in m["sizes"]]
            nf = [T(r, (1 + a % 3, *s)) for s in m["sizes"]] if op == "update_both" else None

            def padded(lst):
                out = torch.zeros(N, lst[0].shape[0], *m["pad"])
                for i, x in enumerate(lst):
                    out[i][:, : x.shape[1], : x.shape[2], : x.shape[3]] = x
                return out
            if op == "update_list":
                v = v.update_padded([x.clone() for x in new])
            else:
                v = v.update_padded(padded(new), new_features=None if nf is None else padded(nf))
            m = dict(m, dens=new, feats=nf)
        check(v, m, False)
        check(src, msrc, False)
    cx.trivial(len(set(sizes)) == 1 and bool((m["vox"] == 1).all()) and bool((m["tr"] == 0).all()))


@sub(d(seed=SEED, sizes=st.lists(SIZE, min_size=1, max_size=3), form=one_of("tuple", "lists", "tensor"), align=boolean(),
       vox=one_of("float", "tuple", "tn3", "tn1"), tr=one_of("tuple", "tn3")), quick=500, thorough=10000)
def locator(case, cx):
    r = rng(case["seed"])
    sizes = [tuple(s) for s in case["sizes"]]
    if case["form"] == "tuple":
        sizes = [sizes[0]] * len(sizes)
    N = len(sizes)
    arg = {"tuple": sizes[0], "lists": [list(s) for s in sizes], "tensor": torch.tensor(sizes)}[case["form"]]
    vox, voxm = vox_arg(r, case["vox"], N)
    tr, trm = tr_arg(r, case["tr"], N)
    L = VolumeLocator(batch_size=N, grid_sizes=arg, device=torch.device("cpu"), voxel_size=vox, volume_translation=tr,
                      align_corners=case["align"])
    equal(L.get_grid_sizes(), torch.tensor(sizes), "grid sizes")
    for o in (L, L.clone(), L.to("cpu", copy=True)):
        equal(len(o), N, "len")
        loc, wor = o.get_coord_grid(False), o.get_coord_grid(True)
        for i, s in enumerate(sizes):
            l, w = ref_grid(s, voxm[i], trm[i], case["align"])
            sl = tuple(slice(0, k) for k in s)
            close(loc[i][sl], l, 1e-5, 1e-5, "local")
            close(wor[i][sl], w, 1e-4, 1e-5, "world")


@sub(d(seed=SEED, sizes=st.lists(SIZE, min_size=2, max_size=3), bad=one_of("feat_size", "chan", "ndim", "vox", "tr", "batch", "upd", "index")),
     quick=300, thorough=4000)
def rejected(case, cx):
    r = rng(case["seed"])
    sizes = case["sizes"]
    N = len(sizes)
    dens, feats, kw = [T(r, (1, *s)) for s in sizes], [T(r, (2, *s)) for s in sizes], {}
    i = case["seed"] % N
    bad = case["bad"]
    s = list(sizes[i])
    if bad == "feat_size":
        s[case["seed"] % 3] += 1
        feats[i] = T(r, (2, *s))
    elif bad == "chan":
        feats[i] = T(r, (3, *s))
    elif bad == "ndim":
        dens = T(r, (2, 3, 4, 5))
        feats = None
    elif bad == "vox":
        kw["voxel_size"] = one_of_bad(r, N)
    elif bad == "tr":
        kw["volume_translation"] = [1.0, 2.0]
    elif bad == "batch":
        feats = feats[:-1]
    elif bad == "index":
        v = Volumes(dens)
        return raises(lambda: v[torch.tensor([[0]])], IndexError, what="2-dim index")
    elif bad == "upd":
        v = Volumes(dens, feats)
        big = tuple(max(x[k] for x in sizes) + 1 for k in range(3))
        return raises(lambda: v.update_padded(T(r, (N, 1, *big))), ValueError, what="update_padded of another size")
    raises(lambda: Volumes(dens, feats, **kw), ValueError, what=bad)


def one_of_bad(r, N):
    return [(1.0, 2.0), torch.ones(N + 4, 3), "x"][int(r.integers(0, 3))]
