"""C43: voxel grids (full, CP and VM), their module, scaffolds, crops, and the decoders of implicit functions."""
import copy
import warnings

import numpy as np
import torch
from omegaconf import DictConfig, OmegaConf

from pytorch3d.implicitron.models.implicit_function.decoding_functions import (DecoderActivation, ElementwiseDecoder, MLPDecoder, MLPWithInputSkips,
                                                                               TransformerWithInputSkips)
from pytorch3d.implicitron.models.implicit_function.voxel_grid import CPFactorizedVoxelGrid, FullResolutionVoxelGrid, VMFactorizedVoxelGrid, VoxelGridModule
from pytorch3d.implicitron.models.implicit_function.voxel_grid_implicit_function import VoxelGridImplicitFunction
from pytorch3d.implicitron.models.renderer.base import ImplicitronRayBundle
from pytorch3d.implicitron.tools.config import expand_args_fields, get_default_args
from pytorch3d.renderer import PerspectiveCameras
from pytorch3d.structures.volumes import VolumeLocator
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, f64, ints, one_of, raises, rng, rot

PROP = "C43"
RULE = ("grids of 1 to 6 voxels a side (each side its own), up to 3 features, 2 grids, points inside and outside, all paddings and alignments. Oracle: the factors are composed into a dense grid and interpolated "
        "voxel by voxel in float64 by explicit weights. Non-trivial: more than one voxel on some axis (grids), hidden layers (decoders), occupied and empty space (scaffolds).")

for c in (VoxelGridModule, VoxelGridImplicitFunction, ElementwiseDecoder, MLPDecoder, MLPWithInputSkips, FullResolutionVoxelGrid, CPFactorizedVoxelGrid, VMFactorizedVoxelGrid):
    expand_args_fields(c)

CLASSES = dict(full=FullResolutionVoxelGrid, cp=CPFactorizedVoxelGrid, vm=VMFactorizedVoxelGrid)


# ---- reference ------------------------------------------------------------


def dense(v):
    """Values (any class) -> (n_grids, F, W, H, D) float64."""
    g = {k: None if t is None else f64(t) for k, t in vars(v).items()}
    if "voxel_grid" in g:
        return g["voxel_grid"]
    x, y, z = (g["vector_components_" + a] for a in "xyz")
    if "matrix_components_xy" in g:
        parts = [torch.einsum("gcij,gck->gcijk", g["matrix_components_xy"], z), torch.einsum("gcik,gcj->gcijk", g["matrix_components_xz"], y),
                 torch.einsum("gcjk,gci->gcijk", g["matrix_components_yz"], x)]
        t = torch.cat(parts, 1)
    else:
        t = torch.einsum("gci,gcj,gck->gcijk", x, y, z)
    b = g["basis_matrix"]
    return t.sum(1, keepdim=True) if b is None else torch.einsum("gcijk,gcf->gfijk", t, b)


def position(u, n, align):
    """Index coordinate of the local coordinate u."""
    return (u + 1) / 2 * (n - 1) if align else ((u + 1) * n - 1) / 2


def axis_weights(u, n, align, padding, mode):
    """(P, n) weights of the voxels, and a mask of points too close to a tie (nearest)."""
    p = position(np.asarray(u, dtype=np.float64), n, align)
    if padding == "reflection":
        lo, hi = (0.0, n - 1.0) if align else (-0.5, n - 0.5)
        if hi == lo:
            p = np.zeros_like(p)
        else:
            q = np.mod(p - lo, 2 * (hi - lo))
            p = lo + np.where(q > hi - lo, 2 * (hi - lo) - q, q)
    if padding in ("border", "reflection"):
        p = np.clip(p, 0, n - 1)
    w = np.zeros((len(p), n))
    if mode == "nearest":
        i = np.rint(p).astype(np.int64)
        tie = np.abs(p - np.floor(p) - 0.5) < 1e-4
        ok = (i >= 0) & (i < n)
        w[np.arange(len(p))[ok], i[ok]] = 1
        return w, tie
    i0 = np.floor(p).astype(np.int64)
    f = p - i0
    for i, a in ((i0, 1 - f), (i0 + 1, f)):
        ok = (i >= 0) & (i < n)
        w[np.arange(len(p))[ok], i[ok]] += a[ok]
    return w, np.zeros(len(p), dtype=bool)


def interp(vol, pts, align, padding, mode):
    """vol (F,W,H,D), pts (P,3) local -> (P,F), tie mask."""
    ws, tie = [], np.zeros(len(pts), dtype=bool)
    for a in range(3):
        w, t = axis_weights(pts[:, a], vol.shape[a + 1], align, padding, mode)
        ws.append(w)
        tie |= t
    return np.einsum("fijk,pi,pj,pk->pf", np.asarray(vol), *ws), tie


GRID = dict(seed=SEED, cls=one_of("full", "cp", "vm"), res=d(x=ints(1, 6), y=ints(1, 6), z=ints(1, 6)), F=ints(1, 3), C=ints(1, 3), dist=boolean(), basis=boolean(), align=boolean(),
            padding=one_of("zeros", "border", "reflection"), mode=one_of("bilinear", "bilinear", "nearest", "trilinear"))


def kwargs(c, r, changes=None):
    k = dict(align_corners=c["align"], padding=c["padding"], n_features=c["F"], resolution_changes=changes or {0: [c["res"][a] for a in "xyz"]})
    k["mode"] = "bilinear" if c["mode"] == "trilinear" and c["cls"] != "full" else c["mode"]
    if c["cls"] != "full":
        k["basis_matrix"] = c["basis"]
        if not c["basis"]:
            k["n_features"] = 1
        if c["cls"] == "vm" and c["dist"]:
            k["distribution_of_components"] = tuple(int(v) for v in r.integers(1, 4, 3))
        else:
            k["n_components"] = c["C"] * (3 if c["cls"] == "vm" else 1)
    return k


def make(c, r, changes=None):
    k = kwargs(c, r, changes)
    return CLASSES[c["cls"]](**k), k


def fill(grid, r, n, epoch=0, dtype=torch.float32):
    return grid.values_type(**{name: T(r, (n, *s), dtype=dtype) for name, s in grid.get_shapes(epoch).items()})


def points(r, n, shape, far=1.4):
    return torch.from_numpy(r.uniform(-far, far, (n, *shape, 3))).float()


def compare(got, vol, pts, k, what, atol=2e-4, mask=None):
    """got (n, ..., F) vs. the dense reference, grid by grid."""
    for g in range(len(vol)):
        p = f64(pts[g]).reshape(-1, 3).numpy()
        want, tie = interp(vol[g], p, k["align_corners"], k["padding"], k["mode"])
        ok = ~tie if mask is None else ~tie & mask
        a = f64(got[g]).reshape(-1, want.shape[-1]).numpy()
        assert a.shape == want.shape, f"{what}: shape {tuple(got.shape)}"
        close(a[ok], want[ok], atol=atol, rtol=1e-4, what=what)


# ---- evaluation -----------------------------------------------------------


@sub(d(n=ints(1, 2), shape=one_of((1,), (5,), (2, 3), (2, 1, 3)), world=boolean(), dbl=boolean(), **GRID), quick=400, thorough=30000)
def evaluate(case, cx):
    r = rng(case["seed"], 1)
    grid, k = make(case, r)
    n, res = case["n"], [case["res"][a] for a in "xyz"]
    cx.trivial(max(res) == 1 or 0 in case["shape"])
    cx.label(case["cls"], k["mode"], k["padding"])
    dt = torch.float64 if case["dbl"] else torch.float32
    v = fill(grid, r, n, dtype=dt)
    vol = dense(v)
    equal(list(vol.shape), [n, k["n_features"], *res], what="shapes of the components")
    equal(grid.get_output_dim(DictConfig(dict(n_features=k["n_features"]))), k["n_features"], what="get_output_dim")
    equal(grid.get_align_corners(), k["align_corners"], what="get_align_corners")
    p = points(r, n, case["shape"]).to(dt)
    if r.random() < 0.2:  # any layout in memory
        p = p.transpose(0, -1).contiguous().transpose(0, -1)
    if r.random() < 0.3:  # on the voxels
        p = torch.from_numpy(r.integers(0, 7, p.shape) / 3 - 1).to(dt)
    if case["world"]:
        ext, tr = r.uniform(0.5, 3, (n, 3)), r.normal(size=(n, 3))
        # VolumeLocator: world = local * size * (n - 1) / 2 - translation
        loc = VolumeLocator(batch_size=n, grid_sizes=(2, 2, 2), voxel_size=torch.from_numpy(ext).float(), volume_translation=torch.from_numpy(-tr).float(), device=torch.device("cpu"))
        e, t = (torch.from_numpy(a).reshape(n, *[1] * len(case["shape"]), 3) for a in (ext, tr))
        pw = (f64(p) * e / 2 + t).float()
        p = ((f64(pw) - t) / e * 2)
        if dt == torch.float64:
            v = fill(grid, rng(case["seed"], 2), n)
            vol = dense(v)
        got = grid.evaluate_world(pw, v, loc)
    else:
        got = grid.evaluate_local(p, v)
    equal(tuple(got.shape), (n, *case["shape"], k["n_features"]), what="shape")
    if 0 in case["shape"]:
        return
    # points at the border of nearest/zeros may fall on either side
    q = f64(p).reshape(n, -1, 3)
    mask = np.ones(q.shape[1], dtype=bool)
    for a, m in enumerate(res):
        pos = position(q[..., a].numpy(), m, k["align_corners"])
        if case["world"] or k["padding"] == "reflection":
            mask &= ((np.abs(pos + 0.5) > 1e-3) & (np.abs(pos - m + 0.5) > 1e-3)).all(0)
    compare(got, vol, p, k, "evaluate", mask=mask)


@sub(d(seed=SEED, cls=one_of("cp", "vm"), n=ints(1, 8), what=one_of("basis", "both", "none", "three", "epoch0", "modes", "both given")), quick=40, thorough=400)
def rejects(case, cx):
    r = rng(case["seed"], 3)
    w = case["what"]
    cls = CLASSES[case["cls"]]
    if w == "basis":
        raises(lambda: cls(n_components=3, basis_matrix=False, n_features=2).get_shapes(0), ValueError, what="several features without a basis matrix")
    elif w == "both":
        raises(lambda: VMFactorizedVoxelGrid(n_components=3, distribution_of_components=(1, 1, 1)).get_shapes(0), ValueError, what="both numbers of components")
    elif w == "none":
        raises(lambda: VMFactorizedVoxelGrid().get_shapes(0), ValueError, what="no number of components")
    elif w == "three":
        if case["n"] % 3:
            raises(lambda: VMFactorizedVoxelGrid(n_components=case["n"]).get_shapes(0), ValueError, what="components not divisible by 3")
        else:
            VMFactorizedVoxelGrid(n_components=case["n"]).get_shapes(0)
    elif w == "epoch0":
        raises(lambda: cls(n_components=3, resolution_changes={case["n"]: [2, 2, 2]}), ValueError, what="no resolution at epoch 0")
    else:
        grid = FullResolutionVoxelGrid(resolution_changes={0: [2, 2, 2]})
        v = fill(grid, r, 1)
        if w == "modes":
            raises(lambda: grid.change_resolution(v, epoch=0, mode="bilinear"), ValueError, what="unknown mode")
        else:
            raises(lambda: grid.change_resolution(v, epoch=0, grid_values_with_wanted_resolution=v), ValueError, what="epoch and values")
            raises(lambda: grid.change_resolution(v), ValueError, what="neither epoch nor values")


# ---- changes of resolution ------------------------------------------------


def resample(t, size, align, mode):
    """t (n, C, *dims) float64 -> resized along every axis."""
    t = t.numpy()
    for a, m in enumerate(size):
        ax, n = a + 2, t.shape[a + 2]
        j = np.arange(m)
        w = np.zeros((m, n))
        if mode == "nearest":
            w[j, np.minimum((j * n) // m, n - 1)] = 1
        elif mode == "area":
            for q in j:
                lo, hi = (q * n) // m, -((-(q + 1) * n) // m)
                w[q, lo:hi] = 1 / (hi - lo)
        else:
            p = (j * (n - 1) / (m - 1) if m > 1 else np.zeros(m)) if align else np.clip((j + 0.5) * n / m - 0.5, 0, n - 1)
            i0 = np.clip(np.floor(p).astype(int), 0, n - 1)
            f = p - i0
            np.add.at(w, (j, i0), 1 - f)
            np.add.at(w, (j, np.minimum(i0 + 1, n - 1)), f)
        t = np.moveaxis(np.tensordot(w, t, axes=(1, ax)), 0, ax)
    return t


@sub(d(to=d(x=ints(1, 7), y=ints(1, 7), z=ints(1, 7)), how=one_of("epoch", "values", "other"), rmode=one_of("linear", "linear", "nearest", "area"), epoch=ints(1, 9), ask=ints(0, 12), **GRID), quick=250, thorough=15000)
def resolutions(case, cx):
    r = rng(case["seed"], 4)
    res, to = [case["res"][a] for a in "xyz"], [case["to"][a] for a in "xyz"]
    third = [int(v) for v in r.integers(1, 5, 3)]
    changes = {0: res, case["epoch"]: to, case["epoch"] + 3: third}
    if r.random() < 0.5:
        changes = dict(reversed(list(changes.items())))
    grid, k = make(case, r, changes)
    cx.trivial(res == to)
    cx.label(case["cls"], case["how"], case["rmode"])
    for e in range(14):
        want = third if e >= case["epoch"] + 3 else to if e >= case["epoch"] else res
        equal(list(grid.get_resolution(e)), want, what=f"resolution at epoch {e}")
    equal(sorted(grid.get_resolution_change_epochs()), sorted(changes), what="epochs")
    v = fill(grid, r, 2, epoch=0)
    before = {n: None if t is None else t.clone() for n, t in vars(v).items()}
    align = None if case["rmode"] in ("nearest", "area") else bool(r.random() < 0.5)
    opts = dict(mode=case["rmode"], align_corners=align)
    if case["rmode"] == "linear" and r.random() < 0.3:
        opts, align = {}, True
    if case["how"] == "values":
        like = fill(grid, r, 1, epoch=case["epoch"])
        new, changed = grid.change_resolution(v, grid_values_with_wanted_resolution=like, **opts)
        assert changed, "not changed"
    elif case["how"] == "epoch":
        new, changed = grid.change_resolution(v, epoch=case["epoch"], **opts)
        assert changed, "not changed"
    else:
        new, changed = grid.change_resolution(v, epoch=case["ask"], **opts)
        equal(changed, case["ask"] in changes, what="changed")
        if not changed:
            assert new is v, "values changed between epochs"
            return
        to = grid.get_resolution(case["ask"])
    assert type(new) is grid.values_type, "type"
    size = dict(voxel_grid=(0, 1, 2), vector_components_x=(0,), vector_components_y=(1,), vector_components_z=(2,), matrix_components_xy=(0, 1), matrix_components_yz=(1, 2), matrix_components_xz=(0, 2))
    for n, t in vars(v).items():
        if t is None:
            assert getattr(new, n) is None, n
            continue
        equal(t, before[n], what="old values")
        if n == "basis_matrix":
            close(getattr(new, n), t, atol=1e-6, rtol=1e-6, what=n)
        else:
            close(getattr(new, n), resample(f64(t), [to[a] for a in size[n]], align, case["rmode"]), atol=1e-5, rtol=1e-5, what=f"{n} at the new resolution")


# ---- crops ----------------------------------------------------------------


def node(i, n, align):
    """Local coordinate of voxel i."""
    if align:
        return 2 * i / (n - 1) - 1 if n > 1 else 0.0
    return (2 * i + 1) / n - 1


def box(r, res, align, snap):
    """A box reaching into the volume."""
    while True:
        lo, hi = r.uniform(-1.3, 0.8, 3), r.uniform(-0.8, 1.3, 3)
        if snap:  # on voxels
            for a, n in enumerate(res):
                lo[a] = node(int(r.integers(0, n)), n, align)
                hi[a] = node(int(r.integers(0, n)), n, align) if n > 1 else lo[a] + 0.1
        if (hi - lo > 1e-2).all() and (hi > -0.95).all() and (lo < 0.95).all():
            return lo, hi


def kept(lo, hi, n, align):
    """Acceptable (first, last) voxels along one axis: those which surround [lo, hi]."""
    out = []
    plo, phi = position(np.clip(lo, -1, 1), n, align), position(np.clip(hi, -1, 1), n, align)
    for e0 in (-1e-4, 1e-4):
        for e1 in (-1e-4, 1e-4):
            i, j = int(np.floor(plo + e0)), int(np.ceil(phi + e1))
            i, j = min(max(i, 0), n - 1), min(max(j, 0), n - 1)
            out.append((i, j))
    return set(out)


def slices(vol, cropped, choices, what):
    """The block of vol which the cropped grid is."""
    for i in choices[0]:
        for j in choices[1]:
            for m in choices[2]:
                b = vol[:, :, i[0]: i[1] + 1, j[0]: j[1] + 1, m[0]: m[1] + 1]
                if b.shape == cropped.shape and float((b - cropped).abs().max()) < 1e-5:
                    return i, j, m
    raise AssertionError(f"{what}: kept a block of {list(cropped.shape[2:])} which is not one of {[sorted(c) for c in choices]}")


@sub(d(snap=boolean(), world=boolean(), **GRID), quick=250, thorough=15000)
def crops(case, cx):
    r = rng(case["seed"], 5)
    grid, k = make(case, r)
    res, align = [case["res"][a] for a in "xyz"], k["align_corners"]
    cx.trivial(max(res) == 1)
    v = fill(grid, r, 1)
    vol = dense(v)
    lo, hi = box(r, res, align, case["snap"])
    a, b = (torch.from_numpy(x).float() for x in (lo, hi))
    if case["world"]:
        ext, tr = r.uniform(0.5, 3, 3), r.normal(size=3)
        loc = VolumeLocator(batch_size=1, grid_sizes=(2, 2, 2), voxel_size=tuple(float(x) for x in ext), volume_translation=tuple(float(-x) for x in tr), device=torch.device("cpu"))
        new = grid.crop_world(*(torch.from_numpy(x * ext / 2 + tr).float() for x in (lo, hi)), v, loc)
    else:
        new = grid.crop_local(a, b, v)
    assert type(new) is grid.values_type, "type"
    got = dense(new)
    rng3 = slices(vol, got, [kept(lo[i], hi[i], res[i], align) for i in range(3)], "crop")
    # inside the box, the cropped grid is the old field
    p = np.stack([r.uniform(max(lo[i], node(rng3[i][0], res[i], align)), max(min(hi[i], node(rng3[i][1], res[i], align)), max(lo[i], node(rng3[i][0], res[i], align)) + 1e-9), 6) for i in range(3)], -1)
    q = np.empty_like(p)
    for i, (f, l) in enumerate(rng3):
        m = l - f + 1
        x = position(p[:, i], res[i], align) - f
        q[:, i] = (2 * x / (m - 1) - 1 if m > 1 else 0) if align else (2 * x + 1) / m - 1
    k2 = dict(k, mode="bilinear", padding="border")
    old, _ = interp(vol[0], p, align, "border", "bilinear")
    field = CLASSES[case["cls"]](**dict(kwargs(case, rng(case["seed"], 5)), padding="border", mode="bilinear"))
    close(field.evaluate_local(torch.from_numpy(q).float()[None], new)[0], old, atol=3e-4, rtol=1e-3, what="field of the cropped grid")
    compare(field.evaluate_local(torch.from_numpy(p).float()[None], v), vol, torch.from_numpy(p)[None], k2, "field")


# ---- the module -----------------------------------------------------------


def module(case, r, changes=None, **kw):
    ext, tr = [float(x) for x in r.uniform(0.5, 3, 3)], [float(x) for x in r.normal(size=3)]
    if r.random() < 0.2:
        tr = [0.0, 0.0, 0.0]
    k = kwargs(case, r, changes)
    name = CLASSES[case["cls"]].__name__
    m = VoxelGridModule(voxel_grid_class_type=name, extents=tuple(ext), translation=tuple(tr), hold_voxel_grid_as_parameters=case["params"], **{f"voxel_grid_{name}_args": k}, **kw)
    return m, k, np.array(ext), np.array(tr)


def set_values(m, r):
    v = m.voxel_grid.values_type(**{n: T(r, tuple(t.shape)) for n, t in m.params.items() if t is not None})
    m.set_voxel_grid_parameters(v)
    return v


def module_dense(m):
    return dense(m.voxel_grid.values_type(**m.params))


def held(m, as_params, what):
    """The values are all parameters or all buffers, and the values of the state."""
    n = {k for k, v in m.params.items() if v is not None}
    equal({k for k, _ in m.named_parameters()}, {"params." + k for k in n} if as_params else set(), what=f"{what}: parameters")
    equal({k for k, _ in m.named_buffers()}, set() if as_params else {"params." + k for k in n}, what=f"{what}: buffers")
    equal(set(m.state_dict()), {"params." + k for k in n}, what=f"{what}: state")
    if as_params:
        assert all(p.requires_grad and p.is_leaf for p in m.parameters()), f"{what}: not trainable"


@sub(d(params=boolean(), shape=one_of((4,), (2, 3), (3, 1, 2)), epoch=ints(1, 5), to=d(x=ints(1, 7), y=ints(1, 7), z=ints(1, 7)), **GRID), quick=200, thorough=10000)
def modules(case, cx):
    r = rng(case["seed"], 6)
    res, to = [case["res"][a] for a in "xyz"], [case["to"][a] for a in "xyz"]
    cx.trivial(max(res) == 1)
    mean, std = float(r.normal()), float(r.choice([0.0, 0.1]))
    torch.manual_seed(case["seed"] % 1000)
    m, k, ext, tr = module(case, r, {0: res, case["epoch"]: to}, init_mean=mean, init_std=std)
    name = type(m.voxel_grid).__name__
    equal(VoxelGridModule.get_output_dim(DictConfig({"voxel_grid_class_type": name, f"voxel_grid_{name}_args": k})), k["n_features"], what="get_output_dim")
    for t in m.params.values():
        if t is not None:
            close(t.mean(), mean, atol=1e-6 + 6 * std / np.sqrt(t.numel()), what="mean of the initial values")
            if std == 0:
                close(t, torch.full_like(t, mean), atol=1e-6, what="initial values")
            elif t.numel() >= 50:
                assert 0.5 * std < float(t.detach().std()) < 2 * std, "deviation of the initial values"
    set_values(m, r)
    held(m, case["params"], "new module")
    vol = module_dense(m)

    def field(m, vol, ext, tr, what, n=5):
        p = r.uniform(-1.3, 1.3, (*case["shape"], 3))
        w = torch.from_numpy(p * ext / 2 + tr).float()
        loc = (f64(w).numpy() - tr) / ext * 2
        mask = np.ones(loc.reshape(-1, 3).shape[0], dtype=bool)
        for a in range(3):
            pos = position(loc.reshape(-1, 3)[:, a], vol.shape[a + 2], k["align_corners"])
            mask &= (np.abs(pos + 0.5) > 1e-3) & (np.abs(pos - vol.shape[a + 2] + 0.5) > 1e-3)
        compare(m(w)[None], vol, torch.from_numpy(loc)[None], k, what, mask=mask, atol=1e-3)

    field(m, vol, ext, tr, "module")
    # positions of the voxels
    pts = m.get_grid_points(0)
    want = np.stack(np.meshgrid(*[([node(i, n, k["align_corners"]) for i in range(n)] if n > 1 else [0.0]) for n in res], indexing="ij"), -1) * ext / 2 + tr
    skip = [a for a in range(3) if res[a] == 1]  # a single voxel is everywhere on its axis
    ok = [a for a in range(3) if a not in skip]
    equal(tuple(pts.shape), (*res, 3), what="shape of the voxels' positions")
    close(pts[..., ok], want[..., ok], atol=1e-5, what="positions of the voxels")
    close(m.get_grid_points(case["epoch"]).shape, list(to) + [3], what="positions at another epoch")
    if k["padding"] == "border":
        close(m(pts).reshape(-1, k["n_features"]), vol[0].permute(1, 2, 3, 0).reshape(-1, k["n_features"]), atol=1e-3, rtol=1e-3, what="field at the voxels")
    # epochs
    epochs, call = m.subscribe_to_epochs()
    equal(sorted(epochs), [0, case["epoch"]], what="epochs")
    old = {n: None if t is None else t.detach().clone() for n, t in m.params.items()}
    for e in (case["epoch"] + 1, case["epoch"]):
        changed = call(e)
        equal(bool(changed), e == case["epoch"] and case["params"], what="change of parameters reported")
        held(m, case["params"], "after an epoch")
        if e != case["epoch"]:
            for n, t in m.params.items():
                if t is not None:
                    equal(t.detach(), old[n], what="values at an epoch without change")
    new = module_dense(m)
    equal(list(new.shape[2:]), to, what="resolution after the change")
    for n, t in m.params.items():
        if t is None or n == "basis_matrix":
            continue
        size = {"voxel_grid": to, **{"vector_components_" + a: [case["to"][a]] for a in "xyz"}, **{"matrix_components_" + a + b: [case["to"][a], case["to"][b]] for a, b in ("xy", "yz", "xz")}}[n]
        close(t.detach(), resample(f64(old[n]), size, k["align_corners"], "linear"), atol=1e-5, rtol=1e-5, what=f"{n} after the change of resolution")
    field(m, new, ext, tr, "module after the change")
    # state: another module takes over the sizes and the values
    r2 = rng(case["seed"], 6)
    _ = r2.normal(), r2.choice([0.0, 0.1])
    other, *_ = module(case, r2, {0: res, case["epoch"]: to})
    if r.random() < 0.5:
        wrap = torch.nn.ModuleDict(dict(a=other, b=torch.nn.Linear(1, 1)))
        st = {"a." + n: t for n, t in m.state_dict().items()}
        st.update({n: t for n, t in wrap.state_dict().items() if n.startswith("b.")})
        wrap.load_state_dict(st)
    else:
        other.load_state_dict(m.state_dict())
    held(other, case["params"], "loaded")
    for n, t in m.params.items():
        if t is not None:
            equal(other.params[n].detach(), t.detach(), what=f"{n} loaded")
    # a state which has none of its values leaves it as it is
    res0 = other.load_state_dict({}, strict=False)
    equal(sorted(res0.missing_keys), sorted("params." + n for n, t in m.params.items() if t is not None), what="missing keys")
    for n, t in m.params.items():
        if t is not None:
            equal(other.params[n].detach(), t.detach(), what=f"{n} after loading nothing")


def check_cropped(m, before, lo, hi, k, res, what, atol=1e-3, slack=0.0):
    """m: cropped module; before: a copy from before; lo, hi: corners in world coordinates (numpy)."""
    ext, tr = np.array([float(x) for x in m.extents]), np.array([float(x) for x in m.translation])
    ext0, tr0 = np.array([float(x) for x in before.extents]), np.array([float(x) for x in before.translation])
    align = k["align_corners"]
    equal(list(module_dense(m).shape[2:]), list(res), what=f"{what}: resolution")
    # the new volume contains the corners (as far as the old one does) and at most the voxels around them
    step = np.array([ext0[a] / ((res[a] - 1) if align else res[a]) if res[a] > (1 if align else 0) else ext0[a] for a in range(3)])
    a0, b0 = tr0 - ext0 / 2, tr0 + ext0 / 2
    want_lo, want_hi = np.maximum(lo, a0), np.minimum(hi, b0)
    a, b = tr - ext / 2, tr + ext / 2
    tol, step = 1e-4 * (1 + np.abs(tr0) + ext0), step + slack / 2
    assert (a <= want_lo + tol).all() and (b >= want_hi - tol).all(), f"{what}: volume {a} to {b} does not contain {want_lo} to {want_hi}"
    assert (a >= np.minimum(want_lo - 2 * step, b0 - 2 * step) - tol).all() and (b <= np.maximum(want_hi + 2 * step, a0 + 2 * step) + tol).all(), f"{what}: volume {a} to {b} not cropped to {want_lo} to {want_hi}"
    # its voxels have the values of the old field
    vol, new = module_dense(before)[0], module_dense(m)[0]
    idx = [[node(i, n, align) if n > 1 or not align else 0.0 for i in range(n)] for n in res]
    pts = np.stack(np.meshgrid(*idx, indexing="ij"), -1) * ext / 2 + tr
    loc = (pts - tr0) / ext0 * 2
    want, _ = interp(vol, loc.reshape(-1, 3), align, "border", "bilinear")
    got = new.permute(1, 2, 3, 0).reshape(-1, new.shape[0])
    ok = np.ones(len(want), dtype=bool)
    if not align:  # new voxels between the last preserved one and the border are extrapolated
        p = pts.reshape(-1, 3)
        ok = ((p >= want_lo) & (p <= want_hi)).all(-1)
    close(got[ok], want[ok], atol=atol, rtol=1e-3, what=f"{what}: values of the voxels")
    return ext, tr


@sub(d(params=boolean(), snap=boolean(), twice=boolean(), **GRID), quick=250, thorough=15000)
def crop_self(case, cx):
    r = rng(case["seed"], 7)
    res = [case["res"][a] for a in "xyz"]
    cx.trivial(max(res) == 1)
    m, k, ext, tr = module(case, r)
    set_values(m, r)
    for i in range(2 if case["twice"] else 1):
        before = copy.deepcopy(m)
        lo, hi = box(r, res, k["align_corners"], case["snap"])
        lo, hi = lo * ext / 2 + tr, hi * ext / 2 + tr
        m.crop_self(torch.from_numpy(lo).float(), torch.from_numpy(hi).float())
        held(m, case["params"], "cropped")
        ext, tr = check_cropped(m, before, lo, hi, k, res, f"crop {i}")
        assert (ext > 0).all(), "empty volume"


# ---- implicit function ----------------------------------------------------


def harmonic(x, n, append):
    f = 2.0 ** np.arange(n)
    e = (x[..., None] * f).reshape(*x.shape[:-1], -1)
    return np.concatenate([np.sin(e), np.cos(e)] + ([x] if append else []), -1)


def act(x, kind):
    return {"RELU": np.maximum(x, 0), "SOFTPLUS": np.logaddexp(0, x), "SIGMOID": 1 / (1 + np.exp(-np.clip(x, -700, 700))), "IDENTITY": x}[kind]


def lin(l, x):
    return x @ f64(l.weight).numpy().T + f64(l.bias).numpy()


def mlp(net, x, z, n_layers, skips, affine, last):
    """MLPWithInputSkips in numpy, from its linear layers."""
    y, s = x, 0
    z = x if z is None else z
    for i in range(n_layers):
        if i in skips and i > 0:
            if affine:
                l1, _, l2 = net.skip_affines[s]
                mu, ls = np.split(lin(l2, np.maximum(lin(l1, z), 0)), 2, -1)
                y = (y - mu) * np.logaddexp(0, ls)
                s += 1
            else:
                y = np.concatenate([y, z], -1)
        y = act(lin(net.mlp[i][0], y), last if i == n_layers - 1 else "RELU")
    return y


ACTS = one_of("RELU", "SOFTPLUS", "SIGMOID", "IDENTITY")
FUN = dict(seed=SEED, dcls=one_of("full", "cp", "vm"), ccls=one_of("full", "cp", "vm"), align=boolean(), nh=ints(0, 2), app=boolean(), act=ACTS, decoder=one_of("ElementwiseDecoder", "MLPDecoder"))


def function(case, r, **kw):
    """A VoxelGridImplicitFunction, its settings and a numpy model of density and colour."""
    S = {}
    args = dict(kw)
    ext, tr = [float(x) for x in r.uniform(0.8, 3, 3)], [float(x) for x in r.normal(size=3)]
    for w, cls in (("density", case["dcls"]), ("color", case["ccls"])):
        name = CLASSES[cls].__name__
        k = dict(n_features=int(r.integers(1, 3)), align_corners=case["align"], resolution_changes={0: [int(x) for x in r.integers(2, 6, 3)]})
        if cls != "full":
            k["n_components"] = 3
        e, t = (ext, tr) if w == "density" or r.random() < 0.5 else ([float(x) for x in r.uniform(0.8, 3, 3)], [float(x) for x in r.normal(size=3)])
        args[f"voxel_grid_{w}_args"] = {"voxel_grid_class_type": name, "extents": e, "translation": t, f"voxel_grid_{name}_args": k}
        S[w] = (k, np.array(e), np.array(t))
        dec = case["decoder"] if w == "density" else "MLPDecoder"
        args[f"decoder_{w}_class_type"] = dec
        if dec == "MLPDecoder":
            args[f"decoder_{w}_MLPDecoder_args"] = {"network_args": {"n_layers": 3, "hidden_dim": 7, "input_skips": [], "output_dim": 3 if w == "color" else int(kw.get("ddim", 1)), "last_activation": case["act"]}}
        else:
            S["scale"], S["shift"] = float(r.uniform(0.5, 2)), float(r.normal())
            args["decoder_density_ElementwiseDecoder_args"] = dict(scale=S["scale"], shift=S["shift"], operation=case["act"])
    S["embed"] = {}
    for e in ("xyz_density", "xyz_color", "dir_color"):
        n, a = (case["nh"], case["app"] or case["nh"] == 0)
        if e == "dir_color":
            n, a = 1, bool(r.random() < 0.5)
        args[f"harmonic_embedder_{e}_args"] = dict(n_harmonic_functions=n, append_input=a)
        S["embed"][e] = (n, a)
    cfg = OmegaConf.merge(get_default_args(VoxelGridImplicitFunction), DictConfig(args))
    torch.manual_seed(case["seed"] % 1000)
    fun = VoxelGridImplicitFunction(**cfg)
    for w in ("density", "color"):
        set_values(getattr(fun, "voxel_grid_" + w), r)
    for p in fun.parameters():  # biases too
        if p.ndim == 1 and p.numel() < 50:
            torch.nn.init.normal_(p, std=0.3)

    def grid(w, pts):
        k, e, t = S[w]
        m = getattr(fun, "voxel_grid_" + w)
        out, _ = interp(module_dense(m)[0], (pts - np.array([float(x) for x in m.translation])) / np.array([float(x) for x in m.extents]) * 2, k["align_corners"], "zeros", "bilinear")
        return out

    def density(pts):
        f = harmonic(grid("density", pts), *S["embed"]["xyz_density"])
        if case["decoder"] == "ElementwiseDecoder":
            return act(f * S["scale"] + S["shift"], case["act"])
        return mlp(fun.decoder_density.network, f, None, 3, (), False, case["act"])

    def color(pts, dirs):
        u = dirs / np.linalg.norm(dirs, axis=-1, keepdims=True)
        f = np.concatenate([harmonic(grid("color", pts), *S["embed"]["xyz_color"]), harmonic(u, *S["embed"]["dir_color"])], -1)
        return mlp(fun.decoder_color.network, f, None, 3, (), False, case["act"])

    return fun, S, density, color


def rays(r, S, shape, P):
    _, e, t = S["density"]
    o = r.uniform(-0.6, 0.6, (*shape, 3)) * e / 2 + t
    dr = r.normal(size=(*shape, 3)) * r.uniform(0.5, 2)
    l = np.sort(r.uniform(-0.5, 0.8, (*shape, P)), -1)
    b = ImplicitronRayBundle(origins=torch.from_numpy(o).float(), directions=torch.from_numpy(dr).float(), lengths=torch.from_numpy(l).float(), xys=None)
    o, dr, l = (f64(x).numpy() for x in (b.origins, b.directions, b.lengths))
    return b, o[..., None, :] + l[..., None] * dr[..., None, :], dr


@sub(d(shape=one_of((1, 1), (2, 3), (2, 1, 2), (3, 2, 2)), P=ints(1, 5), cam=boolean(), ncam=boolean(), **FUN), quick=150, thorough=8000)
def implicit_function(case, cx):
    r = rng(case["seed"], 8)
    shape = case["shape"]
    fun, S, density, color = function(case, r, xyz_ray_dir_in_camera_coords=case["cam"])
    cx.label(case["dcls"], case["ccls"], "camera" if case["cam"] else "world")
    assert fun.allows_multiple_passes(), "passes"
    b, pts, dirs = rays(r, S, shape, case["P"])
    cam = PerspectiveCameras(R=rot(r, shape[0]).float(), T=T(r, (shape[0], 3)))
    if case["cam"]:
        raises(lambda: fun(b), ValueError, what="camera coordinates without a camera")
        dirs = np.einsum("n...i,nij->n...j", dirs, f64(cam.R).numpy())
    with torch.no_grad():
        den, col, aux = fun(b, camera=cam if case["cam"] or case["ncam"] else None)
    wd = density(pts.reshape(-1, 3))
    wc = color(pts.reshape(-1, 3), np.repeat(dirs.reshape(-1, 3), case["P"], 0))
    equal(tuple(den.shape), (*shape, case["P"], wd.shape[-1]), what="shape of densities")
    equal(tuple(col.shape), (*shape, case["P"], 3), what="shape of colours")
    close(den, wd.reshape(den.shape), atol=2e-3, rtol=2e-3, what="densities")
    close(col, wc.reshape(col.shape), atol=2e-3, rtol=2e-3, what="colours")
    cx.trivial(shape == (1, 1))


@sub(d(shape=one_of((1, 1), (2, 3), (2, 1, 2)), P=ints(1, 5), sres=d(x=ints(2, 8), y=ints(2, 8), z=ints(2, 8)), chunk=one_of(-1, 0, 1, 2, 3, 10), kernel=one_of(1, 3, 3, 5), thr=one_of(0.001, 1e9, -0.1, -0.3, -0.5, -0.8), crop=boolean(),
       filt=boolean(), **FUN), quick=200, thorough=8000)
def scaffolds(case, cx):
    r = rng(case["seed"], 9)
    res = [case["sres"][a] for a in "xyz"]
    fun, S, density, color = function(case, r, scaffold_resolution=res, scaffold_calculating_epochs=[2, 5], volume_cropping_epochs=[5, 7] if case["crop"] else [], scaffold_empty_space_threshold=case["thr"],
                                      scaffold_occupancy_chunk_size=case["chunk"], scaffold_max_pool_kernel_size=case["kernel"], scaffold_filter_points=case["filt"])
    _, ext, tr = S["density"]
    thr = case["thr"]
    epochs, call = fun.subscribe_to_epochs()
    equal(sorted(epochs), [2, 5, 7] if case["crop"] else [2, 5], what="epochs")
    # scaffold
    pts = np.stack(np.meshgrid(*[np.linspace(-1, 1, n) for n in res], indexing="ij"), -1) * ext / 2 + tr
    w = case["kernel"] // 2

    def pooled(s):
        den = density(((pts - tr) * s + tr).reshape(-1, 3))[..., 0].reshape(res)
        pad = np.pad(den, w, constant_values=-np.inf)
        return np.max([pad[i: i + res[0], j: j + res[1], k: k + res[2]] for i in range(2 * w + 1) for j in range(2 * w + 1) for k in range(2 * w + 1)], axis=0)

    if thr < 0:  # between the densities
        den = np.unique(pooled(1 - 1e-5).round(2))
        thr = fun.scaffold_empty_space_threshold = float(den[int(-thr * len(den))]) + 0.005
    assert call(2) is False, "scaffold reported a change of parameters"
    # the points are on the border of the volume: ask on both sides
    both = pooled(1 - 1e-5), pooled(1 + 1e-5)
    full, empty = np.minimum(*both) - 2e-3 > thr, np.maximum(*both) + 2e-3 <= thr
    got = fun.voxel_grid_scaffold.params["voxel_grid"]
    equal(tuple(got.shape), (1, 1, *res), what="shape of the scaffold")
    got = f64(got)[0, 0].numpy()
    assert set(np.unique(got)) <= {0.0, 1.0}, "scaffold values"
    assert (got[full] == 1).all() and (got[empty] == 0).all(), f"scaffold wrong at {np.argwhere((full & (got != 1)) | (empty & (got != 0)))[0]}"
    cx.trivial(got.min() == got.max())
    # rays through it
    b, p, dirs = rays(r, S, case["shape"], case["P"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with torch.no_grad():
            den, col, _ = fun(b)
    wd = density(p.reshape(-1, 3))
    wc = color(p.reshape(-1, 3), np.repeat(dirs.reshape(-1, 3), case["P"], 0))
    ok = np.ones(len(wd), dtype=bool)
    if case["filt"]:
        occ, _ = interp(got[None], (p.reshape(-1, 3) - tr) / ext * 2, True, "zeros", "bilinear")
        ok = (occ[:, 0] == 0) | (occ[:, 0] > 1e-4)
        wd, wc = wd * (occ > 0), wc * (occ > 0)
        if not (occ > 0).any() and den.shape[-1] == 1:
            wd = wd[:, :1]  # nothing is evaluated: densities have one channel
    close(f64(den).reshape(wd.shape)[ok], wd[ok], atol=2e-3, rtol=2e-3, what="densities with a scaffold")
    close(f64(col).reshape(wc.shape)[ok], wc[ok], atol=2e-3, rtol=2e-3, what="colours with a scaffold")
    if not case["crop"]:
        return
    # cropping at epoch 7 (no new scaffold)
    occ = np.argwhere(got > 0)
    before = copy.deepcopy(fun)
    if len(occ) == 0:
        assert call(7) is False, "empty scaffold: cropped"
        for a, q in fun.named_parameters():
            equal(q.detach(), dict(before.named_parameters())[a].detach(), what="empty scaffold: parameters")
        return
    lo, hi = occ.min(0), occ.max(0)
    if (lo == hi).any():
        return  # a box of no volume is rejected by an assertion
    wlo, whi = pts[tuple(lo)], pts[tuple(hi)]
    # both grids must reach the box
    for w in ("density", "color"):
        k, e, t = S[w]
        if ((wlo - t) / e * 2 > 0.95).any() or ((whi - t) / e * 2 < -0.95).any():
            return
    assert call(7) is True, "cropping not reported"
    for w in ("density", "color"):
        k = S[w][0]
        check_cropped(getattr(fun, "voxel_grid_" + w), getattr(before, "voxel_grid_" + w), wlo, whi, k, k["resolution_changes"][0], f"crop of {w}", slack=ext / (np.array(res) - 1))  # rounding can make the next points of the scaffold count


# ---- decoders -------------------------------------------------------------


@sub(d(seed=SEED, shape=one_of((1,), (4,), (2, 3), (2, 1, 3)), layers=ints(1, 5), inp=ints(1, 4), zdim=ints(1, 4), out=ints(1, 4), hidden=ints(1, 6), skips=one_of((), (1,), (2,), (1, 3), (4, 2), (9,)), affine=boolean(), act=ACTS,
       bias=one_of(None, 0.0, 0.7), xavier=boolean(), kind=one_of("mlp", "mlp", "decoder", "elementwise")), quick=250, thorough=10000)
def decoders(case, cx):
    r = rng(case["seed"], 10)
    torch.manual_seed(case["seed"] % 1000)
    x = T(r, (*case["shape"], case["inp"]))
    cx.label(case["kind"])
    if case["kind"] == "elementwise":
        a, b = float(r.normal() * 3), float(r.normal())
        op = DecoderActivation[case["act"]]
        x0 = x.clone()
        close(ElementwiseDecoder(scale=a, shift=b, operation=op)(x), act(f64(x).numpy() * a + b, case["act"]), atol=1e-5, rtol=1e-5, what="elementwise")
        equal(x, x0, what="input of the decoder")
        return
    cx.trivial(case["layers"] == 1)
    own = r.random() < 0.5
    zdim = case["inp"] if own else case["zdim"]
    z = None if own else T(r, (*case["shape"], zdim))
    args = dict(n_layers=case["layers"], output_dim=case["out"], skip_dim=zdim, hidden_dim=case["hidden"], input_skips=case["skips"], skip_affine_trans=case["affine"], last_layer_bias_init=case["bias"],
                last_activation=DecoderActivation[case["act"]], use_xavier_init=case["xavier"])
    if case["kind"] == "mlp":
        net = MLPWithInputSkips(input_dim=case["inp"], **args)
        call = net
    else:
        args["last_activation"] = case["act"]
        cfg = OmegaConf.merge(get_default_args(MLPDecoder), {"network_args": args, "input_dim": case["inp"]})
        call = MLPDecoder(**cfg)
        net = call.network
    equal(len(net.mlp), case["layers"], what="layers")
    if case["bias"] is not None:
        b = net.mlp[-1][0].bias
        close(b, torch.full_like(b, case["bias"]), what="bias of the last layer")
    if case["xavier"]:
        for l in net.mlp:
            o, i = l[0].weight.shape
            assert float(l[0].weight.detach().abs().max()) <= np.sqrt(6 / (o + i)) + 1e-6, "Xavier initialisation"
    x0 = x.clone()
    with torch.no_grad():
        got = call(x, z)
    want = mlp(net, f64(x).numpy(), None if z is None else f64(z).numpy(), case["layers"], set(case["skips"]), case["affine"], case["act"])
    close(got, want, atol=1e-4, rtol=1e-4, what="decoder")
    equal(x, x0, what="input of the decoder")


def attention(layer, x):
    """TransformerEncoderLayer on one sequence (n, dim), numpy."""
    def p(t):
        return f64(t).numpy()

    def norm(l, y):
        m = y.mean(-1, keepdims=True)
        return (y - m) / np.sqrt(y.var(-1, keepdims=True) + l.eps) * p(l.weight) + p(l.bias)

    at = layer.self_attn
    E, H = x.shape[1], 4
    q, k, v = np.split(x @ p(at.in_proj_weight).T + p(at.in_proj_bias), 3, -1)
    o = np.zeros_like(x)
    for h in range(H):
        s = slice(h * E // H, (h + 1) * E // H)
        w = q[:, s] @ k[:, s].T / np.sqrt(E // H)
        w = np.exp(w - w.max(-1, keepdims=True))
        o[:, s] = w / w.sum(-1, keepdims=True) @ v[:, s]
    x = norm(layer.norm1, x + lin(at.out_proj, o))
    y = lin(layer.linear2, np.maximum(lin(layer.linear1, x), 0))
    n = y.shape[-1]
    return norm(layer.norm2, x[:, :n] + y)


@sub(d(seed=SEED, B=ints(1, 2), pool=ints(1, 3), R=ints(1, 3), P=ints(1, 3), layers=ints(1, 3), inp=ints(1, 4), zdim=ints(1, 4), skips=one_of((), (0,), (1,), (0, 2)), down=one_of(1, 2), own=boolean()), quick=60, thorough=2000)
def transformers(case, cx):
    r = rng(case["seed"], 11)
    torch.manual_seed(case["seed"] % 1000)
    B, N, R, P = case["B"], case["pool"], case["R"], case["P"]
    cx.trivial(B * N * R * P == 1)
    zdim = case["inp"] if case["own"] else case["zdim"]
    net = TransformerWithInputSkips(n_layers=case["layers"], input_dim=case["inp"], output_dim=3, skip_dim=zdim, hidden_dim=32, input_skips=case["skips"], dim_down_factor=case["down"])
    for q in net.parameters():
        if q.ndim == 1:
            torch.nn.init.normal_(q, std=0.5)
    x = T(r, (B, N, R, P, case["inp"]))
    z = None if case["own"] else T(r, (B, N, R, P, zdim))
    with torch.no_grad():
        got = net(x, z)
    want = np.zeros((B, R, P, 3))
    zn = f64(x if z is None else z).numpy()
    for b in range(B):
        for q in range(R):
            y = lin(net.first, f64(x)[b, :, q].numpy())  # pool, points, dim
            s = 0
            for i in range(case["layers"]):
                if i in case["skips"]:
                    y = y + lin(net.skip_linear[s], zn[b, :, q])
                    s += 1
                y = np.stack([attention(net.layers_pool[i], y[:, j]) for j in range(P)], 1)
                y = np.stack([attention(net.layers_ray[i], y[j]) for j in range(N)], 0)
            w = np.exp(y[..., :1] - y[..., :1].max(0))
            want[b, q] = lin(net.last, (y * w / w.sum(0)).sum(0))
    close(got, want, atol=1e-3, rtol=1e-3, what="transformer")
