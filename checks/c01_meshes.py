"""C01: every view of a Meshes batch describes the same meshes, after any history."""
import numpy as np
import torch
from hypothesis import strategies as st

from pytorch3d.structures import (
    join_meshes_as_batch, join_meshes_as_scene, Meshes,
)
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, faces_np, ints, one_of, rng, MODES

PROP = "C01"
RULE = ("Random batches of 1-4 meshes (0-7 vertices, 0-8 faces each, list or padded input) followed "
        "by 0-6 operations with random views read in between, so that lazily computed views exist "
        "before the operation; a plain list of (verts, faces) is the model. Non-trivial: at least "
        "one operation after a view was read, or at least two meshes of different size.")

VIEWS = ["verts_list", "faces_list", "verts_padded", "faces_padded", "verts_packed", "faces_packed",
         "edges_packed", "verts_normals_packed", "faces_normals_packed", "faces_areas_packed",
         "verts_padded_to_packed_idx", "laplacian_packed", "verts_normals_padded",
         "faces_normals_padded", "verts_normals_list", "faces_packed_to_edges_packed"]
OPS = ["clone", "detach", "offset_verts", "offset_verts_", "offset3_", "offset3", "scale_verts",
       "scale_verts_", "scale_n_", "scale_n", "update_padded", "extend", "getint", "getslice", "getlist",
       "getbool", "getlong", "split", "submeshes", "join_batch", "join_scene", "to", "to_copy"]


class Model:
    """The meshes an operation history defines: a list of (verts, faces)."""

    def __init__(self, items):
        self.items = [(v.clone(), f.clone()) for v, f in items]

    def copy(self):
        return Model(self.items)


def ref_edges(items):
    """set of (v0, v1) packed, v0 < v1, -> mesh index"""
    out, off = {}, 0
    for i, (v, f) in enumerate(items):
        for a, b, c in f.tolist():
            for p, q in ((a, b), (b, c), (c, a)):
                out[(min(p, q) + off, max(p, q) + off)] = i
        off += len(v)
    return out


def check_view(m, model, view):
    items = model.items
    N = len(items)
    nv = [len(v) for v, _ in items]
    nf = [len(f) for _, f in items]
    empty = all(a == 0 or b == 0 for a, b in zip(nv, nf))
    equal(len(m), N, "len")
    if empty:
        # an all-empty batch: nothing is packed, lists keep what was given
        equal(len(m.verts_list()), N, "verts_list length")
        equal(len(m.faces_list()), N, "faces_list length")
        assert bool(m.isempty())
        equal(tuple(m.verts_packed().shape), (0, 3), "verts_packed of an empty batch")
        equal(tuple(m.faces_packed().shape), (0, 3), "faces_packed of an empty batch")
        equal(len(m.edges_packed()), 0, "edges_packed of an empty batch")
        return
    V, F = max(nv), max(nf)
    vp = torch.cat([v for v, _ in items]) if N else torch.zeros(0, 3)
    off = np.concatenate([[0], np.cumsum(nv)])
    foff = np.concatenate([[0], np.cumsum(nf)])
    fp = torch.cat([f + int(off[i]) for i, (_, f) in enumerate(items)])
    v2m = torch.tensor([i for i in range(N) for _ in range(nv[i])], dtype=torch.int64)
    f2m = torch.tensor([i for i in range(N) for _ in range(nf[i])], dtype=torch.int64)
    equal(m.num_verts_per_mesh(), torch.tensor(nv), "num_verts_per_mesh")
    equal(m.num_faces_per_mesh(), torch.tensor(nf), "num_faces_per_mesh")
    equal(m.valid, torch.tensor([a > 0 and b > 0 for a, b in zip(nv, nf)]), "valid")
    if view == "verts_list":
        got = m.verts_list()
        equal(len(got), N, "verts_list length")
        for i in range(N):
            close(got[i], items[i][0], 1e-5, 1e-5, f"verts_list[{i}]")
            close(m.get_mesh_verts_faces(i)[0], items[i][0], 1e-5, 1e-5, "get_mesh_verts_faces")
        if all(nv):
            bb = m.get_bounding_boxes()
            want = torch.stack([torch.stack([v.min(0)[0], v.max(0)[0]], 1) for v, _ in items])
            close(bb, want, 1e-5, 1e-5, "get_bounding_boxes")
    elif view == "faces_list":
        got = m.faces_list()
        equal(len(got), N, "faces_list length")
        for i in range(N):
            equal(got[i].reshape(-1, 3), items[i][1], f"faces_list[{i}]")
            equal(m.get_mesh_verts_faces(i)[1].reshape(-1, 3), items[i][1], "get_mesh_verts_faces")
    elif view == "verts_padded":
        want = torch.zeros(N, V, 3)
        for i, (v, _) in enumerate(items):
            want[i, : nv[i]] = v
        close(m.verts_padded(), want, 1e-5, 1e-5, "verts_padded")
    elif view == "faces_padded":
        want = torch.full((N, F, 3), -1, dtype=torch.int64)
        for i, (_, f) in enumerate(items):
            want[i, : nf[i]] = f
        equal(m.faces_padded(), want, "faces_padded")
    elif view == "verts_packed":
        close(m.verts_packed(), vp, 1e-5, 1e-5, "verts_packed")
        equal(m.verts_packed_to_mesh_idx(), v2m, "verts_packed_to_mesh_idx")
        equal(m.mesh_to_verts_packed_first_idx(), torch.tensor(off[:-1]), "mesh_to_verts_packed_first_idx")
    elif view == "faces_packed":
        equal(m.faces_packed(), fp, "faces_packed")
        equal(m.faces_packed_to_mesh_idx(), f2m, "faces_packed_to_mesh_idx")
        equal(m.mesh_to_faces_packed_first_idx(), torch.tensor(foff[:-1]), "mesh_to_faces_packed_first_idx")
    elif view == "verts_padded_to_packed_idx":
        want = torch.tensor([i * V + j for i in range(N) for j in range(nv[i])], dtype=torch.int64)
        equal(m.verts_padded_to_packed_idx(), want, "verts_padded_to_packed_idx")
    elif view in ("edges_packed", "faces_packed_to_edges_packed"):
        E = m.edges_packed().tolist()
        ref = ref_edges(items)
        equal(sorted(map(tuple, E)), sorted(ref), "edges_packed as a set")
        equal([e[0] for e in E], sorted(e[0] for e in E), "edges_packed sorted by first vertex")
        equal(m.edges_packed_to_mesh_idx().tolist(), [ref[tuple(e)] for e in E], "edges_packed_to_mesh_idx")
        cnt = [sum(1 for x in ref.values() if x == i) for i in range(N)]
        equal(m.num_edges_per_mesh().tolist(), cnt, "num_edges_per_mesh")
        equal(m.mesh_to_edges_packed_first_idx().tolist(),
              [int(x) for x in np.concatenate([[0], np.cumsum(cnt)])[:-1]], "mesh_to_edges_packed_first_idx")
        f2e = m.faces_packed_to_edges_packed()
        equal(tuple(f2e.shape), (len(fp), 3), "faces_packed_to_edges_packed shape")
        for (a, b, c), es in zip(fp.tolist(), f2e.tolist()):
            for (p, q), e in zip(((b, c), (c, a), (a, b)), es):
                equal(tuple(E[e]), (min(p, q), max(p, q)), "edge opposite each face corner")
    elif view.startswith("verts_normals"):
        vpd = vp.double()
        n = torch.zeros_like(vpd)
        cr = torch.cross(vpd[fp[:, 1]] - vpd[fp[:, 0]], vpd[fp[:, 2]] - vpd[fp[:, 0]], dim=1)
        mag = torch.zeros(len(vp), dtype=torch.float64)
        for k in range(3):
            n.index_add_(0, fp[:, k], cr)
            mag.index_add_(0, fp[:, k], cr.norm(dim=1) + 1e-4 * vpd[fp].abs().amax((1, 2)) ** 2)
        big = vpd.abs().max().item() + 1
        ok = n.norm(dim=1) > 1e-2 * mag + 1e-4 + 1e-5 * big * big
        unit = n / n.norm(dim=1, keepdim=True).clamp(min=1e-12)
        got = m.verts_normals_packed()
        equal(tuple(got.shape), tuple(vp.shape), "verts_normals_packed shape")
        close(got[ok], unit[ok], 5e-3, 0, "verts_normals_packed")
        iso = torch.ones(len(vp), dtype=torch.bool)
        iso[fp.reshape(-1)] = False
        close(got[iso], torch.zeros(int(iso.sum()), 3), 0, 0, "normals of unused vertices")
        pad = m.verts_normals_padded()
        lst = m.verts_normals_list()
        equal(tuple(pad.shape), (N, V, 3), "verts_normals_padded shape")
        for i in range(N):
            seg = got[off[i]: off[i + 1]]
            equal(pad[i, : nv[i]], seg, "verts_normals_padded")
            equal(pad[i, nv[i]:], torch.zeros(V - nv[i], 3), "verts_normals_padded padding")
            equal(lst[i], seg, "verts_normals_list")
    elif view in ("faces_normals_packed", "faces_areas_packed", "faces_normals_padded"):
        vpd = vp.double()
        cr = torch.cross(vpd[fp[:, 1]] - vpd[fp[:, 0]], vpd[fp[:, 2]] - vpd[fp[:, 0]], dim=1)
        size = vpd[fp].abs().amax((1, 2)) + 1e-6
        close(m.faces_areas_packed() / size ** 2, cr.norm(dim=1) / 2 / size ** 2, 1e-4, 1e-4,
              "faces_areas_packed")
        got = m.faces_normals_packed()
        equal(tuple(got.shape), (len(fp), 3), "faces_normals_packed shape")
        ok = (cr.norm(dim=1) > 1e-2 * size ** 2) & (cr.norm(dim=1) > 1e-4)
        close(got[ok], (cr / cr.norm(dim=1, keepdim=True).clamp(min=1e-12))[ok], 1e-3, 0, "faces_normals_packed")
        point = (vpd[fp] == vpd[fp][:, :1]).all(2).all(1)
        close(got[point], torch.zeros(int(point.sum()), 3), 0, 0, "normals of faces shrunk to a point")
        pad, lst = m.faces_normals_padded(), m.faces_normals_list()
        equal(tuple(pad.shape), (N, F, 3), "faces_normals_padded shape")
        for i in range(N):
            seg = got[foff[i]: foff[i + 1]]
            equal(pad[i, : nf[i]], seg, "faces_normals_padded")
            equal(pad[i, nf[i]:], torch.zeros(F - nf[i], 3), "faces_normals_padded padding")
            equal(lst[i], seg, "faces_normals_list")
    elif view == "laplacian_packed":
        L = m.laplacian_packed().to_dense()
        n = len(vp)
        want = torch.zeros(n, n)
        for a, b in ref_edges(items):
            want[a, b] = want[b, a] = 1.0
        deg = want.sum(1, keepdim=True)
        want = torch.where(deg > 0, want / deg.clamp(min=1), want) - torch.eye(n)
        close(L, want, 1e-6, 1e-6, "laplacian_packed")
    else:
        raise KeyError(view)


def mesh_items(r, sizes, mode, equi):
    items = []
    for v, f in sizes:
        if equi:
            v, f = sizes[0]
        if v < 3:
            f = 0
        items.append((T(r, (v, 3), mode), torch.from_numpy(faces_np(r, v, f))))
    return items


def build(items, how, r):
    """A Meshes from list or padded input.  A padded mesh has no own vertex count:
    every mesh then owns all V rows."""
    if how == "list":
        verts = [v.clone() for v, _ in items]
        # list input may carry padding rows, which are dropped
        faces = []
        for v, f in items:
            if r.integers(0, 4) == 0 and len(f):
                f = torch.cat([f, torch.full((int(r.integers(1, 3)), 3), -1, dtype=torch.int64)])
            faces.append(f.clone())
        return Meshes(verts=verts, faces=faces), Model(items)
    V = max([len(v) for v, _ in items])
    F = max([len(f) for _, f in items])
    vp = torch.zeros(len(items), V, 3)
    fp = torch.full((len(items), F, 3), -1, dtype=torch.int64)
    for i, (v, f) in enumerate(items):
        vp[i, : len(v)] = v
        fp[i, : len(f)] = f
    dt = torch.int32 if r.integers(0, 3) == 0 else torch.int64
    if F == 0:  # a padded batch without any face is an empty batch: it has no vertices either
        none = (torch.zeros(0, 3), torch.zeros(0, 3, dtype=torch.int64))
        return Meshes(verts=vp, faces=fp), Model([none] * len(items))
    return Meshes(verts=vp.clone(), faces=fp.to(dt)), Model([(vp[i], items[i][1]) for i in range(len(items))])


def apply(m, model, op, a, r):
    """Returns (new object, new model, source must be unchanged?)"""
    items = model.items
    N = len(items)
    tot = sum(len(v) for v, _ in items)
    nonempty = any(len(v) and len(f) for v, f in items)
    if op == "clone":
        return m.clone(), model.copy(), True
    if op == "detach":
        return m.detach(), model.copy(), True
    if op == "to":
        o = m.to("cpu")
        assert o is m, "to() without a change of device returns self"
        return m, model, False
    if op == "to_copy":
        return m.to(torch.device("cpu"), copy=True), model.copy(), True
    if op in ("offset_verts", "offset_verts_", "offset3_", "offset3"):
        if not nonempty:
            return m, model, False
        off = T(r, (3,) if op.startswith("offset3") else (tot, 3), "normal")
        full = off.expand(tot, 3)
        new, k = [], 0
        for v, f in items:
            new.append((v + full[k: k + len(v)], f))
            k += len(v)
        if op.endswith("_"):
            o = m.offset_verts_(off)
            assert o is m, "offset_verts_ returns self"
            return m, Model(new), False
        return m.offset_verts(off), Model(new), True
    if op.startswith("scale"):
        if not nonempty:
            return m, model, False
        per = op.startswith("scale_n")
        s = [float(x) for x in r.choice([0.5, 2.0, -1.0, 1.25, 3.0, -0.75, 0.0], N)]
        if not per:
            s = [s[0]] * N if N else []
        arg = torch.tensor(s) if per else (s[0] if s else 1.0)
        new = [(v * x, f) for (v, f), x in zip(items, s)]
        if op.endswith("_"):
            o = m.scale_verts_(arg)
            assert o is m, "scale_verts_ returns self"
            return m, Model(new), False
        return m.scale_verts(arg), Model(new), True
    if op == "update_padded":
        if not nonempty:
            return m, model, False
        V = max(len(v) for v, _ in items)
        x = T(r, (N, V, 3), "normal")
        for i, (v, _) in enumerate(items):
            x[i, len(v):] = 0
        new = [(x[i, : len(v)].clone(), f) for i, (v, f) in enumerate(items)]
        return m.update_padded(x), Model(new), True
    if op == "extend":
        k = 1 + a % 3
        return m.extend(k), Model([it for it in items for _ in range(k)]), True
    if op in ("getint", "getslice", "getlist", "getbool", "getlong"):
        if N == 0:
            return m, model, False
        if op == "getint":
            i = a % (2 * N) - N
            return m[i], Model([items[i]]), True
        if op == "getslice":
            lo, hi = sorted((a % (N + 1), (a // 7) % (N + 1)))
            sl = slice(lo, hi) if a % 2 else slice(None, None, 1 + a % 2)
            if not items[sl]:
                sl = slice(None)
            return m[sl], Model(items[sl]), True
        idx = [int(i) for i in r.integers(0, N, 1 + a % 4)]
        if op == "getbool":
            mask = [bool(x) for x in r.integers(0, 2, N)]
            if not any(mask):
                mask[a % N] = True
            return m[torch.tensor(mask)], Model([it for it, k in zip(items, mask) if k]), True
        if op == "getlong":
            return m[torch.tensor(idx)], Model([items[i] for i in idx]), True
        return m[idx], Model([items[i] for i in idx]), True
    if op == "split":
        if N < 2:
            return m, model, False
        k = 1 + a % (N - 1)
        parts = m.split([k, N - k])
        equal([len(p) for p in parts], [k, N - k], "split sizes")
        j = a % 2
        return parts[j], Model([items[:k], items[k:]][j]), True
    if op == "submeshes":
        new, ids = [], []
        for v, f in items:
            lst = []
            for _ in range(int(r.integers(0, 3))):
                if len(f) == 0:
                    continue
                sel = torch.from_numpy(r.permutation(len(f))[: 1 + int(r.integers(0, len(f)))].astype(np.int64))
                lst.append(sel)
                keep = sorted(set(f[sel].reshape(-1).tolist()))
                mp = {x: i for i, x in enumerate(keep)}
                nf = torch.tensor([[mp[x] for x in row] for row in f[sel].tolist()], dtype=torch.int64)
                new.append((v[keep], nf.reshape(-1, 3)))
            ids.append(lst)
        if not new:
            return m, model, False
        return m.submeshes(ids), Model(new), True
    if op == "join_batch":
        other = mesh_items(r, [(int(r.integers(3, 6)), int(r.integers(1, 4)))], "normal", False)
        om, omod = build(other, "list" if a % 2 else "padded", r)
        if a % 3 == 0:
            return join_meshes_as_batch([m, om, m]), Model(items + omod.items + items), True
        return join_meshes_as_batch([om, m]), Model(omod.items + items), True
    if op == "join_scene":
        if not nonempty:
            return m, model, False
        if N == 1:
            return join_meshes_as_scene(m), model.copy(), False
        off, fs = 0, []
        for v, f in items:
            fs.append(f + off)
            off += len(v)
        arg = m if a % 2 else [m[i] for i in range(N)]
        return join_meshes_as_scene(arg), Model([(torch.cat([v for v, _ in items]), torch.cat(fs))]), True
    raise KeyError(op)


SIZES = st.lists(st.tuples(ints(0, 7), ints(0, 8)).map(list), min_size=1, max_size=4)
CASE = d(seed=SEED, mode=one_of(*MODES), sizes=SIZES, how=one_of("list", "list", "padded"), equi=one_of(False, False, True),
         ops=st.lists(d(op=one_of(*OPS), a=ints(0, 60), touch=st.lists(one_of(*VIEWS), max_size=4)), max_size=6),
         touch=st.lists(one_of(*VIEWS), max_size=3))


@sub(CASE, quick=5000, thorough=120000)
def history(case, cx):
    r = rng(case["seed"])
    items = mesh_items(r, case["sizes"], case["mode"], case["equi"])
    how = case["how"]
    if how == "padded" and max(len(v) for v, _ in items) == 0:
        how = "list"
    m, model = build(items, how, r)
    for v in case["touch"]:
        check_view(m, model, v)
    touched = bool(case["touch"])
    nt = len({(len(v), len(f)) for v, f in items}) > 1
    ancestors = []
    for step in case["ops"]:
        for v in step["touch"]:
            check_view(m, model, v)
        touched = touched or bool(step["touch"])
        nt = nt or touched
        cx.label(step["op"])
        src, src_model = m, model.copy()
        m, model, source_same = apply(m, model, step["op"], step["a"], r)
        if sum(len(v) for v, _ in model.items) > 200 or len(model.items) > 24:
            break
        if source_same:
            for v in ("verts_packed", "verts_padded", "verts_list", "faces_list"):
                check_view(src, src_model, v)
        if m is not src:
            ancestors.append((src, src_model))
    for o, omod in ancestors:  # nothing done to a result reaches back to what it came from
        for v in ("verts_packed", "verts_padded", "verts_list", "faces_padded"):
            check_view(o, omod, v)
    for v in VIEWS:
        check_view(m, model, v)
    cx.trivial(not nt)


@sub(d(seed=SEED, sizes=SIZES, as_list=boolean(), bad=one_of("none", "rows", "dim")), quick=300, thorough=5000)
def given_normals(case, cx):
    """Vertex normals passed by the user are reported as given."""
    r = rng(case["seed"])
    items = [it for it in mesh_items(r, case["sizes"], "normal", False)]
    if not any(len(v) and len(f) for v, f in items):
        cx.trivial()
        return
    normals = [T(r, (len(v), 3)) for v, _ in items]
    nv = [len(v) for v, _ in items]
    pad = torch.zeros(len(items), max(nv), 3)
    for i, n in enumerate(normals):
        pad[i, : nv[i]] = n
    verts, faces = [v for v, _ in items], [f for _, f in items]
    m = Meshes(verts=verts, faces=faces, verts_normals=normals if case["as_list"] else pad)
    assert m.has_verts_normals()
    close(m.verts_normals_packed(), torch.cat(normals), 0, 0, "given verts_normals packed")
    close(m.verts_normals_padded(), pad, 0, 0, "given verts_normals padded")
    close(m.clone().verts_normals_packed(), torch.cat(normals), 0, 0, "given normals after clone")
    if case["bad"] != "none":
        bad = [torch.cat([n, n[:1] if len(n) else torch.zeros(1, 3)]) for n in normals] if case["bad"] == "rows" \
            else [n[:, :2] for n in normals]
        try:
            Meshes(verts=verts, faces=faces, verts_normals=bad)
        except ValueError:
            return
        raise AssertionError("vertex normals of the wrong shape accepted")
