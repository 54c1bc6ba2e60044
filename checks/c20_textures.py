"""C20: textures give every pixel the colour its mesh and face define, through every batching operation."""
import numpy as np
import torch

from pytorch3d.renderer.mesh.rasterizer import Fragments
from pytorch3d.renderer.mesh.textures import Textures, TexturesAtlas, TexturesUV, TexturesVertex
from pytorch3d.renderer.mesh.utils import Rectangle, pack_rectangles, pack_unique_rectangles
from pytorch3d.structures import Meshes, join_meshes_as_batch, join_meshes_as_scene
from vlib.core import sub
from vlib.gen import SEED, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C20"
RULE = ("Batches of 1-4 meshes with different numbers of vertices and faces; per-vertex features, UV maps (one or several per "
        "mesh, every padding, sampling and alignment mode), atlases, given as lists or padded; fragments naming random "
        "faces of the right mesh at random barycentric coordinates, or no face. Oracle: the colour of each fragment "
        "computed in float64 from the mesh's own data. Non-trivial: some fragment names a face.")


def lookup(img, uv, align, pad, mode):
    """Colour of img (H, W, C) at uv; None where the answer is ambiguous (nearest at a tie)."""
    H, W, C = img.shape
    x, y = (uv[0] * (W - 1), (1 - uv[1]) * (H - 1)) if align else (uv[0] * W - 0.5, (1 - uv[1]) * H - 0.5)
    if pad == "border":
        x, y = min(max(x, 0), W - 1), min(max(y, 0), H - 1)

    def px(i, j):
        return img[i, j] if 0 <= i < H and 0 <= j < W else np.zeros(C)

    if mode == "nearest":
        for t in (x, y):
            if abs(t - np.floor(t) - 0.5) < 1e-3:
                return None
        return px(int(np.rint(y)), int(np.rint(x)))
    j, i = int(np.floor(x)), int(np.floor(y))
    a, b = x - j, y - i
    return (1 - a) * (1 - b) * px(i, j) + a * (1 - b) * px(i, j + 1) + (1 - a) * b * px(i + 1, j) + a * b * px(i + 1, j + 1)


def atlas_cell(at, w0, w1):
    """at (R, R, C): the R*R small triangles of the face, two per grid cell."""
    R = at.shape[0]
    x, y = w0 * R, w1 * R
    for t in (x, y, x + y):
        if abs(t - round(t)) < 2e-4:
            return None
    i, j = min(int(x), R - 1), min(int(y), R - 1)
    if x - i + y - j > 1:
        i, j = R - 1 - i, R - 1 - j
    return at[j, i]


class Scene:
    """Plain data of a batch and the colour it defines."""

    def __init__(self, r, kind, N, opts):
        self.kind, self.N, self.o = kind, N, opts
        self.V = [int(r.integers(3, 7)) for _ in range(N)]
        self.F = [int(r.integers(1, 6)) for _ in range(N)]
        if opts.get("same"):
            self.V, self.F = [self.V[0]] * N, [self.F[0]] * N
        self.C = C = int(r.integers(1, 5))
        self.verts = [r.standard_normal((v, 3)).astype(np.float32) for v in self.V]
        self.faces = [np.stack([r.permutation(v)[:3] for _ in range(f)]) for v, f in zip(self.V, self.F)]
        f4 = lambda *s: r.random(s).astype(np.float32)
        if kind == "vertex":
            self.data = [dict(feat=f4(v, C)) for v in self.V]
        elif kind == "atlas":
            R = int(r.integers(1, 5))
            self.data = [dict(atlas=f4(f, R, R, C)) for f in self.F]
        else:
            H, W, M = (int(v) for v in r.integers(1, 6, 3))
            lo, hi = (-0.4, 1.4) if opts.get("outside") else (0, 1)
            self.data = []
            for n in range(N):
                nv = int(r.integers(3, 8)) if not opts.get("same") else 5
                uv = r.uniform(lo, hi, (nv, 2)).astype(np.float32)
                if opts.get("corners"):
                    uv = r.integers(0, 2, (nv, 2)).astype(np.float32)
                e = dict(uv=uv, fuv=r.integers(0, nv, (self.F[n], 3)))
                if kind == "uvm":
                    e.update(map=f4(M, H, W, C), ids=r.integers(0, M, self.F[n]))
                else:
                    e.update(map=f4(H, W, C) if opts.get("same_size", True) else f4(*r.integers(1, 6, 2), C))
                self.data.append(e)

    def texture(self, r, form):
        t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
        pad = lambda xs: torch.nn.utils.rnn.pad_sequence([t(x) for x in xs], batch_first=True)
        give = pad if form == "padded" else lambda xs: [t(x) for x in xs]
        if form == "tuple":
            give = lambda xs: tuple(t(x) for x in xs)
        D = self.data
        if self.kind == "vertex":
            f = give([e["feat"] for e in D])
            return TexturesVertex(f) if r.random() < 0.8 else Textures(verts_rgb=f)
        if self.kind == "atlas":
            return TexturesAtlas(give([e["atlas"] for e in D]))
        kw = {k: self.o[k] for k in ("align_corners", "padding_mode", "sampling_mode") if k in self.o}
        if self.kind == "uvm":
            kw["maps_ids"] = give([e["ids"] for e in D])
        maps = [t(e["map"]) for e in D]
        if form == "padded":
            maps = torch.stack(maps)
        fuv, uv = give([e["fuv"] for e in D]), give([e["uv"] for e in D])
        if kw == {k: v for k, v in dict(align_corners=True, padding_mode="border", sampling_mode="bilinear").items() if k in kw} and r.random() < 0.5:
            return Textures(maps, fuv, uv)
        return TexturesUV(maps=maps, faces_uvs=fuv, verts_uvs=uv, **kw)

    def meshes(self, r, form="list"):
        t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
        return Meshes([t(v) for v in self.verts], [t(f) for f in self.faces], self.texture(r, form))

    def colour(self, n, f, w):
        e = self.data[n]
        if self.kind == "vertex":
            return (w[:, None] * e["feat"][self.faces[n][f]].astype(np.float64)).sum(0)
        if self.kind == "atlas":
            return atlas_cell(e["atlas"][f].astype(np.float64), w[0], w[1])
        uv = (w[:, None] * e["uv"][e["fuv"][f]].astype(np.float64)).sum(0)
        img = e["map"][e["ids"][f]] if self.kind == "uvm" else e["map"]
        o = self.o
        return lookup(img.astype(np.float64), uv, o.get("align_corners", True), o.get("padding_mode", "border"), o.get("sampling_mode", "bilinear"))


def fragments(r, groups, H=2, W=3, K=2, vertices=False):
    """groups: for each image, a list of (first packed face, number of faces, tag).  Returns Fragments and the choices."""
    N = len(groups)
    p2f = np.full((N, H, W, K), -1)
    bary = np.full((N, H, W, K, 3), -1.0)
    what = {}
    for n, g in enumerate(groups):
        flat = [(first + j, tag, j) for first, k, tag in g for j in range(k)]
        for y in range(H):
            for x in range(W):
                for k in range(int(r.integers(0, K + 1))):
                    if not flat:
                        continue
                    i, tag, j = flat[int(r.integers(0, len(flat)))]
                    w = r.dirichlet([1, 1, 1])
                    if vertices or r.random() < 0.1:
                        w = np.eye(3)[int(r.integers(0, 3))]
                    w = w.astype(np.float32)
                    p2f[n, y, x, k], bary[n, y, x, k] = i, w
                    what[n, y, x, k] = (tag, j, w.astype(np.float64))
    t = lambda a: torch.from_numpy(a).float()
    z = np.zeros(p2f.shape)
    return Fragments(torch.from_numpy(p2f), t(z), t(bary), t(z)), what


def check(scene, meshes, groups, r, cx, what="", tol=2e-5, C=None):
    frag, choices = fragments(r, groups)
    tex = meshes.sample_textures(frag)
    assert tex.shape == (*frag.pix_to_face.shape, scene.C), f"{what}: texels of shape {tuple(tex.shape)}"
    assert bool(torch.isfinite(tex).all()), f"{what}: texels are not finite"
    n_ok = 0
    for (n, y, x, k), (m, j, w) in choices.items():
        want = scene.colour(m, j, w)
        if want is None:
            continue
        n_ok += 1
        got = tex[n, y, x, k].numpy()
        assert np.abs(got - want).max() <= tol, f"{what}: image {n}, face {j} of mesh {m} at {w.tolist()}: {got} instead of {want}"
    if scene.kind in ("vertex", "atlas"):
        # nothing where there is no face
        empty = frag.pix_to_face < 0
        assert bool((tex[empty] == 0).all()), f"{what}: colour without a face"
    return n_ok


def plain_groups(scene, order=None):
    off, out = 0, []
    for m in (range(scene.N) if order is None else order):
        out.append([(off, scene.F[m], m)])
        off += scene.F[m]
    return out


OPT = dict(align=boolean(), pad=one_of("border", "zeros", "default"), mode=one_of("bilinear", "bilinear", "nearest"), outside=boolean())


def options(case, **kw):
    o = dict(kw)
    o["align_corners"] = case["align"]
    if case["pad"] != "default":
        o["padding_mode"] = case["pad"]
    o["sampling_mode"] = case["mode"]
    o["outside"] = case["outside"]
    return o


KIND = one_of("vertex", "uv", "uv", "uvm", "atlas")


@sub(d(seed=SEED, kind=KIND, N=ints(1, 4), form=one_of("list", "tuple", "padded"), **OPT), quick=700, thorough=25000)
def sampling(case, cx):
    r = rng(case["seed"])
    s = Scene(r, case["kind"], case["N"], options(case))
    m = s.meshes(r, case["form"])
    cx.label(case["kind"])
    n = check(s, m, plain_groups(s), r, cx, "sampling")
    cx.trivial(n == 0)
    # the colours at the corners of every face
    faces = m.faces_packed()
    fv = m.textures.faces_verts_textures_packed(faces) if case["kind"] == "vertex" else m.textures.faces_verts_textures_packed()
    assert fv.shape == (sum(s.F), 3, s.C), f"faces_verts_textures_packed of shape {tuple(fv.shape)}"
    i = 0
    for b in range(s.N):
        for f in range(s.F[b]):
            for c in range(3):
                if s.kind == "atlas":
                    a = s.data[b]["atlas"][f]
                    want = (a[0, -1], a[-1, 0], a[0, 0])[c]
                else:
                    want = s.colour(b, f, np.eye(3)[c])
                if want is not None:
                    e = np.abs(fv[i, c].numpy() - want).max()
                    assert e <= 2e-5, f"corner {c} of face {f} of mesh {b}: {fv[i, c].numpy()} instead of {want}"
            i += 1


@sub(d(seed=SEED, N=ints(1, 4), kind=one_of("vertex", "uv", "uvm", "atlas"), align=boolean()), quick=250, thorough=8000)
def gradients(case, cx):
    """Texels are differentiable with respect to what defines them."""
    r = rng(case["seed"])
    s = Scene(r, case["kind"], case["N"], dict(align_corners=case["align"]))
    key = {"vertex": "feat", "uv": "map", "uvm": "map", "atlas": "atlas"}[case["kind"]]
    leaves = [torch.from_numpy(e[key]).clone().requires_grad_() for e in s.data]
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
    if s.kind == "vertex":
        tex = TexturesVertex(leaves)
    elif s.kind == "atlas":
        tex = TexturesAtlas(leaves)
    else:
        kw = dict(maps_ids=[t(e["ids"]) for e in s.data]) if s.kind == "uvm" else {}
        tex = TexturesUV(leaves, [t(e["fuv"]) for e in s.data], [t(e["uv"]) for e in s.data], align_corners=case["align"], **kw)
    m = Meshes([t(v) for v in s.verts], [t(f) for f in s.faces], tex)
    frag, choices = fragments(r, plain_groups(s))
    out = m.sample_textures(frag)
    choices = {k: v for k, v in choices.items() if s.colour(*v) is not None}
    cx.trivial(not choices)
    g = torch.zeros_like(out)
    for k in choices:
        g[k] = torch.from_numpy(r.standard_normal(s.C)).float()
    got = torch.autograd.grad((out * g).sum(), leaves, allow_unused=True)
    # the colour is linear in the data: the derivative along a random direction is the colour of that direction
    base = [e[key] for e in s.data]
    dirs = [r.standard_normal(b.shape) for b in base]
    for e, dr in zip(s.data, dirs):
        e[key] = dr
    want = sum(float((g[k].numpy() * s.colour(*v)).sum()) for k, v in choices.items())
    have = sum(float((a.double().numpy() * dr).sum()) for a, dr in zip(got, dirs) if a is not None)
    mag = sum(float(np.abs(g[k].numpy()).sum()) for k in choices) * 10 + 1
    assert abs(want - have) <= 2e-4 * mag, f"derivative {have} instead of {want}"


@sub(d(seed=SEED, kind=KIND, N=ints(1, 4), form=one_of("list", "padded"), op=one_of("clone", "detach", "to", "extend", "int", "slice", "list", "tensor", "bool", "batch", "sub",
       "update", "split", "offset"), **OPT), quick=900, thorough=30000)
def batching(case, cx):
    r = rng(case["seed"])
    op, kind = case["op"], case["kind"]
    o = options(case)
    s = Scene(r, kind, case["N"], o)
    m = s.meshes(r, case["form"])
    cx.label(op)
    N = s.N
    if r.random() < 0.5:
        # use (and cache) something first
        check(s, m, plain_groups(s), r, cx, "before")
    if op in ("clone", "detach", "to", "update", "offset"):
        if op == "clone":
            m2 = m.clone()
        elif op == "detach":
            m2 = m.detach()
        elif op == "to":
            m2 = m.to("cpu")
        elif op == "offset":
            m2 = m.offset_verts(torch.ones(sum(s.V), 3))
        else:
            m2 = m.update_padded(m.verts_padded() + 1)
        n = check(s, m2, plain_groups(s), r, cx, op)
    elif op == "extend":
        k = int(r.integers(1, 4))
        m2 = m.extend(k)
        n = check(s, m2, plain_groups(s, [i for i in range(N) for _ in range(k)]), r, cx, op)
    elif op in ("int", "slice", "list", "tensor", "bool"):
        if op == "int":
            i = int(r.integers(0, N))
            ix, order = i, [i]
        elif op == "slice":
            a = int(r.integers(0, N))
            b = int(r.integers(a + 1, N + 1))
            ix, order = slice(a, b), list(range(a, b))
        elif op == "bool":
            mask = r.random(N) < 0.6
            mask[int(r.integers(0, N))] = True
            ix, order = torch.from_numpy(mask), np.nonzero(mask)[0].tolist()
        else:
            order = r.integers(0, N, int(r.integers(1, 5))).tolist()
            ix = order if op == "list" else torch.tensor(order)
        m2 = m[ix]
        n = check(s, m2, plain_groups(s, order), r, cx, f"index {op}")
    elif op == "split":
        cut = int(r.integers(0, N + 1))
        parts = m.split([x for x in (cut, N - cut) if x])
        n, a = 0, 0
        for p in parts:
            n += check(s, p, plain_groups(s, list(range(a, a + len(p)))), r, cx, op)
            a += len(p)
    elif op == "batch":
        if kind == "uvm":
            raises(lambda: join_meshes_as_batch([m, m]), NotImplementedError, what="join of several maps")
            cx.trivial()
            return
        cut = int(r.integers(0, N + 1))
        parts = [p for p in (m[:cut] if cut else None, m[cut:] if cut < N else None, m) if p is not None]
        m2 = join_meshes_as_batch(parts)
        n = check(s, m2, plain_groups(s, list(range(N)) * 2), r, cx, op)
        # the parts are as before
        check(s, m, plain_groups(s), r, cx, "joined mesh")
    else:
        if kind == "uvm":
            raises(lambda: m.submeshes([[torch.tensor([0])] for _ in range(N)]), NotImplementedError, what="submeshes of several maps")
            cx.trivial()
            return
        which = [[r.permutation(s.F[b])[:int(r.integers(1, s.F[b] + 1))] for _ in range(int(r.integers(0, 3)))] for b in range(N)]
        if not any(which):
            which[0] = [np.arange(s.F[0])]
        m2 = m.submeshes([[torch.from_numpy(f) for f in w] for w in which])
        s2 = Scene(r, kind, 1, o)
        s2.C, s2.data, s2.faces, s2.F, s2.N = s.C, [], [], [], 0
        for b, w in enumerate(which):
            for f in w:
                e = dict(s.data[b])
                if kind == "atlas":
                    e["atlas"] = e["atlas"][f]
                elif kind == "uv":
                    e["fuv"] = e["fuv"][f]
                s2.data.append(e)
                s2.faces.append(s.faces[b][f])
                s2.F.append(len(f))
                s2.N += 1
        n = check(s2, m2, plain_groups(s2), r, cx, op)
    cx.trivial(n == 0)


@sub(d(seed=SEED, kind=KIND, N=ints(1, 3), form=one_of("list", "tuple", "padded"), n=ints(2, 7), **OPT), quick=300, thorough=15000)
def history(case, cx):
    """Many operations over a pool of batches: afterwards every batch of the pool still shows its own colours."""
    r = rng(case["seed"])
    kind = case["kind"]
    s = Scene(r, kind, case["N"], options(case))
    pool = [(s.meshes(r, case["form"]), list(range(s.N)))]
    ops = []
    for _ in range(case["n"]):
        m, order = pool[int(r.integers(0, len(pool)))]
        op = str(r.choice(["clone", "detach", "extend", "index", "batch", "update", "offset", "split", "look"]))
        if op == "batch" and (kind == "uvm" or len(order) > 6):
            op = "index"
        if op == "extend" and len(order) > 6:
            op = "split"
        ops.append(op)
        if op == "clone":
            new = [(m.clone(), order)]
        elif op == "detach":
            new = [(m.detach(), order)]
        elif op == "update":
            new = [(m.update_padded(m.verts_padded() + 1), order)]
        elif op == "offset":
            new = [(m.offset_verts(torch.ones_like(m.verts_packed())), order)]
        elif op == "extend":
            new = [(m.extend(2), [i for i in order for _ in range(2)])]
        elif op == "index":
            ix = r.integers(0, len(order), int(r.integers(1, 4))).tolist()
            new = [(m[ix], [order[i] for i in ix])]
        elif op == "split":
            cut = int(r.integers(0, len(order) + 1))
            new = list(zip(m.split([x for x in (cut, len(order) - cut) if x]), [o for o in (order[:cut], order[cut:]) if o]))
        elif op == "batch":
            picks = [pool[int(i)] for i in r.integers(0, len(pool), int(r.integers(1, 3)))]
            picks = [q for q in picks if len(q[1]) <= 6]
            new = [(join_meshes_as_batch([m] + [q[0] for q in picks]), order + [i for q in picks for i in q[1]])]
        else:
            check(s, m, plain_groups(s, order), r, cx, "during")
            new = []
        pool.extend(new)
    cx.trivial(len(pool) < 3)
    for k, (m, order) in enumerate(pool):
        assert len(m) == len(order), "size of batch %d after %s" % (k, ops)
        check(s, m, plain_groups(s, order), r, cx, "batch %d after %s" % (k, ops))


@sub(d(seed=SEED, kind=one_of("vertex", "uv", "uv", "uv", "atlas"), N=ints(2, 4), share=boolean(), lst=boolean(), align=boolean(), pad=one_of("border", "default"),
       mode=one_of("bilinear"), corners=boolean()), quick=500, thorough=20000)
def scene(case, cx):
    """join_meshes_as_scene: one mesh on which every face looks as before."""
    r = rng(case["seed"])
    case = dict(case, outside=False)
    s = Scene(r, case["kind"], case["N"], options(case, same_size=not (case["kind"] == "uv" and case["lst"]), corners=case["corners"]))
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
    if case["kind"] == "uv" and case["lst"]:
        # maps of different sizes, joined without being resized to a common size first
        maps = [t(e["map"]) for e in s.data]
        if case["share"]:
            maps[-1] = maps[0]
            s.data[-1]["map"] = s.data[0]["map"]
        parts = []
        for n in range(s.N):
            tex = TexturesUV([maps[n]], [t(s.data[n]["fuv"])], [t(s.data[n]["uv"])], align_corners=case["align"])
            parts.append(Meshes([t(s.verts[n])], [t(s.faces[n])], tex))
        if len({tuple(x.shape) for x in maps}) > 1:
            # a batch resizes its maps, which is only exact where nothing is lost: join the maps themselves
            tex = TexturesUV(maps, [t(e["fuv"]) for e in s.data], [t(e["uv"]) for e in s.data], align_corners=case["align"])
            m2 = join_meshes_as_scene(Meshes([t(v) for v in s.verts], [t(f) for f in s.faces], tex))
        else:
            m2 = join_meshes_as_scene(parts)
        cx.label("several sizes")
    else:
        m = s.meshes(r)
        m2 = join_meshes_as_scene(m if r.random() < 0.5 else [m[i] for i in range(s.N)])
    assert len(m2) == 1, "one mesh"
    off, g = 0, []
    for n in range(s.N):
        g.append((off, s.F[n], n))
        off += s.F[n]
    n = check(s, m2, [g], r, cx, "scene", tol=2e-4)
    cx.trivial(n == 0)


@sub(d(seed=SEED, N=ints(2, 4), M=ints(0, 2)), quick=150, thorough=4000)
def resized(case, cx):
    """Maps of different sizes in one batch are resized to a common size: a map which varies linearly stays exact."""
    r = rng(case["seed"])
    N, M = case["N"], case["M"]
    s = Scene(r, "uv", N, dict(same_size=False))
    coef = []
    maps, ids = [], []
    for n in range(N):
        k = int(r.integers(1, M + 1)) if M else 1
        H, W = (int(v) for v in r.integers(2, 7, 2))
        c = r.uniform(-1, 1, (k, 3, s.C))
        u, v = np.linspace(0, 1, W)[None, :, None], 1 - np.linspace(0, 1, H)[:, None, None]
        im = np.stack([c[i, 0] + c[i, 1] * u + c[i, 2] * v for i in range(k)]).astype(np.float32)
        coef.append(c)
        maps.append(torch.from_numpy(im if M else im[0]))
        ids.append(torch.from_numpy(r.integers(0, k, s.F[n])))
    t = lambda a: torch.from_numpy(np.ascontiguousarray(a))
    kw = dict(maps_ids=ids) if M else {}
    tex = TexturesUV(maps, [t(e["fuv"]) for e in s.data], [t(e["uv"]) for e in s.data], **kw)
    m = Meshes([t(v) for v in s.verts], [t(f) for f in s.faces], tex)

    def colour(n, f, w):
        uv = (w[:, None] * s.data[n]["uv"][s.data[n]["fuv"][f]].astype(np.float64)).sum(0)
        c = coef[n][int(ids[n][f]) if M else 0]
        return c[0] + c[1] * uv[0] + c[2] * uv[1]

    s.colour = colour
    n = check(s, m, plain_groups(s), r, cx, "resized maps", tol=1e-4)
    cx.trivial(n == 0)


@sub(d(seed=SEED, n=ints(2, 40), big=one_of(3, 8, 60), ids=boolean(), shape=one_of("any", "square", "long")), quick=400, thorough=20000)
def packing(case, cx):
    """The layout behind joining UV maps: every rectangle inside the total size, no two overlapping, each identifier placed once."""
    r = rng(case["seed"])
    n = case["n"]
    size = r.integers(1, case["big"] + 1, (n, 2))
    if case["shape"] == "square":
        size[:, 1] = size[:, 0]
    elif case["shape"] == "long":
        size[:, 0] = 1 + size[:, 0] // 3
        flip = r.random(n) < 0.5
        size[flip] = size[flip][:, ::-1]
    if case["ids"]:
        ident = r.integers(0, max(1, n // int(r.integers(1, 4))), n)
        first = {}
        for i, k in enumerate(ident):
            size[i] = size[first.setdefault(int(k), i)]
        out = pack_unique_rectangles([Rectangle(int(a), int(b), int(k) + 100) for (a, b), k in zip(size, ident)])
    else:
        ident = np.arange(n)
        first = {i: i for i in range(n)}
        out = pack_rectangles([(int(a), int(b)) for a, b in size])
    TX, TY = out.total_size
    assert len(out.locations) == n, "one location for each rectangle"
    used = np.zeros((TX, TY), int)
    for i, loc in enumerate(out.locations):
        w, h = size[i][::-1] if loc.flipped else size[i]
        lead = first[int(ident[i])]
        assert bool(loc.is_first) == (lead == i), f"rectangle {i}: is_first is {loc.is_first}"
        if lead != i:
            assert tuple(loc)[:3] == tuple(out.locations[lead])[:3], f"rectangle {i} is not where the first of its identifier is"
            continue
        assert loc.x >= 0 and loc.y >= 0 and loc.x + w <= TX and loc.y + h <= TY, f"rectangle {i} ({w}x{h} at {loc}) leaves the total size {TX}x{TY}"
        used[loc.x : loc.x + w, loc.y : loc.y + h] += 1
    assert used.max() <= 1, f"rectangles overlap: {size.tolist()} at {out.locations}"
    uniq = np.array([size[i] for i in first.values()])
    # what the documented strategy uses at most: all of them stacked, lying down, above the longest
    if len(uniq) == 1:
        assert (TX, TY) == tuple(uniq[0]), "the size of the only rectangle"
    else:
        assert TX <= uniq.max() and TY <= uniq.min(1).sum(), f"total size {TX}x{TY}"
    cx.trivial(len(first) < 3)


@sub(d(seed=SEED, form=one_of("list", "padded"), align=boolean(), pad=one_of("border", "default")), quick=150, thorough=4000)
def centers(case, cx):
    """centers_for_image: the place in the map of each UV vertex."""
    r = rng(case["seed"])
    H, W = (int(v) for v in r.integers(1, 9, 2))
    uv = r.random((int(r.integers(1, 8)), 2)).astype(np.float32)
    if r.random() < 0.3:
        uv = np.rint(uv)
    t = torch.from_numpy
    m, f, u = t(r.random((H, W, 3)).astype(np.float32)), t(r.integers(0, len(uv), (2, 3))), t(uv)
    kw = {} if case["pad"] == "default" else dict(padding_mode=case["pad"])
    tex = TexturesUV([m], [f], [u], align_corners=case["align"], **kw) if case["form"] == "list" else TexturesUV(m[None], f[None], u[None], align_corners=case["align"], **kw)
    if case["align"]:
        want = np.stack([uv[:, 0] * (W - 1), (1 - uv[:, 1]) * (H - 1)], 1)
    else:
        want = np.clip(np.stack([uv[:, 0] * W - 0.5, (1 - uv[:, 1]) * H - 0.5], 1), 0, [W - 1, H - 1])
    close(tex.centers_for_image(0), want, 1e-4, what="centers")
