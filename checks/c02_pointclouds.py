"""C02: every view of a Pointclouds batch describes the same clouds, after any history."""
import numpy as np
import torch
from hypothesis import strategies as st

from pytorch3d.structures import Pointclouds, join_pointclouds_as_batch, join_pointclouds_as_scene
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, ints, one_of, raises, rng, MODES

PROP = "C02"
RULE = ("Random batches of 1-4 clouds (0-7 points, optional normals and 1-4 feature channels, each given "
        "as list or padded) followed by 0-6 operations with random views read in between; a plain list "
        "of (points, normals, features) is the model. Non-trivial: an operation after a view was read, "
        "or clouds of different sizes.")

VIEWS = ["points_list", "points_padded", "points_packed", "normals_list", "normals_padded", "normals_packed",
         "features_list", "features_padded", "features_packed", "padded_to_packed_idx", "get_cloud"]
OPS = ["clone", "detach", "offset", "offset_", "offset3", "offset3_", "scale", "scale_", "scale_n", "scale_n_",
       "update_padded", "update_padded_n", "update_padded_f", "update_padded_nf", "extend", "getint", "getslice",
       "getlist", "getbool", "getlong", "split", "join_batch", "join_scene", "to", "to_copy", "subsample",
       "inside_box", "bbox"]


def aux(model, k):
    """None if the batch has no such field."""
    return None if any(it[k] is None for it in model) else [it[k] for it in model]


def check_view(pc, model, view):
    N = len(model)
    n = [len(p) for p, _, _ in model]
    equal(len(pc), N, "len")
    equal(pc.num_points_per_cloud(), torch.tensor(n, dtype=torch.int64), "num_points_per_cloud")
    equal(bool(pc.isempty()), not any(n), "isempty")
    if not any(n):
        equal(len(pc.points_list()), N, "points_list length")
        equal(tuple(pc.points_packed().shape), (0, 3), "points_packed of an empty batch")
        equal(pc.points_padded().numel(), 0, "points_padded of an empty batch")
        return
    P = max(n)
    off = np.concatenate([[0], np.cumsum(n)]).astype(int)
    equal(pc.valid, torch.tensor([x > 0 for x in n]), "valid")
    names = ["points", "normals", "features"]
    kind, _, what = view.partition("_")
    if kind in names:
        k = names.index(kind)
        got = getattr(pc, view)()
        want = aux(model, k)
        if want is None:
            assert got is None, f"{view}: {got} for a batch without {kind}"
            return
        assert got is not None, f"{view} is None for a batch that has {kind}"
        C = want[0].shape[1]
        if what == "list":
            equal(len(got), N, f"{view} length")
            for i in range(N):
                close(got[i], want[i], 1e-5, 1e-5, f"{view}[{i}]")
        elif what == "padded":
            w = torch.zeros(N, P, C)
            for i in range(N):
                w[i, : n[i]] = want[i]
            close(got, w, 1e-5, 1e-5, view)
        else:
            close(got, torch.cat(want), 1e-5, 1e-5, view)
            if k == 0:
                equal(pc.packed_to_cloud_idx(), torch.tensor([i for i in range(N) for _ in range(n[i])]),
                      "packed_to_cloud_idx")
                equal(pc.cloud_to_packed_first_idx(), torch.tensor(off[:-1]), "cloud_to_packed_first_idx")
    elif view == "padded_to_packed_idx":
        equal(pc.padded_to_packed_idx(), torch.tensor([i * P + j for i in range(N) for j in range(n[i])]), view)
    else:
        for i in range(N):
            for k, g in enumerate(pc.get_cloud(i)):
                if aux(model, k) is None:
                    assert g is None
                else:
                    close(g, model[i][k], 1e-5, 1e-5, f"get_cloud({i})")


def pad(xs, P):
    out = torch.zeros(len(xs), P, xs[0].shape[1])
    for i, x in enumerate(xs):
        out[i, : len(x)] = x
    return out


def build(r, case):
    N = len(case["sizes"])
    n = [case["sizes"][0]] * N if case["equi"] or case["how"] == "padded" else case["sizes"]
    C = case["C"]
    model = []
    for k in n:
        model.append((T(r, (k, 3), case["mode"]), T(r, (k, 3)) if case["normals"] else None,
                      T(r, (k, C)) if case["features"] else None))
    P = max(n)
    if P == 0:
        case = dict(case, how="list")

    def give(k, how):
        if model[0][k] is None:
            return None
        xs = [it[k].clone() for it in model]
        if how == "padded":
            return pad(xs, P)
        if case["odd_empty"]:  # empty clouds may carry any empty tensor
            xs = [torch.zeros(0) if len(x) == 0 and any(n) else x for x in xs]
        return xs
    pts = pad([it[0] for it in model], P) if case["how"] == "padded" else [it[0].clone() for it in model]
    pc = Pointclouds(pts, normals=give(1, case["how_n"]), features=give(2, case["how_f"]))
    if not any(n):
        model = [(p, None, None) for p, _, _ in model]
    return pc, model


def same_rows(got, cand, what):
    """got is a sub-multiset of rows of cand (rows are tuples)."""
    pool = [tuple(x) for x in cand.tolist()]
    for row in got.tolist():
        assert tuple(row) in pool, f"{what}: {row} is not one of the points"
        pool.remove(tuple(row))


def apply(pc, model, op, a, r):
    N = len(model)
    n = [len(p) for p, _, _ in model]
    tot, P = sum(n), max(n)
    has_n, has_f = aux(model, 1) is not None, aux(model, 2) is not None
    if op == "clone":
        return pc.clone(), list(model)
    if op == "detach":
        return pc.detach(), list(model)
    if op == "to":
        assert pc.to("cpu") is pc
        return pc, model
    if op == "to_copy":
        return pc.to("cpu", copy=True), list(model)
    if op.startswith("getint"):
        i = a % (2 * N) - N
        return pc[i], [model[i]]
    if op == "getslice":
        lo, hi = sorted((a % (N + 1), (a // 7) % (N + 1)))
        sl = slice(lo, hi) if a % 2 else slice(None, None, 1 + (a // 2) % 2)
        if not model[sl]:
            sl = slice(None)
        return pc[sl], model[sl]
    if op in ("getlist", "getlong"):
        idx = [int(i) for i in r.integers(0, N, 1 + a % 4)]
        return pc[torch.tensor(idx) if op == "getlong" else idx], [model[i] for i in idx]
    if op == "getbool":
        mask = [bool(x) for x in r.integers(0, 2, N)]
        mask[a % N] = True
        return pc[torch.tensor(mask)], [it for it, k in zip(model, mask) if k]
    if op == "extend":
        k = 1 + a % 3
        return pc.extend(k), [it for it in model for _ in range(k)]
    if op == "split":
        if N < 2:
            return pc, model
        k = 1 + a % (N - 1)
        parts = pc.split([k, N - k])
        equal([len(p) for p in parts], [k, N - k], "split sizes")
        return parts[a % 2], [model[:k], model[k:]][a % 2]
    if tot == 0:
        return pc, model
    if op.startswith("offset"):
        off = T(r, (3,) if op.startswith("offset3") else (tot, 3))
        full, new, k = off.expand(tot, 3), [], 0
        for p, nn, f in model:
            new.append((p + full[k: k + len(p)], nn, f))
            k += len(p)
        if op.endswith("_"):
            assert pc.offset_(off) is pc
            return pc, new
        return pc.offset(off), new
    if op.startswith("scale"):
        s = [float(x) for x in r.choice([0.5, 2.0, -1.0, 1.25, 3.0, 0.0], N)]
        if not op.startswith("scale_n"):
            s = [s[0]] * N
        arg = torch.tensor(s) if op.startswith("scale_n") else s[0]
        new = [(p * x, nn, f) for (p, nn, f), x in zip(model, s)]
        if op.endswith("_"):
            assert pc.scale_(arg) is pc
            return pc, new
        return pc.scale(arg), new
    if op.startswith("update_padded"):
        which = op[len("update_padded"):]
        pts = [T(r, (k, 3)) for k in n]
        kw, nn, ff = {}, [it[1] for it in model], [it[2] for it in model]
        if "n" in which:
            nn = [T(r, (k, 3)) for k in n]
            kw["new_normals_padded"] = pad(nn, P)
        if "f" in which:
            C = model[0][2].shape[1] if has_f else None
            if C is None:
                C = 1 + a % 3
            ff = [T(r, (k, C)) for k in n]
            kw["new_features_padded"] = pad(ff, P)
        return pc.update_padded(pad(pts, P), **kw), list(zip(pts, nn, ff))
    if op == "join_batch":
        m = 1 + a % 4
        other = [(T(r, (m, 3)), T(r, (m, 3)) if has_n else None,
                  T(r, (m, model[0][2].shape[1])) if has_f else None)]
        o = Pointclouds([other[0][0]], normals=[other[0][1]] if has_n else None,
                        features=[other[0][2]] if has_f else None)
        if a % 3 == 0:
            return join_pointclouds_as_batch([o, pc, o]), other + list(model) + other
        return join_pointclouds_as_batch([pc, o]), list(model) + other
    if op == "join_scene":
        new = [tuple(None if aux(model, k) is None else torch.cat(aux(model, k)) for k in range(3))]
        arg = pc if a % 2 else [pc[i] for i in range(N)]
        return join_pointclouds_as_scene(arg), new
    if op == "subsample":
        caps = [int(x) for x in r.integers(0, 6, N)]
        if a % 2:
            caps = [max(1, caps[0])] * N
        out = pc.subsample(caps[0] if a % 2 else caps)
        if all(x <= c for x, c in zip(n, caps)):
            assert out is pc, "subsample without anything to do returns self"
            return pc, model
        new = []
        for i in range(N):
            g = out.get_cloud(i)
            equal(len(g[0]), min(n[i], caps[i]), "size of a subsampled cloud")
            # rows of all fields are kept together
            allf = lambda it: torch.cat([x for x in it if x is not None], 1) if len(it[0]) else torch.zeros(0, 1)
            if sum(min(x, c) for x, c in zip(n, caps)) > 0:
                if len(g[0]):
                    same_rows(allf(g), allf(model[i]), "subsample")
                if n[i] <= caps[i]:
                    equal(g[0].reshape(-1, 3), model[i][0], "cloud below the limit unchanged")
            new.append(tuple(None if x is None else x.clone() for x in g))
        if sum(len(x[0]) for x in new) == 0:
            new = [(p, None, None) for p, _, _ in new]
        return out, new
    if op == "inside_box":
        per = a % 2
        lo = T(r, (N if per else 1, 3), "half")
        box = torch.stack([lo, lo + T(r, lo.shape, "half").abs()], 1)
        arg = box if per or a % 3 else box[0]
        want = torch.cat([((p >= box[i if per else 0, 0]) & (p <= box[i if per else 0, 1])).all(1)
                          for i, (p, _, _) in enumerate(model)])
        pts = pc.points_packed()
        exact = (pts - torch.cat([it[0] for it in model])).abs().max() == 0
        got = pc.inside_box(arg)
        if exact:
            equal(got, want, "inside_box")
        raises(lambda: pc.inside_box(torch.flip(box + torch.tensor([[0.0], [1.0]]), [1])), ValueError, what="inverted box")
        return pc, model
    if op == "bbox":
        if all(n):
            want = torch.stack([torch.stack([p.min(0)[0], p.max(0)[0]], 1) for p, _, _ in model])
            close(pc.get_bounding_boxes(), want, 1e-5, 1e-5, "get_bounding_boxes")
        return pc, model
    raise KeyError(op)


CASE = d(seed=SEED, mode=one_of(*MODES), sizes=st.lists(ints(0, 7), min_size=1, max_size=4), C=ints(1, 4),
         how=one_of("list", "list", "padded"), how_n=one_of("list", "padded"), how_f=one_of("list", "padded"),
         normals=boolean(), features=boolean(), equi=one_of(False, False, True), odd_empty=one_of(False, False, True),
         ops=st.lists(d(op=one_of(*OPS), a=ints(0, 60), touch=st.lists(one_of(*VIEWS), max_size=3)), max_size=6),
         touch=st.lists(one_of(*VIEWS), max_size=3))


@sub(CASE, quick=5000, thorough=150000)
def history(case, cx):
    r = rng(case["seed"])
    pc, model = build(r, case)
    cx.label(case["how"] + "/" + case["how_n"])
    for v in case["touch"]:
        check_view(pc, model, v)
    touched = bool(case["touch"])
    nt = len({len(p) for p, _, _ in model}) > 1
    ancestors = []
    for step in case["ops"]:
        for v in step["touch"]:
            check_view(pc, model, v)
        touched |= bool(step["touch"])
        nt |= touched
        src, src_model = pc, list(model)
        pc, model = apply(pc, model, step["op"], step["a"], r)
        cx.label(step["op"])
        if len(model) > 24 or sum(len(p) for p, _, _ in model) > 200:
            break
        if pc is not src:
            ancestors.append((src, src_model))
    for o, omod in ancestors:
        for v in ("points_packed", "points_padded", "points_list", "normals_packed", "features_padded"):
            check_view(o, omod, v)
    for v in VIEWS:
        check_view(pc, model, v)
    cx.trivial(not nt)


@sub(d(seed=SEED, sizes=st.lists(ints(0, 6), min_size=1, max_size=3),
       bad=one_of("normal_rows", "feat_rows", "feat_C", "normal_dim", "points_dim", "batch", "padded_P", "type")),
     quick=300, thorough=5000)
def rejected(case, cx):
    """Inconsistent input is refused with ValueError."""
    r = rng(case["seed"])
    n = [k + 1 for k in case["sizes"]]
    pts = [T(r, (k, 3)) for k in n]
    nrm, feat = [T(r, (k, 3)) for k in n], [T(r, (k, 2)) for k in n]
    bad = case["bad"]
    i = case["seed"] % len(n)
    if bad == "normal_rows":
        nrm[i] = T(r, (n[i] + 1, 3))
    elif bad == "feat_rows":
        feat[i] = T(r, (n[i] - 1, 2))
    elif bad == "feat_C":
        if len(n) < 2:
            return cx.trivial()
        feat[i] = T(r, (n[i], 3))
    elif bad == "normal_dim":
        nrm = [x[:, :2] for x in nrm]
    elif bad == "points_dim":
        pts[i] = T(r, (n[i], 2))
    elif bad == "batch":
        feat = feat + [feat[0]]
    elif bad == "padded_P":
        feat = T(r, (len(n), max(n) + 1, 2))
    else:
        pts = tuple(pts)
    raises(lambda: Pointclouds(pts, normals=nrm, features=feat), ValueError, what=bad)
