"""C04: conversions between list, padded and packed layouts lose nothing."""
import torch
from hypothesis import strategies as st

from pytorch3d.ops import packed_to_padded, padded_to_packed
from pytorch3d.structures import utils as U
from vlib.core import sub
from vlib.gen import SEED, T, boolean, close, d, equal, ints, one_of, raises, rng

PROP = "C04"
RULE = ("Random ragged lists (1-5 items of 0-6 rows, 1-3 trailing dimensions) through every conversion, checked "
        "element by element against Python slicing, and gradients against the adjoint copy. Non-trivial: at least "
        "two items of different length.")
LENS = st.lists(ints(0, 6), min_size=1, max_size=5)


@sub(d(seed=SEED, lens=LENS, K=ints(1, 4), padv=one_of(0.0, -1.0, 7.5), extra=ints(0, 2), dims=ints(1, 3), few=boolean()), quick=1200, thorough=30000)
def list_padded(case, cx):
    r = rng(case["seed"])
    lens, K = case["lens"], case["K"]
    cx.trivial(len(set(lens)) < 2)
    tails = [tuple(int(x) for x in r.integers(1, 4, case["dims"])) if case["dims"] > 1 else (K,) for _ in lens]
    x = [T(r, (n, *t)) for n, t in zip(lens, tails)]
    if case["few"]:  # values which equal the padding value
        x = [torch.where(torch.rand(y.shape) < 0.5, torch.tensor(case["padv"]), y) for y in x]
    big = [max([y.shape[k] for y in x]) for k in range(x[0].ndim)]
    bign = [max([y.shape[k] for y in x if len(y)] or [0]) for k in range(x[0].ndim)]
    if max(lens) > 0:
        for size in (None, [b + case["extra"] for b in big]):
            P = U.list_to_padded(x, size, case["padv"])
            want_size = bign if size is None else size
            equal(list(P.shape), [len(x)] + want_size, "padded shape")
            seen = torch.zeros_like(P, dtype=torch.bool)
            for i, y in enumerate(x):
                if not len(y):
                    continue
                sl = (i, *(slice(0, s) for s in y.shape))
                equal(P[sl], y, "list_to_padded content")
                seen[sl] = True
            equal(P[~seen], torch.full_like(P[~seen], case["padv"]), "padding value")
            back = U.padded_to_list(P, [list(y.shape) if len(y) else [0] * y.ndim for y in x])
            for a, b in zip(back, x):
                if len(b):
                    equal(a, b, "padded_to_list")
                else:
                    equal(a.numel(), 0, "padded_to_list of an empty item")
            first = U.padded_to_list(P, [len(y) for y in x])
            for i, (a, b) in enumerate(zip(first, x)):
                equal(a, P[i, : len(b)], "padded_to_list by length")
            equal(torch.stack(U.padded_to_list(P)), P, "padded_to_list without sizes")
    else:
        P = U.list_to_padded(x, None, case["padv"])
        equal(list(P.shape), [len(x)] + big, "padded shape of empty items")
    if case["dims"] == 1:
        packed, num, first, idx = U.list_to_packed(x)
        equal(packed, torch.cat(x), "list_to_packed")
        equal(num, torch.tensor(lens), "num_items")
        equal(first, torch.tensor([sum(lens[:i]) for i in range(len(lens))]), "first index")
        equal(idx, torch.tensor([i for i, n in enumerate(lens) for _ in range(n)], dtype=torch.int64), "item of each row")
        for a, b in zip(U.packed_to_list(packed, lens), x):
            equal(a, b, "packed_to_list")
        M = max(lens)
        P = torch.full((len(x), M, K), case["padv"])
        for i, y in enumerate(x):
            P[i, : len(y)] = y
        equal(U.padded_to_packed(P), P.reshape(-1, K), "padded_to_packed")
        equal(U.padded_to_packed(P, split_size=lens), packed, "padded_to_packed by size")
        keep = packed[(packed != case["padv"]).any(1)]
        equal(U.padded_to_packed(P, pad_value=case["padv"]), keep, "padded_to_packed by value")
        raises(lambda: U.padded_to_packed(P, split_size=lens, pad_value=0.0), ValueError, what="both")
        raises(lambda: U.padded_to_packed(P, split_size=lens + [1]), ValueError, what="wrong batch")
        raises(lambda: U.padded_to_list(P, lens + [1]), ValueError, what="wrong batch")


@sub(d(seed=SEED, lens=LENS, tail=st.lists(one_of(1, 1, 2, 2, 3, 3, 0), max_size=2), extra=ints(0, 2), noncontig=boolean()), quick=1200, thorough=30000)
def ops(case, cx):
    """packed_to_padded / padded_to_packed and their gradients."""
    r = rng(case["seed"])
    lens, tail = case["lens"], case["tail"]
    cx.trivial(len(set(lens)) < 2)
    F, N, M = sum(lens), len(lens), max(lens) + case["extra"]
    cx.trivial(M == 0 or F == 0)
    first = torch.tensor([sum(lens[:i]) for i in range(N)])
    x = T(r, (F, *tail))
    if case["noncontig"] and tail:
        x = T(r, (*tail[::-1], F)).permute(*range(len(tail), -1, -1))
    x.requires_grad_(True)
    P = packed_to_padded(x, first, M)
    want = torch.zeros(N, M, *tail)
    for i, n in enumerate(lens):
        want[i, :n] = x[first[i]: first[i] + n].detach()
    equal(P, want, "packed_to_padded")
    g = T(r, P.shape)
    P.backward(g)
    gw = torch.cat([g[i, :n] for i, n in enumerate(lens)])
    equal(x.grad, gw, "gradient of packed_to_padded")
    y = T(r, (N, M, *tail)).requires_grad_(True)
    Q = padded_to_packed(y, first, F)
    equal(Q, torch.cat([y[i, :n] for i, n in enumerate(lens)]), "padded_to_packed")
    g = T(r, Q.shape)
    Q.backward(g)
    gw = torch.zeros_like(y)
    for i, n in enumerate(lens):
        gw[i, :n] = g[first[i]: first[i] + n]
    equal(y.grad, gw, "gradient of padded_to_packed")
    equal(padded_to_packed(packed_to_padded(x, first, M), first, F), x, "round trip")
    if tail:  # the packed dimension may be elsewhere
        dim = 1 + case["seed"] % (len(tail) + 1)
        equal(padded_to_packed(y.movedim(1, dim), first, F, max_size_dim=dim), Q, "padded_to_packed with max_size_dim")
