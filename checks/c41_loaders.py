"""C41: batches of the samplers and data loaders of implicitron."""
import warnings
from collections import Counter, defaultdict

import numpy as np
import torch

from pytorch3d.implicitron.dataset.data_loader_map_provider import BatchConditioningType, DoublePoolBatchSampler, SequenceDataLoaderMapProvider, SimpleDataLoaderMapProvider
from pytorch3d.implicitron.dataset.dataset_base import DatasetBase
from pytorch3d.implicitron.dataset.dataset_map_provider import DatasetMap
from pytorch3d.implicitron.dataset.frame_data import FrameData
from pytorch3d.implicitron.dataset.scene_batch_sampler import SceneBatchSampler
from pytorch3d.implicitron.dataset.train_eval_data_loader_provider import TrainEvalDataLoaderMapProvider
from pytorch3d.implicitron.tools.config import expand_args_fields
from vlib.core import sub
from vlib.gen import SEED, boolean, d, ints, one_of, raises, rng

PROP = "C41"
RULE = ("datasets of up to 7 sequences of up to 12 shuffled frames with gaps, missing timestamps and known and unseen frames; all sampling options. Oracle: every batch of an epoch is checked against the "
        "documented composition (sequences, counts, contiguous segments, pools). Non-trivial: several sequences, or batches of several frames.")

for c in (SimpleDataLoaderMapProvider, SequenceDataLoaderMapProvider, TrainEvalDataLoaderMapProvider):
    expand_args_fields(c)


class Toy(DatasetBase):
    """Frames (sequence, number, timestamp, type)."""

    def __init__(self, frames, cats, name="toy", eval_batches=None):
        self.frames, self.cats, self.name, self.eval_batches = frames, cats, name, eval_batches
        self._seq_to_idx = defaultdict(list)
        for i, f in enumerate(frames):
            self._seq_to_idx[f[0]].append(i)

    def __len__(self):
        return len(self.frames)

    def __getitem__(self, i):
        s, no, ts, kind = self.frames[i]
        return FrameData(frame_number=torch.tensor(no), sequence_name=s, sequence_category=self.cats[s], frame_type=kind, image_path=self.name, image_size_hw=None, camera=None)

    def get_frame_numbers_and_timestamps(self, idxs, subset_filter=None):
        return [(self.frames[i][1], self.frames[i][2]) for i in idxs if subset_filter is None or self.frames[i][3] in subset_filter]

    def get_eval_batches(self):
        return self.eval_batches


def make(r, nseq, nf, ts, ncat, kinds=("train_known", "test_unseen"), name="toy"):
    frames, cats = [], {}
    for s in range(nseq):
        q = f"s{s}"
        cats[q] = f"c{s % ncat if r.random() < 0.7 else int(r.integers(ncat))}"
        n = int(r.integers(1, nf + 1))
        no = np.cumsum(r.choice([1, 1, 1, 2, 4, 9], n)) - int(r.integers(2))
        t = np.cumsum(r.choice([0.03, 0.03, 0.07, 0.15, 0.5, 2.5], n)) if ts == "inc" else np.full(n, {"zero": 0.0, "minus": -1.0}[ts])
        frames += [(q, int(a), float(b), kinds[int(r.integers(len(kinds)))]) for a, b in zip(no, t)]
    return Toy([frames[i] for i in r.permutation(len(frames))], cats, name)


def segments(ds, seq, gap, gap_s):
    fr = sorted((ds.frames[i][2], ds.frames[i][1], i) for i in ds._seq_to_idx[seq])
    segs = [[fr[0]]]
    for a, b in zip(fr, fr[1:]):
        new = (gap > 0 and b[1] - a[1] > gap) or (gap_s > 0 and b[0] - a[0] > gap_s)
        segs.append([b]) if new else segs[-1].append(b)
    return [[x[2] for x in s] for s in segs]


def check_scene_batch(ds, batch, opt, what):
    bs, options = opt["bs"], opt["options"]
    assert all(0 <= i < len(ds) for i in batch) and len(set(batch)) == len(batch), f"{what}: {batch} repeats frames or leaves the dataset"
    assert 0 < len(batch) <= bs, f"{what}: {len(batch)} frames, batch size {bs}"
    groups = []
    for i in batch:
        s = ds.frames[i][0]
        if not groups or groups[-1][0] != s:
            groups.append((s, []))
        groups[-1][1].append(i)
    seqs = [s for s, _ in groups]
    assert len(set(seqs)) == len(seqs), f"{what}: the frames of a sequence are not adjacent: {seqs}"
    cats = Counter(ds.cats[s] for s in seqs)
    size = Counter(ds.cats[s] for s in ds._seq_to_idx)
    errs = []
    for n in set(options):
        need = -(-bs // n)
        err = None
        for k, (s, idx) in enumerate(groups):
            want = min(n, len(ds._seq_to_idx[s]))
            if opt["consec"]:
                segs = segments(ds, s, opt["gap"], opt["gap_s"]) if opt["gap"] > 0 or opt["gap_s"] > 0 else [[x[2] for x in sorted((ds.frames[i][2], ds.frames[i][1], i) for i in ds._seq_to_idx[s])]]
                own = [q for q in segs if idx[0] in q][0]
                long = max(map(len, segs))
                if len(own) < min(n, long):
                    err = f"segment of {len(own)} frames of {s} used though one of {long} exists"
                want = min(n, len(own))
                p = own.index(idx[0])
                if own[p:p + len(idx)] != idx:
                    err = f"frames {idx} of {s} are not consecutive in {own}"
            full = want == len(idx) or (k == len(groups) - 1 and len(batch) == bs and len(idx) < want)
            if not full:
                err = f"{len(idx)} frames of {s} instead of {want}"
        if err is None and len(batch) < bs:
            # all the sequences asked for were taken
            if not opt["aware"]:
                if len(groups) != min(need, len(ds._seq_to_idx)):
                    err = f"{len(groups)} sequences of {len(ds._seq_to_idx)} in a batch which is too small, {need} needed"
            else:
                # the categories are chosen evenly if there are more than sequences needed
                if need <= len(size):
                    if len(groups) != need:
                        err = f"{len(groups)} sequences, {need} needed"
                elif len(groups) < need and not any(c == size[k] for k, c in cats.items()):
                    err = f"{len(groups)} sequences in a batch which is too small, and none of the chosen categories is exhausted"
        if err is None and opt["aware"] and need <= len(size) and max(cats.values()) > 1:
            err = "a category was chosen twice though there are enough of them"
        if err is None:
            return
        errs.append(f"{n} per sequence: {err}")
    raise AssertionError(f"{what}: {'; '.join(errs)} (batch {[ds.frames[i][:2] for i in batch]})")


SC = dict(seed=SEED, nseq=ints(1, 7), nf=ints(1, 12), ts=one_of("inc", "inc", "zero", "minus"), ncat=ints(1, 3), bs=ints(1, 10), consec=boolean(), gap=one_of(0, 0, 1, 3), gap_s=one_of(0.0, 0.1, 0.2, 0.3, 1.0, 3.0), aware=boolean())


@sub(d(**SC), quick=300, thorough=20000)
def scenes(case, cx):
    r = rng(case["seed"])
    ds = make(r, case["nseq"], case["nf"], case["ts"], case["ncat"])
    opt = dict(case, options=[int(i) for i in r.integers(1, 6, int(r.integers(1, 4)))])
    cx.trivial(case["nseq"] < 2 or case["bs"] == 1)
    np.random.seed(case["seed"] % 2**31)
    nb = int(r.integers(1, 12))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        s = SceneBatchSampler(ds, case["bs"], nb, opt["options"], sample_consecutive_frames=case["consec"], consecutive_frames_max_gap=case["gap"], consecutive_frames_max_gap_seconds=case["gap_s"], category_aware=case["aware"])
        assert len(s) == nb
        batches = list(s)
        assert len(batches) == nb, f"{len(batches)} batches instead of {nb}"
        for k, b in enumerate(batches):
            assert isinstance(b, list) and all(isinstance(i, int) for i in b)
            check_scene_batch(ds, b, opt, f"batch {k}")
        raises(lambda: SceneBatchSampler(ds, 0, 1, [1]), ValueError, what="empty batches")
        raises(lambda: SceneBatchSampler(ds, 1, 1, []), ValueError, what="no options")


@sub(d(seed=SEED, nseq=ints(2, 7), ncat=ints(1, 3), what=one_of("options", "categories", "sequences", "frames", "segments")), quick=60, thorough=1500)
def frequencies(case, cx):
    """Options, categories, sequences and frames are drawn uniformly."""
    r = rng(case["seed"])
    w = case["what"]
    np.random.seed(case["seed"] % 2**31)
    N = 1500

    def uniform(counts, keys, what):
        keys = list(keys)
        p = 1 / len(keys)
        assert set(counts) <= set(keys), f"{what}: {set(counts)} drawn from {keys}"
        tol = 6.5 * (N * p * (1 - p)) ** 0.5 + 1
        for k in keys:
            assert abs(counts[k] - N * p) <= tol, f"{what}: {k} drawn {counts[k]} times of {N}, {N * p:.0f} expected"
    ds = make(r, case["nseq"], 6, "inc", case["ncat"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if w == "options":
            ds = Toy([(f"s{s}", k, 0.0, "known") for s in range(4) for k in range(6)], {f"s{s}": "c" for s in range(4)})
            opts = [1, 2, 3, 6][:int(r.integers(2, 5))]
            s = SceneBatchSampler(ds, 6, N, opts)
            c = Counter(sum(ds.frames[i][0] == ds.frames[b[0]][0] for i in b) for b in s)
            # option 2 and 3 leave 2 and 3 frames of the first sequence
            uniform(c, opts, "frames per sequence")
        elif w == "categories":
            s = SceneBatchSampler(ds, 1, N, [1])
            c = Counter(ds.cats[ds.frames[b[0]][0]] for b in s)
            uniform(c, set(ds.cats[f[0]] for f in ds.frames), "category")
        elif w == "sequences":
            s = SceneBatchSampler(ds, 1, N, [1], category_aware=False)
            uniform(Counter(ds.frames[b[0]][0] for b in s), ds._seq_to_idx, "sequence")
        elif w == "frames":
            ds = make(r, 1, 9, "inc", 1)
            s = SceneBatchSampler(ds, 1, N, [1], category_aware=bool(r.random() < 0.5))
            uniform(Counter(b[0] for b in s), range(len(ds)), "frame")
            cx.trivial(len(ds) == 1)
        else:
            # the frame in the middle of the window is uniform over all segments which are long enough
            ds = make(r, 1, 12, "inc", 1)
            n = int(r.integers(1, 4))
            gap_s = [0.05, 0.1, 1.0][int(r.integers(3))]
            s = SceneBatchSampler(ds, n, N, [n], sample_consecutive_frames=True, consecutive_frames_max_gap_seconds=gap_s)
            segs = segments(ds, "s0", 0, gap_s)
            long = max(map(len, segs))
            ok = [g for g in segs if len(g) >= min(n, long)]
            c = Counter(tuple(b) for b in s)
            total = sum(map(len, ok))
            if long < n:
                assert len(c) == 1 and list(next(iter(c))) in ok, "longest segment"
                return
            want = Counter()
            for g in ok:
                for k in range(len(g)):
                    a = min(max(k - n // 2, 0), len(g) - n)
                    want[tuple(g[a:a + n])] += 1
            assert set(c) <= set(want), f"windows {set(c) - set(want)} sampled"
            for k, v in want.items():
                p = v / total
                assert abs(c[k] - N * p) <= 6.5 * (N * p * (1 - p)) ** 0.5 + 1, f"window {k} drawn {c[k]} times of {N}, {N * p:.0f} expected"


@sub(d(seed=SEED, n1=ints(1, 8), n2=ints(0, 8), bs=ints(1, 6), repl=boolean(), nb=one_of(None, 0, 1, 3, 9, 20)), quick=200, thorough=10000)
def pools(case, cx):
    r = rng(case["seed"])
    torch.manual_seed(case["seed"] % 2**31)
    ids = [int(i) for i in r.permutation(100)]
    first, rest = ids[:case["n1"]], ids[50:50 + case["n2"]]
    mk = lambda bs=case["bs"]: DoublePoolBatchSampler(first_indices=first, rest_indices=rest, batch_size=bs, replacement=case["repl"], num_batches=case["nb"])
    cx.trivial(case["bs"] == 1)
    if case["bs"] - 1 > case["n2"]:
        cx.trivial()
        raises(mk, ValueError, what="not enough conditioning frames")
        return
    s = mk()
    N = case["nb"] or case["n1"]
    for epoch in range(3):
        b = list(s)
        assert len(s) == len(b) == N, f"{len(b)} batches instead of {N}"
        for x in b:
            assert len(x) == case["bs"] and x[0] in first and set(x[1:]) <= set(rest) and len(set(x[1:])) == len(x) - 1, f"batch {x} of {first} and {rest}"
        if not case["repl"]:
            c = Counter(x[0] for x in b)
            lo, hi = N // case["n1"], -(-N // case["n1"])
            assert all(lo <= c[i] <= hi for i in first), f"frames drawn {dict(c)} times"
    torch.manual_seed(5)
    a = [x[0] for x in mk()]
    if case["n2"]:
        torch.manual_seed(5)
        b = [x[0] for x in mk(min(case["bs"] + 1, case["n2"] + 1))]
        assert a == b, "first frames change with the batch size"


def keys(items):
    out = []
    for fd in items:
        assert isinstance(fd, FrameData)
        n = len(fd.frame_number)
        assert n == len(fd.sequence_name) == len(fd.frame_type) == len(fd.image_path)
        out.append([(p, s, int(k)) for p, s, k in zip(fd.image_path, fd.sequence_name, fd.frame_number)])
    return out


@sub(d(seed=SEED, provider=one_of("simple", "sequence", "sequence", "sequence", "eval"), cond=one_of("same", "train", "known"), scenes=boolean(), evalb=one_of("", "", "test", "all"), none=one_of("", "", "train", "val"), bs=ints(1, 5), length=one_of(0, 0, 1, 4),
       nseq=ints(1, 4), nf=ints(1, 6), consec=boolean(), gap=one_of(0, 2), gap_s=one_of(0.0, 0.1, 0.2)), quick=250, thorough=12000)
def loaders(case, cx):
    r = rng(case["seed"])
    np.random.seed(case["seed"] % 2**31)
    torch.manual_seed(case["seed"] % 2**31)
    sets = {}
    for k in ("train", "val", "test"):
        kinds = ("known",) if r.random() < 0.2 and k == "train" else ("known", "unseen")
        ds = make(r, case["nseq"], case["nf"], ["inc", "zero", "minus"][int(r.integers(3))], 2, kinds, name=k)
        if case["evalb"] in (k, "all"):
            ds.eval_batches = [[int(i) for i in r.integers(0, len(ds), int(r.integers(1, 4)))] for _ in range(int(r.integers(1, 4)))]
        sets[k] = None if case["none"] == k else ds
    bs, ln = case["bs"], case["length"]
    lens = {k: int(r.integers(1, 6)) if ln else 0 for k in sets}
    options = tuple(int(i) for i in r.integers(1, 4, 2)) if case["scenes"] else ()
    kw = dict(batch_size=bs, **{f"dataset_length_{k}": v for k, v in lens.items()})
    cond = {k: BatchConditioningType(case["cond"]) if k != "val" or r.random() < 0.5 else BatchConditioningType.SAME for k in sets}
    scene_kw = dict(images_per_seq_options=options, sample_consecutive_frames=case["consec"], consecutive_frames_max_gap=case["gap"], consecutive_frames_max_gap_seconds=case["gap_s"])
    if case["provider"] == "simple":
        p = SimpleDataLoaderMapProvider(**kw)
    elif case["provider"] == "sequence":
        p = SequenceDataLoaderMapProvider(**kw, **scene_kw, **{f"{k}_conditioning_type": v for k, v in cond.items()})
    else:
        p = TrainEvalDataLoaderMapProvider(**kw, **scene_kw)
    cx.trivial(bs == 1)

    def mode(k):
        """How the batches of a set are made, or None if the request is refused."""
        ds, tr = sets[k], sets["train"]
        if ds is None:
            return "none"
        if ds.eval_batches is not None and (case["provider"] != "eval" or k == "test"):
            return "batches"
        if case["provider"] == "simple":
            return "simple"
        if case["provider"] == "eval":
            if options:
                return "scenes"
            if bs == 1:
                return "simple"
            return "train" if tr is not None and bs - 1 <= len(tr) else None
        if options and cond[k] != BatchConditioningType.SAME:
            return None
        if bs == 1 or (not options and cond[k] == BatchConditioningType.SAME):
            return "simple"
        if options:
            return "scenes"
        if cond[k] == BatchConditioningType.TRAIN:
            return "train" if tr is not None and bs - 1 <= len(tr) else None
        kn = sum(f[3] == "known" for f in ds.frames)
        if kn == len(ds):
            return "skip"
        return "known" if bs - 1 <= kn else None
    modes = {k: mode(k) for k in sets}
    if "skip" in modes.values():
        cx.trivial()
        return
    if None in modes.values():
        cx.label("refused")
        raises(lambda: p.get_data_loader_map(DatasetMap(**sets)), ValueError, what=f"loader of {case['provider']} with {cond} and options {options}")
        return
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = p.get_data_loader_map(DatasetMap(**sets))
        for k, md in modes.items():
            ld, ds = m[k], sets[k]
            cx.label(md)
            if md == "none":
                assert ld is None
                continue
            for epoch in range(2):
                got = keys(ld)
                assert len(got) == len(ld), f"{k}: {len(got)} batches, length {len(ld)}"
                key = [(k, f[0], f[1]) for f in ds.frames]
                tkey = None if sets["train"] is None else [("train", f[0], f[1]) for f in sets["train"].frames]
                what = f"{case['provider']} loader of {k} ({md})"
                if md == "batches":
                    assert got == [[key[i] for i in b] for b in ds.eval_batches], f"{what}: not the evaluation batches"
                elif md == "simple":
                    n = lens[k] or len(ds) // bs
                    assert len(got) == n and all(len(b) == bs for b in got), f"{what}: sizes {[len(b) for b in got]}, expected {n} of {bs}"
                    flat = [x for b in got for x in b]
                    assert set(flat) <= set(key)
                    if not lens[k]:
                        assert len(set(flat)) == len(flat), f"{what}: frames repeated in an epoch"
                elif md == "scenes":
                    assert len(got) == (lens[k] or len(ds)), f"{what}: {len(got)} batches"
                    for b in got:
                        check_scene_batch(ds, [key.index(x) for x in b], dict(bs=bs, options=options, consec=case["consec"], gap=case["gap"], gap_s=case["gap_s"], aware=True), what)
                else:
                    unseen = [x for x, f in zip(key, ds.frames) if f[3] != "known"]
                    first, rest = (key, tkey) if md == "train" else (unseen, [x for x in key if x not in unseen])
                    assert len(got) == (lens[k] or len(first)), f"{what}: {len(got)} batches"
                    for b in got:
                        assert len(b) == bs and b[0] in first and set(b[1:]) <= set(rest) and len(set(b[1:])) == bs - 1, f"{what}: batch {b}"
