"""Label noise and subset samplers, judged on what they return."""
import random
from collections import Counter
import numpy as np
import torch
from torch.utils.data import DataLoader, TensorDataset

LEVEL = "exploration"
RULE = ("real flip_label on numpy / tensor labels of any integer or float dtype, length, label space (list, array, tensor, inferred; shifted, negative, "
        "containing or not containing the present labels) and ratio; returned labels compared position by position with the input and the reported "
        "indices; over many draws every position and every other label is reached and positions differ between calls; SubsetSampler over every index "
        "container, driven alone, by DataLoaders (several epochs, workers off, batch sizes) and interleaved; distinct by (container, dtype, n, p, space)")
MIN_EVENTS = {"flips": 300, "flipped_labels": 4000, "samplers": 300, "draws": 2000}

NP = ["int64", "int32", "int16", "int8", "uint8", "float32", "float64"]
TT = [torch.int64, torch.int32, torch.int16, torch.int8, torch.uint8, torch.float32, torch.float64]


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("flip", 700), ("spread", 30), ("sampler", 350)) for _ in range(k if q else 12 * k)]


def labels(rng):
    n = rng.choice([1, 2, 3, 5, 10, 10, 37, 37, 100, 333])
    k = rng.randint(2, 12)
    lo = rng.choice([0, 0, 0, 1, 5, -3])
    space = sorted(rng.sample(range(lo, lo + 3 * k), k)) if rng.random() < 0.4 else list(range(lo, lo + k))
    y = [rng.choice(space) for _ in range(n)]
    if rng.random() < 0.2:
        dt = rng.choice([d for d in NP if lo >= 0 or d != "uint8"])
        lab = np.array(y, dtype=dt)
    elif rng.random() < 0.75:
        dt = torch.int64
        lab = torch.tensor(y)
    else:
        dt = rng.choice([d for d in TT if lo >= 0 or d != torch.uint8])
        lab = torch.tensor(y, dtype=dt)
    return n, y, space, lab, dt


def aslist(a):
    return [int(v) for v in a.tolist()]


def flip(m, rng):
    from dattri.benchmark.utils import flip_label
    n, y, space, lab, dt = labels(rng)
    mode = rng.choice(["none", "list", "array", "tensor", "bigger", "disjoint"])
    if mode == "none" and len(set(y)) < 2:
        mode = "list"
    sp = list(space)
    if mode == "bigger":
        sp += [max(space) + 1, max(space) + 4]
    elif mode == "disjoint":
        sp = [max(space) + 2, max(space) + 3]
    rng.shuffle(sp)
    p = rng.choice([v for v in [0, 0.01, 0.1, 0.1, 0.25, 1 / 3, 0.5, 0.9, 1, 1.0] if int(v * n) or rng.random() < 0.03] or [1])
    arg = {"none": None, "array": np.array(sp), "tensor": torch.tensor(sp)}.get(mode, sp)
    valid = set(y) if mode == "none" else set(sp)
    before = lab.clone() if isinstance(lab, torch.Tensor) else lab.copy()
    kw = {}
    if not (p == 0.1 and rng.random() < 0.5):
        kw["p"] = p
    m.tag = "no label to flip" if int(p * n) == 0 else "numpy labels" if isinstance(lab, np.ndarray) else "labels not int64" if dt != torch.int64 else None
    got, idx = flip_label(lab, arg, **kw) if arg is not None else flip_label(lab, **kw)
    m.tag = None
    m.ev("flips")
    m.saw(type(lab).__name__, str(dt), n, p, mode)
    what = f"{type(lab).__name__} {dt} n={n} p={p} space={mode}"
    m.check("container", type(got) is type(lab) and got.dtype == lab.dtype and tuple(got.shape) == tuple(lab.shape), f"{what}: {type(got)} {got.dtype}")
    m.check("input-unchanged", aslist(lab) == aslist(before), what)
    idx = [int(i) for i in idx]
    m.check("count", abs(len(idx) - p * n) < 1 and len(idx) <= p * n + 1e-9, f"{what}: {len(idx)} indices")
    m.check("indices", len(set(idx)) == len(idx) and all(0 <= i < n for i in idx), f"{what}: {idx}")
    new = aslist(got)
    m.equal("changed-outside-reported", [i for i in range(n) if new[i] != y[i] and i not in idx], [], msg=what)
    m.tag = "tensor label space" if mode == "tensor" else None
    m.equal("reported-but-kept", [i for i in idx if new[i] == y[i]], [], msg=what)
    m.tag = None
    m.ev("flipped_labels", len(idx))
    extra = {new[i] for i in idx} - valid
    m.check("in-label-space", not extra - set(y), f"{what}: {sorted(extra)}")
    m.tag = "present label outside the label space"
    m.check("in-label-space", not extra & set(y), f"{what}: {sorted(extra)}")
    m.tag = None
    # not aliased with the input
    if n:
        got[0] = got[0] + 1
        m.check("no-alias", aslist(lab) == aslist(before), what)


def spread(m, rng):
    from dattri.benchmark.utils import flip_label
    k, p = rng.randint(3, 5), rng.choice([0.3, 0.5])
    n = rng.randint(max(4, k), 8)
    y = np.arange(n) % k
    y = torch.tensor(y) if rng.random() < 0.85 else y
    m.tag = "numpy labels" if isinstance(y, np.ndarray) else None
    pos, lab, sets = Counter(), Counter(), set()
    reps = 400
    for _ in range(reps):
        if rng.random() < 0.2:
            np.random.seed(0)
            torch.manual_seed(0)
        got, idx = flip_label(y, p=p)
        sets.add(frozenset(int(i) for i in idx))
        for i in idx:
            pos[int(i)] += 1
            lab[int(y[i]), int(got[i])] += 1
    m.tag = None
    m.ev("draws", reps)
    m.saw("spread", n, k, p)
    tot = sum(pos.values())
    # each position is uniform; 400 draws make a relative deviation of 50 % a > 6 sigma event
    m.check("every-position-reached", all(0.4 < pos[i] * n / tot < 1.6 for i in range(n)), f"{dict(pos)}")
    for i in range(min(n, k)):
        seen = {b: c for (a, b), c in lab.items() if a == i}
        m.check("every-other-label-reached", set(seen) == set(range(k)) - {i}, f"label {i} -> {seen} of {k}")
    m.check("sets-vary", len(sets) > 3, f"{len(sets)} distinct index sets in {reps} draws")


def sampler(m, rng):
    from dattri.benchmark.utils import SubsetSampler
    n = rng.randint(1, 40)
    k = rng.randint(0, 30)
    idx = [rng.randrange(n) for _ in range(k)]
    form = rng.choice(["list", "tuple", "range", "array", "tensor", "sorted"])
    if form == "range":
        idx = list(range(rng.randint(0, n - 1), n, rng.randint(1, 3)))
        lo, st = idx[0], (idx[1] - idx[0] if len(idx) > 1 else 1)
        arg = range(lo, idx[-1] + 1, st)
    else:
        if form == "sorted":
            idx = sorted(set(idx))
        arg = {"tuple": tuple, "array": np.array, "tensor": lambda v: torch.tensor(v, dtype=torch.long)}.get(form, list)(idx)
    if form == "array":
        arg = arg.astype(np.int64)
    s = SubsetSampler(arg)
    m.ev("samplers")
    m.saw("sampler", form, n, len(idx))
    m.equal("len", len(s), len(idx))
    for _ in range(2):
        m.equal("order", [int(i) for i in s], idx, msg=form)
    a, b = iter(s), iter(s)  # independent iterators
    got = [(int(x), int(y)) for x, y in zip(a, b)]
    m.equal("interleaved", got, [(i, i) for i in idx], msg=form)
    bs = rng.randint(1, 7)
    dl = DataLoader(TensorDataset(torch.arange(n) * 10), batch_size=bs, sampler=s, drop_last=False)
    m.equal("loader-length", len(dl), -(-len(idx) // bs))
    for _ in range(2):
        torch.manual_seed(rng.randrange(99))
        m.equal("loader-order", [int(v) for (x,) in dl for v in x], [10 * i for i in idx], msg=f"{form} bs {bs}")


def run(m, c):
    {"flip": flip, "spread": spread, "sampler": sampler}[c["scenario"]](m, random.Random(c["pick"]))
