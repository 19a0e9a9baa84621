"""Mislabel-detection AUC from pair counts; brittleness against recorded retraining sets."""
import random
import numpy as np
import torch
from torch.utils.data import DataLoader, Dataset, SubsetRandomSampler

LEVEL = "exploration"
RULE = ("AUC: random scores (distinct, heavily tied, negative, integer, nearly equal, huge, infinite, float32/64) and noise indicators (bool/int/float), the returned curve checked point "
        "by point against counts over the top-k (bounded inside tie groups) and the AUC against exact pair counting; brittleness: the real search with "
        "stand-in training / evaluation functions that record the samples they get and flip by a hidden rule (monotone and non-monotone), any loader "
        "sampler (none, fixed indices, random subset), score layout, search space order; distinct by (kind, sizes)")
MIN_EVENTS = {"curves": 150, "curve_points": 2000, "tied": 40, "searches": 150, "trainings": 400, "found": 40, "none": 20}


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s in ("auc", "brittle") for _ in range(250 if q else 4000)]


class Ids(Dataset):
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return torch.tensor([float(i)]), i % 3


def auc(m, rng, g):
    from dattri.metric import mislabel_detection_auc
    n = rng.choice([2, 3, 5, 8, 20, 50, 150])
    kind = rng.choice(["distinct", "tied", "int", "allsame", "real", "close", "bigint", "extreme"])
    if kind == "distinct":
        s = torch.tensor(rng.sample(range(-500, 500), n), dtype=torch.float64) / 7
    elif kind == "tied":
        s = torch.randint(0, 4, (n,), generator=g).double()
    elif kind == "int":
        s = torch.randint(-50, 50, (n,), generator=g)
    elif kind == "allsame":
        s = torch.full((n,), 1.5)
    elif kind == "close":  # distinct float64 values that agree to about ten digits
        s = rng.choice([1.0, -3.0, 1e5]) * (1 + torch.tensor(rng.sample(range(10 * n), n), dtype=torch.float64) * 1e-11)
    elif kind == "bigint":
        s = 2 ** 40 + torch.tensor(rng.sample(range(5 * n), n))
    elif kind == "extreme":  # beyond the single-precision range, with a few infinities
        s = torch.randn(n, generator=g, dtype=torch.float64) * 10.0 ** rng.choice([60, 200, -60, -200])
        if n > 3:
            s[0], s[1] = float("inf"), float("-inf")
    else:
        s = torch.randn(n, generator=g) * 10 ** rng.uniform(-6, 6)
    if s.is_floating_point() and kind not in {"close", "extreme"}:
        s = s.to(rng.choice([torch.float32, torch.float64]))
    k = rng.randint(1, n - 1)
    noise = torch.zeros(n, dtype=rng.choice([torch.bool, torch.int64, torch.float32]))
    noise[rng.sample(range(n), k)] = 1
    keep = s.clone(), noise.clone()
    got, (fpr, tpr, thr) = mislabel_detection_auc(s, noise)
    m.ev("curves")
    m.saw(kind, n, k, str(s.dtype), str(noise.dtype))
    m.check("inputs-untouched", torch.equal(keep[0], s) and torch.equal(keep[1], noise), "")
    sv, nv = s.tolist(), [bool(v) for v in noise.tolist()]
    gt = sum(a > b for a, x in zip(sv, nv) if x for b, y in zip(sv, nv) if not y)
    eq = sum(a == b for a, x in zip(sv, nv) if x for b, y in zip(sv, nv) if not y)
    tot = k * (n - k)
    if eq:
        m.ev("tied")
    m.check("auc", (gt - 1e-4 * tot) / tot <= float(got) <= (gt + eq + 1e-4 * tot) / tot, f"{float(got)} not in [{gt / tot}, {(gt + eq) / tot}] {kind} n={n}")
    m.check("lengths", len(fpr) == len(tpr) == len(thr) == n + 1, f"{len(fpr)} {len(tpr)} {len(thr)}")
    m.check("thresholds", list(thr)[1:] == list(range(1, n + 1)), f"{thr}")
    ds = sorted(sv, reverse=True)
    ptp = 0
    area = 0.0
    for i in range(n + 1):
        tp, fp = float(tpr[i]) * k, float(fpr[i]) * (n - k)
        m.ev("curve_points")
        m.check("counts", abs(tp - round(tp)) < 1e-3 and abs(tp + fp - i) < 1e-2, f"at {i}: tp {tp} fp {fp}")
        cut = ds[i - 1] if i else float("inf")
        sure = sum(x and v > cut for v, x in zip(sv, nv))
        nsure = sum(v > cut for v in sv)
        tied_noise = sum(x and v == cut for v, x in zip(sv, nv))
        tied_clean = sum((not x) and v == cut for v, x in zip(sv, nv))
        need = i - nsure
        m.check("top-k", sure + max(0, need - tied_clean) <= round(tp) <= sure + min(need, tied_noise), f"top {i}: {tp} detected, sure {sure} {kind} n={n}")
        m.check("monotone", round(tp) >= ptp, f"at {i}")
        if i:
            area += (float(tpr[i]) + float(tpr[i - 1])) / 2 * (float(fpr[i]) - float(fpr[i - 1]))
        ptp = round(tp)
    m.close("area", float(got), area, tol=1e-4, scale=1)


def brittle(m, rng, g):
    from dattri.benchmark.utils import SubsetSampler
    from dattri.metric.britteness import brittleness
    n = rng.randint(3, 40)
    ds = Ids(rng.choice([n, n, n + 15]))
    kind = rng.choice(["range", "indices", "random", "plain"])
    if kind == "plain":
        ds = Ids(n)
        sampler, pool = None, list(range(n))
    elif kind == "range":
        pool = list(range(n))
        sampler = SubsetSampler(range(n))
    else:
        pool = rng.sample(range(len(ds)), n)
        sampler = SubsetSampler(pool) if kind == "indices" else SubsetRandomSampler(pool)
    bs = rng.randint(1, 8)
    loader = DataLoader(ds, batch_size=bs, sampler=sampler)
    label = rng.randint(0, 3)
    x = torch.randn(1, 4, generator=g)
    test = DataLoader(torch.utils.data.TensorDataset(x, torch.tensor([label])), batch_size=1)
    scores = torch.tensor(rng.sample(range(-999, 999), n), dtype=rng.choice([torch.float32, torch.float64]))
    shape = rng.choice(["flat", "flat", "column"])
    arg = scores if shape == "flat" else scores[:, None]
    if rng.random() < 0.3:
        arg = arg.numpy()
    space = rng.sample(range(0, n + 1), rng.randint(1, min(8, n)))
    if rng.random() < 0.4:
        space = sorted(space)
    order = sorted(range(n), key=lambda i: -float(scores[i]))  # positions, most influential first
    crit = set(rng.sample(range(len(ds)), rng.randint(1, len(ds))))
    need = rng.randint(0, max(1, len(crit & set(pool)) + 1))
    weird = rng.random() < 0.3

    def flips(seen):
        gone = set(pool) - set(seen)
        if weird:
            return len(gone & crit) % 3 == 2
        return len(gone & crit) >= need
    trained, evaluated = [], []

    def train(dl):
        seen = [int(v) for b in dl for v in b[0][:, 0].tolist()]
        trained.append(seen)
        m.check("loader-dataset", dl.dataset is ds or set(seen) <= set(pool), "")
        m.check("batch-size", all(len(b[1]) <= bs for b in dl), "")
        net = torch.nn.Sequential(torch.nn.Linear(4, 2), torch.nn.Dropout(0.5))
        net.flip = flips(seen)
        net.train()
        return net

    def evaluate(model, tl):
        m.check("eval-mode", not model.training, "model evaluated in training mode")
        evaluated.append(model.flip)
        m.check("test-loader", all(torch.equal(b[0], x) for b in tl), "")
        return torch.tensor([(label + 1) % 5 if model.flip else label])
    kw = {}
    if rng.random() < 0.85:
        kw["search_space"] = list(space)
    else:
        space = list(range(0, 200, 20))
    keep = torch.as_tensor(arg).clone()
    got = brittleness(loader, test, arg, train, evaluate, **kw)
    m.ev("searches")
    m.ev("trainings", len(trained))
    m.saw(kind, n, shape, len(space), need, weird)
    if "search_space" in kw:
        m.equal("search-space-untouched", kw["search_space"], space)
    m.check("scores-untouched", torch.equal(keep, torch.as_tensor(arg)), "")
    want = next((k for k in sorted(space) if flips([pool[p] for p in order[k:]])), None)
    m.ev("none" if want is None else "found")
    m.equal("smallest-k", got, want, msg=f"{kind} space {space}")
    for seen in trained:
        k = n - len(seen)
        m.check("retrained-on-the-rest", sorted(seen) == sorted(pool[p] for p in order[k:]) and (k in space or k == n),
                f"{kind}: trained on {sorted(seen)} after removing {k} of {n}, expected {sorted(pool[p] for p in order[k:])}")
    m.equal("evaluated-what-was-trained", [flips(s) for s in trained], evaluated)


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"])
    (auc if c["scenario"] == "auc" else brittle)(m, rng, g)
