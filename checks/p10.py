"""KNN-Shapley values are the exact Shapley values of the KNN utility."""
import itertools, math, random
import torch
from torch.utils.data import DataLoader
from vmon.workloads import COLLATE, Data, FixedSampler

LEVEL = "exploration"
RULE = ("random training/test sets (including k above and equal to the set size, duplicates, single samples), k, batchings, label containers and "
        "distance functions; every value recomputed by enumerating all coalitions (n<=9) or by coalition counting (n<=40), plus efficiency; "
        "distinct by (n, m, k, batching, labels, distance)")
MIN_EVENTS = {"compared": 60}


def gen(rng, tier):
    out = []
    for _ in range(150 if tier == "quick" else 1500):
        big = rng.random() < 0.4
        n = rng.randint(1, 9) if not big else rng.randint(10, 40)
        out.append(dict(scenario="knn", n=n, m=rng.randint(1, 6), d=rng.randint(1, 4), k=rng.choice([1, 2, 3, 5, n, n + 1, n + 4, max(1, n - 1)]),
                        c=rng.randint(1, 4), bs=rng.randint(1, n + 2), tbs=rng.randint(1, 7), dist=rng.choice(["default", "l1", "cos", "neg"]),
                        lab=rng.choice(["loader", "list", "tensor"]), dup=rng.random() < 0.3, fmt=rng.choice(["tuple", "list"]), sub=rng.random() < 0.3))
    return out


def utility(order_labels, yt, K):
    return sum(1 for v in order_labels[:K] if v == yt) / K


def brute(order, lab, yt, K):
    n = len(order)
    val = {}
    for mask in range(1 << n):
        val[mask] = utility([lab[order[i]] for i in range(n) if mask >> i & 1], yt, K)
    out = [0.0] * n
    for i in range(n):
        for mask in range(1 << n):
            if mask >> i & 1:
                continue
            s = bin(mask).count("1")
            out[order[i]] += (val[mask | 1 << i] - val[mask]) * math.factorial(s) * math.factorial(n - s - 1) / math.factorial(n)
    return out


def counting(order, lab, yt, K):
    """Average marginal contribution by counting coalitions by (size, who is displaced)."""
    n = len(order)
    mt = [1 if lab[o] == yt else 0 for o in order]
    out = [0.0] * n
    C = math.comb
    for i in range(n):
        acc = 0.0
        for s in range(n):
            w = 1.0 / n / C(n - 1, s)
            if s < K:
                acc += w * C(n - 1, s) * mt[i] / K
                continue
            # i enters when fewer than K members are closer; it displaces the K-th nearest member j (> i)
            for j in range(i + 1, n):
                # j is K-th nearest of S: K-1 of the members ahead of j (excluding i), s-K members behind
                cnt = C(j - 1, K - 1) * C(n - 1 - j, s - K)
                acc += w * cnt * (mt[i] - mt[j]) / K
        out[order[i]] = acc
    return out


DIST = {
    "l1": lambda a, b: torch.cdist(a[0], b[0], p=1.0),
    "cos": lambda a, b: 1 - torch.nn.functional.normalize(a[0], dim=-1) @ torch.nn.functional.normalize(b[0], dim=-1).T + 0.01 * torch.cdist(a[0], b[0]),
    "neg": lambda a, b: -torch.cdist(a[0], b[0]),
    "default": lambda a, b: torch.cdist(a[0], b[0]),
}


def run(m, c):
    from dattri.algorithm.data_shapley import KNNShapleyAttributor
    rng = random.Random(c["seed"])
    g = torch.Generator().manual_seed(c["seed"])
    n, mm, K = c["n"], c["m"], c["k"]
    for _ in range(50):
        x, xt = torch.randn(n, c["d"], generator=g), torch.randn(mm, c["d"], generator=g)
        y, yt = torch.randint(0, c["c"], (n,), generator=g), torch.randint(0, c["c"], (mm,), generator=g)
        dupof = list(range(n))
        if c["dup"] and n > 2:
            a, b = rng.sample(range(n), 2)
            x[b], y[b] = x[a], y[a]
            dupof[b] = a
        D = DIST[c["dist"]]((xt.double(),), (x.double(),))
        uniq = sorted(set(dupof))
        sd = D[:, uniq].sort(dim=1).values
        if len(uniq) < 2 or float((sd[:, 1:] - sd[:, :-1]).min()) > 2e-5:
            break
    idx = list(range(n))
    if c["sub"]:
        idx = rng.sample(idx, rng.randint(1, n))
    tr = DataLoader(Data(x, y, c["fmt"]), batch_size=c["bs"], collate_fn=COLLATE[c["fmt"]], sampler=FixedSampler(idx) if c["sub"] else None)
    te = DataLoader(Data(xt, yt, c["fmt"]), batch_size=c["tbs"], collate_fn=COLLATE[c["fmt"]])
    ys = y[idx]
    kw = {}
    if c["lab"] == "list":
        kw = dict(train_labels=ys.tolist(), test_labels=yt.tolist())
    elif c["lab"] == "tensor":
        kw = dict(train_labels=ys.clone(), test_labels=yt.clone())
    att = KNNShapleyAttributor(K, distance_func=None if c["dist"] == "default" else DIST[c["dist"]])
    got = att.attribute(tr, te, **kw)
    if c["lab"] == "list":
        m.equal("labels mutated", (kw["train_labels"], kw["test_labels"]), (ys.tolist(), yt.tolist()))
    N = len(idx)
    want = torch.zeros(mm, N)
    for j in range(mm):
        order = torch.argsort(D[j, idx], stable=True).tolist()
        lab = ys.tolist()
        f = brute if N <= 7 else counting
        want[j] = torch.tensor(f(order, lab, int(yt[j]), K))
        full = utility([lab[o] for o in order], int(yt[j]), K)
        m.ev("efficiency")
        m.check("knn efficiency", abs(float(got[j].sum()) - full) < 1e-4, f"sum={float(got[j].sum())} utility={full} n={N} k={K}")
    m.saw(N, mm, K, c["bs"], c["tbs"], c["dist"], c["lab"], c["dup"], c["c"])
    m.close("knn", got, want, tol=1e-5, scale=1.0, msg=f"n={N} k={K}")
    again = att.attribute(tr, te, **kw)
    m.equal("knn repeat", again, got)
