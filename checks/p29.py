"""lds / loo_corr against rank and moment correlations computed from their definitions."""
import math
import random
import numpy as np
import torch
from scipy.special import betainc
from vmon.core import Inconclusive

LEVEL = "exploration"
RULE = ("random score matrices (float32/float64, integer-valued with many ties, heavy-tailed, constant columns, non-contiguous), subset families of any "
        "size and overlap incl. repeated rows, ground truths with ties; correlations and two-sided p-values recomputed from average ranks and moments "
        "in float64 with the incomplete beta function; rows / columns / subset members permuted and the results compared; leave-one-out with any subset "
        "of removed samples in any order and any index dtype; inputs must stay untouched; distinct by (kind, sizes, dtype)")
MIN_EVENTS = {"compared": 2000, "ties": 60, "partial_loo": 80, "undefined": 10, "close": 12}


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s in ("lds", "loo") for _ in range(400 if q else 6000)]


def ranks(x):
    """1-based average ranks."""
    order = sorted(range(len(x)), key=lambda i: x[i])
    r = [0.0] * len(x)
    i = 0
    while i < len(x):
        j = i
        while j + 1 < len(x) and x[order[j + 1]] == x[order[i]]:
            j += 1
        for k in range(i, j + 1):
            r[order[k]] = (i + j) / 2 + 1
        i = j + 1
    return r


def corr(x, y):
    """(r, two-sided p) from moments; NaN when undefined."""
    n = len(x)
    mx, my = math.fsum(x) / n, math.fsum(y) / n
    dx, dy = [a - mx for a in x], [b - my for b in y]
    sx, sy = math.fsum(a * a for a in dx), math.fsum(b * b for b in dy)
    if sx == 0 or sy == 0:
        return math.nan, math.nan
    r = max(-1.0, min(1.0, math.fsum(a * b for a, b in zip(dx, dy)) / math.sqrt(sx * sy)))
    if n < 3:
        return r, None  # degenerate p-value conventions differ
    return r, float(betainc(n / 2 - 1, 0.5, max(0.0, 1 - r * r)))


def values(rng, g, shape, kind, dtype):
    if kind == "int":
        return torch.randint(-3, 4, shape, generator=g).to(dtype)
    if kind == "heavy":
        return (torch.randn(shape, generator=g, dtype=torch.float64) ** 5).to(dtype)
    if kind == "close":  # large common part, informative small part: needs the full precision of float64
        return (1000 + 1e-5 * torch.randn(shape, generator=g, dtype=torch.float64)).to(dtype)
    t = torch.randn(shape, generator=g, dtype=torch.float64).to(dtype)
    if kind == "const":
        t[:, rng.randrange(shape[1])] = 1.0
    return t


def compare(m, key, got, wr, wp, dtype, msg):
    tol = 1e-5 if dtype == torch.float32 else 1e-9
    m.check(key + "-type", isinstance(got, tuple) and len(got) == 2 and got[0].shape == got[1].shape == (len(wr),), msg)
    for j, (r, p) in enumerate(zip(wr, wp)):
        if math.isnan(r):
            m.ev("undefined")
            m.check(key + "-undefined", math.isnan(float(got[0][j])), f"column {j}: {float(got[0][j])} for a constant column {msg}")
            continue
        m.close(key, got[0][j], torch.tensor(r, dtype=torch.float64), tol=tol, scale=1, msg=f"column {j} {msg}")
        if p is not None and abs(r) < 1 - 1e-6:  # the p-value is ill-conditioned at |r| = 1
            m.close(key + "-pvalue", got[1][j], torch.tensor(p, dtype=torch.float64), tol=10 * tol + 1e-7, scale=1, msg=f"column {j} r={r} {msg}")
        elif p is not None:
            m.check(key + "-pvalue", 0 <= float(got[1][j]) < 1e-2, f"p {float(got[1][j])} at r={r}")


def run(m, c):
    import warnings
    warnings.simplefilter("ignore")
    from dattri.metric import lds, loo_corr
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"])
    n, t = rng.randint(2, 25), rng.randint(1, 6)
    dtype = rng.choice([torch.float32, torch.float64])
    kind = rng.choice(["int", "real", "real", "heavy", "const", "close" if c["scenario"] == "lds" else "real"])
    if kind == "close":
        dtype = torch.float64
    score = values(rng, g, (n, t), kind, dtype)
    if rng.random() < 0.3:
        score = score.T.contiguous().T
    gk = rng.choice(["int", "real", "heavy"])
    if c["scenario"] == "lds":
        s = rng.randint(3, 14)
        size = rng.randint(1, max(1, n - 2 if n > 8 else n))
        idx = torch.tensor([rng.sample(range(n), size) for _ in range(s)])
        if rng.random() < 0.2:
            idx[-1] = idx[0]
        if len({frozenset(r) for r in idx.tolist()}) < s and kind != "int":  # repeated subsets: exact sums only
            kind, score = "int", values(rng, g, (n, t), "int", dtype)
        gt = values(rng, g, (s, t), gk, rng.choice([torch.float32, torch.float64]))
        m.saw(kind, gk, n, t, s, size, str(dtype))
        eps = 3e-7 if dtype == torch.float32 else 1e-14
        for _ in range(200):
            sums = [[math.fsum(float(score[i, j]) for i in row) for row in idx.tolist()] for j in range(t)]
            # summation order may decide ranks of (nearly) equal sums unless they are exact: draw such scores again
            near = [j for j in range(t) if kind != "int" and len(set(score[:, j].tolist())) > 1 and any(
                b - a < eps * (max(map(abs, sums[j])) + float(score.abs().max()) * size) * (size + 1)
                for a, b in zip(sorted(sums[j]), sorted(sums[j])[1:]))]
            if not near:
                break
            score = score.clone()
            score[:, near] = values(rng, g, (n, t), kind if kind != "const" else "real", dtype)[:, near]
        else:
            raise Inconclusive("near-tied sums")
        if kind == "close":
            m.ev("close")
        wr, wp = [], []
        for j in range(t):
            rs, rg = ranks(sums[j]), ranks([float(v) for v in gt[:, j]])
            if len(set(rs)) < s or len(set(rg)) < s:
                m.ev("ties")
            r, p = corr(rs, rg)
            wr.append(r)
            wp.append(p)
        keep = (score.clone(), gt.clone(), idx.clone())
        got = lds(score, (gt, idx))
        compare(m, "lds", got, wr, wp, dtype, f"{kind}/{gk} n={n} s={s} size={size}")
        m.check("inputs-untouched", all(torch.equal(a, b) for a, b in zip(keep, (score, gt, idx))), "")
        # the order of subsets, of members inside a subset and of test samples is irrelevant / carried through
        ps, pt = rng.sample(range(s), s), rng.sample(range(t), t)
        idx2 = torch.tensor([rng.sample(idx[i].tolist(), size) for i in ps])
        compare(m, "lds-permuted", lds(score[:, pt], (gt[ps][:, pt], idx2)), [wr[i] for i in pt], [wp[i] for i in pt], dtype, "permuted")
        if kind == "int":  # renaming the training samples
            pn = rng.sample(range(n), n)
            inv = torch.tensor([pn.index(i) for i in range(n)])
            compare(m, "lds-renamed", lds(score[pn], (gt, inv[idx])), wr, wp, dtype, "renamed")
        return
    n = score.shape[0]
    k = rng.randint(3, n) if n >= 3 else n
    if k < 3:
        raise Inconclusive("too few samples")
    removed = rng.sample(range(n), k)
    if rng.random() < 0.3:
        removed = list(range(k))
    if k < n or removed != sorted(removed):
        m.ev("partial_loo")
    gt = values(rng, g, (k, t), gk, rng.choice([torch.float32, torch.float64]))
    if gt.dtype == torch.float32:
        dtype = gt.dtype  # moments in single precision
    idx = torch.tensor(removed, dtype=rng.choice([torch.float32, torch.int64, torch.int32]))
    m.saw("loo", kind, gk, n, k, t, str(dtype), str(idx.dtype))
    wr, wp = zip(*[corr([float(score[i, j]) for i in removed], [float(v) for v in gt[:, j]]) for j in range(t)])
    # moments of badly scaled columns: float32 noise of the reference implementation
    for j in range(t):
        col = score[removed, j].double()
        if math.isnan(wr[j]):
            continue
        if float(col.std()) < 1e-3 * float(col.abs().max()) or float(gt[:, j].double().std()) < 1e-3 * float(gt[:, j].abs().max()):
            raise Inconclusive("nearly constant column")
    keep = (score.clone(), gt.clone(), idx.clone())
    compare(m, "loo", loo_corr(score, (gt, idx)), wr, wp, dtype, f"{kind}/{gk} n={n} removed={removed}")
    m.check("inputs-untouched", all(torch.equal(a, b) for a, b in zip(keep, (score, gt, idx))), "")
    ps, pt = rng.sample(range(k), k), rng.sample(range(t), t)
    compare(m, "loo-permuted", loo_corr(score[:, pt], (gt[ps][:, pt], idx[ps])), [wr[i] for i in pt], [wp[i] for i in pt], dtype, "permuted")
