"""Dense random projections are unbiased for inner products, whatever the block / chunk structure."""
import contextlib, random
import torch
from vmon.fakecuda import fake_cuda

LEVEL = "exploration"
RULE = ("every dense projector implementation (CPU in one or several blocks of the projection dimension, CUDA, chunked CUDA over the feature "
        "dimension, on an emulated device) x Gaussian / Rademacher x random sizes, seeds and layouts; the drawn matrices of many ensemble members "
        "and of many seeds are read off by projecting the identity and their first and second moments compared with the exact expectation at six "
        "to seven standard errors; projections into up to eleven blocks, whose columns must all differ across blocks, members and seeds; distinct by (implementation, type, sizes)")
MIN_EVENTS = {"draws": 2000, "moments": 300}
CASE_LIMIT = 200


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(64 if q else 600):
        out.append(dict(scenario="moments", dev=rng.choice(["cpu", "cpu-blocks", "cpu-blocks", "cuda", "chunked", "chunked"]), over=rng.choice(["ensemble", "seed"]),
                        typ=rng.choice(["normal", "rademacher"]), pick=rng.randrange(10**9), q=q))
    for i in range(12 if q else 90):
        out.append(dict(scenario="wide", typ=rng.choice(["normal", "rademacher"]), pick=rng.randrange(10**9)))
    return out


def wide(m, c, rng, g):
    """many blocks of the projection dimension: no column may repeat, within a member or between members / seeds."""
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams
    p = rng.randint(6, 12) if c["typ"] == "normal" else rng.randint(48, 64)
    k = rng.choice([301, 400, 401, 520, 777, 1050])
    eye = torch.eye(p, dtype=torch.float64)
    ids = rng.sample(range(8), 3)
    seed = rng.randrange(10**4)

    def make(seed):
        return random_project(eye, RandomProjectionParams(proj_dim=k, proj_max_batch_size=32, proj_seed=seed, feature_batch_size=p, device="cpu", proj_type=c["typ"]))
    f = make(seed)
    mats = [f(eye, ensemble_id=i).clone() for i in ids] + [make(seed + 1)(eye).clone()]
    what = f"{c['typ']} p={p} k={k} members {ids} seed {seed}"
    m.saw("wide", c["typ"], p, k, tuple(ids))
    for M in mats:
        m.ev("draws")
        m.check("requested-columns", M.shape == (p, k), f"{tuple(M.shape)} {what}")
    al = torch.cat(mats, 1)
    dup = al.shape[1] - len(torch.unique(al, dim=1).T)
    m.check("repeated", dup == 0, f"{dup} of {al.shape[1]} columns of three members and another seed repeat: {what}")
    # squared norms: mean over the columns of all members
    z = (al.square().sum() * k / (p * al.shape[1]) - 1) / ((3.0 if c["typ"] == "normal" else 1.0) - 1 + 1e-9) ** 0.5 * (p * al.shape[1]) ** 0.5
    m.ev("moments")
    if c["typ"] == "normal":
        m.check("scale", abs(float(z)) < 7, f"{float(z):.1f} standard errors {what}")
    else:
        m.close("entries", al.abs(), torch.full_like(al, k ** -0.5), tol=1e-6, msg=what)


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    if c["scenario"] == "wide":
        return wide(m, c, rng, g)
    with (fake_cuda() if c["dev"] in ("cuda", "chunked") else contextlib.nullcontext()):
        moments(m, c, rng, g)


def moments(m, c, rng, g):
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams
    dev = c["dev"]
    p = rng.randint(6, 64)
    k = rng.randint(2, 90) if dev != "cpu-blocks" else rng.choice([101, 150, 199, 200, 201, 250, 330])
    N = max(60, min(3000 if c["q"] else 20000, (400000 if c["q"] else 3000000) // (p * k)))
    mbs, sizes = 32, [p]
    if dev == "chunked":
        maxc = rng.randint(2, p - 1)
        mbs = (2**32 - 1) // (2 * maxc)
        sizes = []
        while sum(sizes) < p:
            sizes.append(min(rng.randint(1, max(2, maxc - 1)), p - sum(sizes)))
    dtype = rng.choice([torch.float32, torch.float64])
    use_dict = dev == "chunked" and rng.random() < 0.6
    base = rng.choice([0, rng.randrange(10**5)])
    eye = torch.eye(p, dtype=dtype)
    X = {f"p{i}": eye[:, sum(sizes[:i]):sum(sizes[:i + 1])].clone() for i in range(len(sizes))} if use_dict else eye

    def make(seed):
        return random_project(X, RandomProjectionParams(proj_dim=k, proj_max_batch_size=mbs, proj_seed=seed, feature_batch_size=p,
                                                        device="cpu" if dev.startswith("cpu") else "cuda", proj_type=c["typ"]))

    f = make(base)
    Rs = []
    for i in range(N):
        if c["over"] == "seed":
            f = make(base + i)
        Rs.append((f(X, ensemble_id=i) if c["over"] == "ensemble" else f(X)).double().clone())
        m.ev("draws")
    R = torch.stack(Rs)                      # N x p x k, entries of variance 1/k
    what = f"{dev} {c['typ']} p={p} k={k} N={N} over {c['over']} base seed {base} sizes={sizes} dict={use_dict} {dtype}"
    m.saw(dev, c["typ"], c["over"], p, k, len(sizes), use_dict)
    kurt = 3.0 if c["typ"] == "normal" else 1.0

    def z(key, dev_, se, msg):
        m.ev("moments")
        worst = float((dev_ / se).abs().max())
        m.check(key, worst < 7, f"{worst:.1f} standard errors: {msg} {what}")

    # inner products of coordinates, averaged over draws: E[R R^T] = I
    G = torch.einsum("npk,nqk->pq", R, R) / N
    off = G - torch.diag(torch.diag(G))
    z("inner-product", off, (1.0 / (N * k)) ** 0.5, "mean inner product of distinct coordinates")
    z("norm", torch.diag(G) - 1, ((kurt - 1) / (N * k)) ** 0.5 + 1e-7, "mean squared norm of a coordinate")
    # of random vectors too (float accuracy of the real call, not of the read-off matrix)
    A = torch.randn(3, p, generator=g, dtype=torch.float64)
    mean = torch.einsum("ap,pq,bq->ab", A, G, A)
    want = A @ A.T
    nrm = A.norm(dim=1)
    z("inner-product", mean - want, nrm[:, None] * nrm[None] * (2.0 / (N * k)) ** 0.5, "mean inner product of random vectors")
    # mean zero, output coordinates uncorrelated and equally scaled
    z("mean", R.mean(0), (1.0 / (N * k)) ** 0.5, "mean entry")
    C = torch.einsum("npk,npl->kl", R, R) * (k / (N * p))
    z("coordinates", C - torch.diag(torch.diag(C)), (1.0 / (N * p)) ** 0.5, "correlation of two output coordinates")
    z("scale", torch.diag(C) - 1, ((kurt - 1) / (N * p)) ** 0.5 + 1e-7, "variance of an output coordinate")
    # one draw: columns / rows independent (a repeated block shows at once), single-draw entry distribution
    for i in rng.sample(range(N), 3):
        one = R[i] * k ** 0.5
        if p >= (40 if c["typ"] == "rademacher" else 6):
            dup = len(one.T) - len(torch.unique(one, dim=1).T)
            m.ev("moments")
            m.check("repeated", dup == 0, f"draw {i}: {dup} repeated output coordinates {what}")
        if k >= (40 if c["typ"] == "rademacher" else 6):
            dup = len(one) - len(torch.unique(one, dim=0))
            m.check("repeated", dup == 0, f"draw {i}: {dup} repeated input coordinates {what}")
    # consecutive draws independent
    if p * k > 100:
        a, b = R[:-1].flatten(1), R[1:].flatten(1)
        cor = (a * b).sum(1) * k / (p * k)
        z("draws", cor, (1.0 / (p * k)) ** 0.5 * 1.15, "correlation of consecutive draws")
        z("draws", cor.mean(), (1.0 / (N - 1) / (p * k)) ** 0.5, "mean correlation of consecutive draws")
    if c["typ"] == "rademacher":
        m.close("entries", R.abs(), torch.full_like(R, k ** -0.5), tol=1e-6, msg=what)
