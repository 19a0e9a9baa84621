"""Random projections are fixed linear maps (CPU projector, and the CUDA / chunked ones on an emulated device)."""
import contextlib, random
import torch
from vmon.core import Inconclusive
from vmon.fakecuda import fake_cuda

LEVEL = "exploration"
RULE = ("random projector type, device branch (CPU projector, CUDA projector and chunked CUDA projector run on an emulated device with a "
        "reference sjlt kernel), feature layout (flat / dict with scalar, vector and matrix entries, also larger than one chunk), sizes, dtypes, "
        "seeds and block sizes; the map is read off by projecting the identity, then random call histories over ensemble ids, batch sizes, dict / "
        "flat input, fresh instances and freed memory are replayed against it; distinct by (branch, type, layout, sizes)")
MIN_EVENTS = {"maps": 150, "calls": 800, "chunked": 20}
TYPES = {"cpu": ["normal", "rademacher", "random_mask", "identity"],
         "cuda": ["normal", "rademacher", "random_mask", "identity", "sjlt", "grass"]}


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(240 if q else 3000):
        out.append(dict(scenario="maps", dev=rng.choice(["cpu", "cpu", "cuda"]), pick=rng.randrange(10**9)))
    for i in range(80 if q else 800):
        out.append(dict(scenario="maps", dev="chunked", pick=rng.randrange(10**9)))
    for i in range(60 if q else 500):
        out.append(dict(scenario="direct", pick=rng.randrange(10**9)))
    out.append(dict(scenario="rejects", pick=1))
    return out


def shapes_of(rng, big):
    out = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        out.append(() if r < 0.15 else (rng.randint(1, big),) if r < 0.55 else (rng.randint(1, 5), rng.randint(1, max(big // 4, 1))))
    return out


def as_dict(X, shapes):
    out, o = {}, 0
    for i, s in enumerate(shapes):
        n = 1
        for d in s:
            n *= d
        out[f"p{i}"] = X[:, o:o + n].reshape(len(X), *s).clone()
        o += n
    return out


def size(s):
    n = 1
    for d in s:
        n *= d
    return n


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    ctx = fake_cuda() if c.get("dev") in ("cuda", "chunked") else contextlib.nullcontext({})
    with ctx as log:
        globals()[c["scenario"]](m, c, rng, g)
    if log and log.get("redirected"):
        m.ev("emulated")


def maps(m, c, rng, g):
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams
    dev = c["dev"]
    dtype = rng.choice([torch.float32, torch.float32, torch.float64])
    dv = "cpu" if dev == "cpu" else "cuda"
    typ = rng.choice(TYPES[dv])
    shapes = shapes_of(rng, 40)
    p = sum(size(s) for s in shapes)
    k = rng.choice([1, 2, rng.randint(1, 20), rng.randint(20, 99), 100, 101, rng.randint(102, 260)])
    bs = rng.randint(1, 9)
    mbs = 8 * rng.randint(1, 8)
    nchunks = 1
    if dev == "chunked":
        typ = rng.choice(["normal", "rademacher", "sjlt", "grass", "normal", "rademacher", "random_mask"])
        k = rng.choice([1, 3, rng.randint(1, 30)])
        maxc = rng.choice([rng.randint(max(p // 4, 1), max(p - 1, 1)), p, rng.randint(1, p + 2), max(size(s) for s in shapes)])
        maxc = max(maxc, 1)
        mbs = (2**32 - 1) // (2 * maxc)
        if typ == "random_mask":
            typ, k = "random_mask", 1
        m.ev("chunked")
    seed = rng.choice([0, 1, 7, rng.randrange(10**6)])
    use_dict = rng.random() < (0.75 if dev == "chunked" else 0.5)
    params = RandomProjectionParams(proj_dim=k, proj_max_batch_size=mbs, proj_seed=seed, feature_batch_size=bs, device=dv, proj_type=typ)

    def make():
        X = torch.zeros(bs, p, dtype=dtype)
        return random_project(as_dict(X, shapes) if use_dict else X, params)

    def whole(f, X, ens, split, asdict):
        outs, i = [], 0
        while i < len(X):
            b = rng.randint(1, bs) if split == "mix" else min(split, bs)
            part = X[i:i + b]
            o = f(as_dict(part, shapes) if asdict else part.clone(), ensemble_id=ens) if ens is not None else f(as_dict(part, shapes) if asdict else part.clone())
            m.check("rows", o.shape[0] == len(part), f"{o.shape[0]} rows returned for {len(part)}")
            outs.append(o.clone())
            m.ev("calls")
            i += b
        return torch.cat(outs)

    can_flat = not use_dict or True
    eye = torch.eye(p, dtype=dtype)
    ensembles = rng.sample([0, 1, 2, 3, 5, 11], 3)
    R = {}
    for e in ensembles:
        R[e] = whole(make(), eye, e, bs, use_dict)
        m.ev("maps")
    m.saw(dev, typ, use_dict, p, k, bs, str(dtype), mbs if dev == "chunked" else 0)
    what = f"{dev} {typ} p={p} k={k} shapes={shapes} bs={bs} seed={seed} {dtype} dict={use_dict} max_batch={mbs}"
    R0 = R[ensembles[0]]
    m.check("dtype", R0.dtype == dtype, f"{R0.dtype} {what}")
    wantk = p if typ == "identity" else min(k, p) if typ == "random_mask" else k
    m.check("dim", R0.shape == (p, wantk), f"map of shape {tuple(R0.shape)}, wanted {(p, wantk)} {what}")
    # what kind of matrix it is
    if typ == "identity":
        m.equal("structure", R0, eye, msg=what)
    elif typ == "random_mask" and dev != "chunked":
        m.check("structure", bool(((R0 == 0) | (R0 == 1)).all() and (R0.sum(0) == 1).all() and (R0.sum(1) <= 1).all()),
                f"a mask must select distinct coordinates {what}")
    elif typ == "rademacher":
        m.close("structure", R0.abs(), torch.full_like(R0, k ** -0.5), tol=1e-6, msg=what)
    elif typ == "sjlt":
        m.check("structure", bool((R0.abs().sum(1) == 1).all() and ((R0 != 0).sum(1) == 1).all()), f"one signed entry per coordinate {what}")
    elif typ == "grass":
        nz = int((R0 != 0).any(1).sum())
        if dev != "chunked":
            m.check("structure", nz == min(4 * k, p), f"{nz} coordinates survive, wanted {min(4 * k, p)} {what}")
        m.check("structure", bool((R0.abs().sum(1) <= 1).all() and ((R0 != 0).sum(1) <= 1).all()), f"at most one signed entry per coordinate {what}")
    elif typ == "normal" and p * k > 30:
        z = R0.double() * k ** 0.5
        m.check("structure", abs(float(z.var(correction=0)) - 1) < 6 * (2 / (p * k)) ** 0.5 + 1e-9, f"variance {float(z.var()):.3g} {what}")
    # different ensembles / seeds -> different maps
    if typ in ("normal", "rademacher") and p * k >= 40 or typ in ("sjlt", "grass") and p >= 40 and k > 3 or typ == "random_mask" and p > 30 and 5 < k < p - 5:
        for a in range(3):
            for b in range(a):
                m.check("distinct", not torch.equal(R[ensembles[a]], R[ensembles[b]]), f"ensembles {ensembles[a]}, {ensembles[b]} share a map {what}")
        other = RandomProjectionParams(proj_dim=k, proj_max_batch_size=mbs, proj_seed=seed + rng.choice([1, 2, 17]), feature_batch_size=bs, device=dv, proj_type=typ)
        f2 = random_project(as_dict(torch.zeros(bs, p, dtype=dtype), shapes) if use_dict else torch.zeros(bs, p, dtype=dtype), other)
        m.check("distinct", not torch.equal(whole(f2, eye, ensembles[0], bs, use_dict), R0), f"another seed gives the same map {what}")
    # one instance through a random history of calls
    f = make()
    tol = 1e-12 if dtype == torch.float64 else 3e-6
    for step in range(rng.randint(4, 9)):
        e = rng.choice(ensembles)
        n = rng.choice([1, rng.randint(1, bs), bs, rng.randint(1, 3 * bs)])
        X = torch.randn(n, p, generator=g, dtype=torch.float64).to(dtype) * rng.choice([1.0, 1.0, 1e-3, 1e3])
        if rng.random() < 0.15:
            X[rng.randrange(n)] = 0
        keep = X.clone()
        asd = rng.random() < 0.5 if can_flat else True
        default = e == 0 and rng.random() < 0.5
        got = whole(f, X, None if default else e, rng.choice([1, bs, "mix"]), asd)
        sc = float((X.double().norm(dim=1).max() * R[e].double().norm(dim=0).max()).clamp(min=1e-300))
        m.close("linear", got, X.double() @ R[e].double(), tol=tol * 10, scale=sc, msg=f"step {step} ensemble {e} n={n} dict={asd} {what}")
        m.check("input", torch.equal(X, keep), f"the caller's features were changed {what}")


def direct(m, c, rng, g):
    """BasicProjector used directly: block sizes, freed memory, ensemble switches."""
    from dattri.func.projection import BasicProjector, ProjectionType
    p, k = rng.randint(1, 60), rng.randint(1, 80)
    block = rng.choice([1, 2, rng.randint(1, 30), 100])
    typ = rng.choice(TYPES["cpu"])
    dtype = rng.choice([torch.float32, torch.float64])
    seed, ens0 = rng.randrange(1000), rng.choice([0, 0, 3])
    dev = torch.device("cpu")

    def make(e=ens0):
        return BasicProjector(p, k, seed, ProjectionType(typ), dev, block_size=block, dtype=dtype, ensemble_id=e)

    eye = torch.eye(p, dtype=dtype)
    R = {e: make(e).project(eye.clone(), e).clone() for e in (0, 1, 3)}
    m.ev("maps", 3)
    m.saw("direct", typ, p, k, block)
    P = make()
    hist = []
    for _ in range(rng.randint(3, 8)):
        e = rng.choice([0, 1, 3])
        if rng.random() < 0.3:
            P.free_memory()
            hist.append("free")
        hist.append(e)
        X = torch.randn(rng.randint(1, 6), p, generator=g, dtype=torch.float64).to(rng.choice([torch.float32, torch.float64]))
        got = P.project(X, e)
        m.ev("calls")
        sc = float(X.double().norm(dim=1).max() * R[e].double().norm(dim=0).max())
        m.close("linear", got, X.double() @ R[e].double(), tol=3e-5, scale=max(sc, 1e-300), msg=f"{typ} p={p} k={k} block={block} {dtype} history {hist}")
        m.check("dtype", got.dtype == dtype, f"{got.dtype} for a {dtype} projector")


def rejects(m, c, rng, g):
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams
    X = torch.randn(4, 30)
    for typ, dev in (("sjlt", "cpu"), ("grass", "cpu"), ("normal", "meta")):
        try:
            random_project(X, RandomProjectionParams(proj_dim=5, proj_max_batch_size=8, proj_seed=0, feature_batch_size=4, device=dev, proj_type=typ))
        except ValueError:
            m.ev("rejected")
            continue
        m.fail("rejects", f"{typ} on {dev} is documented as invalid but was accepted")
