"""Score cells belong to their samples under any batching, order and sampler subset."""
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
no_compile()

LEVEL = "exploration"
RULE = ("every attributor of the repository on random problems: one run over full batches in natural order is compared cell by cell with runs over "
        "other batch sizes, ragged tails, permutations, repeated samples and sampler subsets; distinct by (attributor, architecture, sizes, "
        "batchings, order, presentation)")
MIN_EVENTS = {"compared": 200, "variants": 150}


def gen(rng, tier):
    out = []
    for i in range(220 if tier == "quick" else 2400):
        kind = A.ALL[i % len(A.ALL)]
        out.append(dict(scenario=kind, spec=A.spec(rng, kind), cfg=A.config(rng, kind), pick=rng.randrange(10**6),
                        cached=kind in A.NO_CACHE or kind not in A.UNCACHED or rng.random() < 0.6, nvar=3 if tier == "quick" else 5))
    return out


def order(rng, n, kind, whole, dup=True):
    """Which samples, in which order."""
    mode = rng.choice(["natural", "perm", "perm", "subset", "repeat", "reverse"])
    if whole and mode in ("subset", "repeat"):
        mode = "perm"
    idx = list(range(n))
    if mode == "perm":
        rng.shuffle(idx)
    elif mode == "reverse":
        idx = idx[::-1]
    elif mode == "subset":
        idx = rng.sample(idx, rng.randint(1, n))
    elif mode == "repeat":
        idx = [rng.randrange(n) for _ in range(rng.randint(1, n + 3))]
    return mode, idx


def run(m, c):
    kind, cfg = c["scenario"], c["cfg"]
    rng = random.Random(c["pick"])
    P = A.problem(kind, c["spec"])
    n, mm = P.spec["n"], P.spec["m"]
    full, tfull = list(range(n)), list(range(mm))
    at = A.Adapter(kind, P, cfg)
    if c["cached"]:
        at.cache(full)
    base = at.scores(full, n, tfull, mm)
    m.check("shape", tuple(base.shape) == (n, mm), f"{kind}: {tuple(base.shape)} for {n} train and {mm} test samples")
    m.check("finite", bool(torch.isfinite(base).all()), kind)
    scale = float(base.abs().max())
    whole = not c["cached"] or kind == "knn"
    for v in range(c["nvar"]):
        tm, tr = order(rng, n, kind, whole)
        em, te = order(rng, mm, kind, False)
        bs, tbs = rng.randint(1, len(tr) + 2), rng.randint(1, len(te) + 2)
        if not c["cached"] and kind in A.FULL_BATCH:
            bs = len(tr) + rng.randint(0, 2)
        via = rng.choice(["sampler", "dataset"])
        if kind == "knn" and tm == "repeat":
            continue
        fresh = not c["cached"] or rng.random() < 0.5
        b = at
        if fresh:
            b = A.Adapter(kind, P, cfg)
            if c["cached"]:
                # the statistics cached are those of the whole training set, presented in any order and batching
                co = list(full)
                rng.shuffle(co)
                b.cache(co, rng.randint(1, n + 2), rng.choice(["sampler", "dataset"]))
        got = b.scores(tr, bs, te, tbs, via)
        want = base[tr][:, te]
        m.ev("variants")
        m.saw(kind, P.spec["kind"], n, mm, tm, em, bs, tbs, via, fresh)
        m.close(f"cells {kind}", got, want, tol=0.03 if kind == "rps" and fresh else 10 * A.tol(kind), scale=scale,
                msg=f"{tm} {tr} by {bs}, {em} {te} by {tbs}, via {via}, fresh={fresh}, cached={c['cached']}")
