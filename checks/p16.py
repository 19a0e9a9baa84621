"""Self-attribution == diagonal of train-versus-train attribution."""
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
no_compile()

LEVEL = "exploration"
RULE = ("every attributor offering self-attribution on random problems, ensembles, normalizations, layer selections and batchings, cached and not; "
        "each vector compared with the diagonal of attributing the same samples against themselves by a separate attributor, including samples "
        "without any gradient; distinct by (attributor, architecture, sizes, normalization, batching, ensemble size)")
MIN_EVENTS = {"compared": 150, "multi_batch": 60, "normalized": 20}
KINDS = A.GRAD + A.BLOCK + ["explicit", "cg", "lissa", "trak", "tracin"]
# these define self-influence by the training loss on both sides
LOSS_BOTH = {"tracin", "graddot", "gradcos", "trak"} | set(A.BLOCK)


def gen(rng, tier):
    out = []
    for i in range(230 if tier == "quick" else 2400):
        kind = KINDS[i % len(KINDS)]
        sp = A.spec(rng, kind, maxcheck=3)
        if kind in LOSS_BOTH:
            sp["target"] = None
        cfg = A.config(rng, kind)
        if kind in A.RELATIF:
            cfg["relatif"] = rng.choice([None, "l", "theta"])
            cfg["iters"] = 40
        zero = kind in ("tracin", "graddot", "gradcos") and rng.random() < 0.3
        if zero:
            sp.update(kind="linear", bias=False, frozen=False)
        out.append(dict(scenario=kind, spec=sp, cfg=cfg, pick=rng.randrange(10**6), zero=zero,
                        cached=kind not in A.UNCACHED or kind in A.BLOCK or rng.random() < 0.6))
    return out


def run(m, c):
    kind, cfg = c["scenario"], c["cfg"]
    rng = random.Random(c["pick"])
    P = A.problem(kind, c["spec"])
    n = P.spec["n"]
    if c["zero"]:
        # the loss of an all-zero sample does not depend on a linear model without bias
        P.x[rng.randrange(n)] = 0
        m.ev("zero_gradient")
    full = list(range(n))
    a, b = A.Adapter(kind, P, cfg), A.Adapter(kind, A_copy(P, kind, c["spec"]), cfg)
    tr = list(full)
    rng.shuffle(tr)
    if c["cached"]:
        a.cache(full)
        b.cache(full)
        if rng.random() < 0.5:
            tr = tr[:rng.randint(1, n)]
    bs = rng.randint(1, len(tr) + 1)
    if not c["cached"] and kind in A.FULL_BATCH:
        bs = len(tr)
    got = a.selfs(tr, bs)
    mat = b.scores(tr, len(tr), tr, len(tr), test="train")
    nb = -(-len(tr) // bs)
    if nb > 1:
        m.ev("multi_batch")
    if cfg["relatif"]:
        m.ev("normalized")
    m.saw(kind, P.spec["kind"], n, len(P.states), cfg["relatif"], bs, len(tr), c["cached"], cfg["normp"])
    m.check("shape", tuple(got.shape) == (len(tr),), f"{kind}: {tuple(got.shape)} for {len(tr)} samples")
    d = torch.diagonal(mat)
    if cfg["relatif"]:
        # normalizers taken of negative numbers (indefinite Hessian) are not defined
        ok = torch.isfinite(d)
        m.equal(f"finite {kind}", torch.isfinite(got).tolist(), ok.tolist())
        got, d = got[ok], d[ok]
    m.close(f"self {kind}", got, d, tol=20 * A.tol(kind), scale=max(float(mat[torch.isfinite(mat)].abs().max()) if len(d) else 1, 1e-12),
            msg=f"batches of {bs}, relatif={cfg['relatif']}, cached={c['cached']}, {len(P.states)} checkpoints")


def A_copy(P, kind, spec):
    Q = A.problem(kind, spec)
    Q.x, Q.y, Q.xt, Q.yt = P.x, P.y, P.xt, P.yt
    return Q
