"""Tuple, list and dictionary batches give the same scores."""
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
no_compile()

LEVEL = "exploration"
RULE = ("every attributor that takes dictionary batches on random problems: the same samples fed as tuples, lists, dictionaries, dictionaries with keys in "
        "another order and with an unused key, for cache, train, test and self-attribution loaders independently; distinct by (attributor, architecture, "
        "sizes, formats, batchings)")
MIN_EVENTS = {"compared": 300}
KINDS = A.GRAD + A.BLOCK
FMT = ["tuple", "list", "dict", "dictr", "dictx"]


def gen(rng, tier):
    out = []
    for i in range(170 if tier == "quick" else 1800):
        kind = KINDS[i % len(KINDS)]
        out.append(dict(scenario=kind, spec=A.spec(rng, kind), cfg=A.config(rng, kind), pick=rng.randrange(10**6),
                        cached=kind in A.NO_CACHE or kind not in A.UNCACHED or rng.random() < 0.6))
    return out


def run(m, c):
    kind, cfg = c["scenario"], c["cfg"]
    rng = random.Random(c["pick"])
    spec = dict(c["spec"], fmt="tuple")
    P = A.problem(kind, spec)
    n, mm = P.spec["n"], P.spec["m"]
    full, te = list(range(n)), list(range(mm))
    bs, tbs = rng.randint(1, n + 1), rng.randint(1, mm + 1)
    if not c["cached"] and kind in A.FULL_BATCH:
        bs = n
    mixed = kind not in A.BLOCK and rng.random() < 0.4

    def outcome(fmts):
        a = A.Adapter(kind, P, cfg, fmt=fmts[0])
        if c["cached"]:
            a.cache(full, bs)
        a.fmt = fmts[1]
        s = a.scores(full, bs, te, tbs)
        a.fmt = fmts[2]
        return s, a.selfs(full, bs)
    base, selfs = outcome(["tuple"] * 3)
    scale = float(base.abs().max())
    sscale = max(scale, float(selfs[torch.isfinite(selfs)].abs().max()) if selfs is not None else 0)
    for _ in range(3):
        fm = [rng.choice(FMT) for _ in range(3)] if mixed else [rng.choice(FMT[1:4] if kind in A.BLOCK else FMT[1:])] * 3
        s, f = outcome(fm)
        m.saw(kind, P.spec["kind"], n, mm, str(fm), bs, tbs, c["cached"])
        m.close(f"format {kind}", s, base, tol=2 * A.tol(kind), scale=scale, msg=f"formats {fm}")
        if f is not None:
            ok = torch.isfinite(selfs)
            m.close(f"self format {kind}", f[ok], selfs[ok], tol=2 * A.tol(kind), scale=sscale, msg=f"formats {fm}")
