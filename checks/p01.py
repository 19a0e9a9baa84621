"""Explicit influence == closed form."""
import torch
from vmon.workloads import Problem, rand_spec

LEVEL = "exploration"
RULE = ("random small networks (5 architectures), losses (also scaled down / up), separate targets, checkpoint ensembles, layer subsets, "
        "RelatIF modes and train/test batchings; a case is non-trivial when the monitor compared scores against the "
        "dense float64 autograd oracle, distinct by (scenario, architecture, sizes, layers, batching)")
MIN_EVENTS = {"compared": 20}


def gen(rng, tier):
    n = 110 if tier == "quick" else 900
    out = []
    for _ in range(n):
        s = rand_spec(rng)
        rel = rng.choice([None, None, "l", "theta"])
        if rel == "l" and rng.random() < 0.7:
            s["target"] = None
        if rng.random() < 0.3:  # weakly / strongly scaled losses: tiny and large gradients
            s["lscale"] = rng.choice([1e-3, 1e-2, 30.0])
        out.append(dict(scenario="explicit" if rel is None else "relatif_" + rel, spec=s, rel=rel,
                        lam=rng.choice(["pd", "pd", "big"]), lay=rng.randrange(10**6), bs=rng.randint(1, 6),
                        cached=rng.random() < 0.75))
    # layer selected by a single name instead of a list
    for _ in range(6 if tier == "quick" else 30):
        s = rand_spec(rng)
        out.append(dict(scenario="layer_name_str", spec=s, rel=None, lam="pd", lay="str", bs=2, cached=True))
    return out


def oracle(P, layers, lam, rel=None, ckpts=None):
    tot, mask = 0, None
    cks = range(len(P.states)) if ckpts is None else ckpts
    for c in cks:
        g = P.grads(c, "train", False, layers)
        t = P.grads(c, "test", True, layers)
        H = P.hessian(c, layers)
        A = H + lam * torch.eye(len(H), dtype=H.dtype)
        sc = g @ torch.linalg.solve(A, t.T)
        if rel:
            hg = torch.linalg.solve(A, g.T).T
            if rel == "theta":
                den = hg.norm(dim=1)
            else:
                tt = P.grads(c, "train", True, layers)
                val = (tt * hg).sum(1)
                ok = val > 1e-4 * float((tt.norm(dim=1) * hg.norm(dim=1)).max()) + 2e-12
                mask = ok if mask is None else (mask & ok)
                den = val.clamp_min(1e-12).sqrt()
            ok = den > 1e-11
            mask = ok if mask is None else (mask & ok)
            den = den.clamp_min(1e-12)
            sc = sc / den[:, None]
        tot = tot + sc
    return tot / len(list(cks)), mask


def choose_lam(P, layers, how):
    lo = min(float(torch.linalg.eigvalsh(P.hessian(c, layers)).min()) for c in range(len(P.states)))
    return max(0.0, -lo) + (0.3 if how == "pd" else 2.0)


def run(m, c):
    import random
    from dattri.algorithm.influence_function import IFAttributorExplicit
    P = Problem(c["spec"])
    if c["lay"] == "str":
        layers = random.Random(c["spec"]["seed"]).choice(P.pnames)
    else:
        layers = P.pick_layers(random.Random(c["lay"]))
    lam = choose_lam(P, layers, c["lam"])
    att = IFAttributorExplicit(P.task(), layer_name=layers, regularization=lam)
    full = P.loader("train")
    bs = c["bs"]
    if c["cached"]:
        att.cache(full)
        tr = P.loader("train", bs)
    else:
        tr = full
    te = P.loader("test", max(1, bs - 1))
    got = att.attribute(tr, te, relatif_method=c["rel"]) if c["rel"] else att.attribute(tr, te)
    want, mask = oracle(P, layers, lam, c["rel"])
    m.saw(P.spec["kind"], P.spec["n"], P.spec["m"], len(P.states), str(layers), bs, P.spec["loss"], P.spec["target"])
    if mask is not None and got.shape == want.shape:
        m.ev("rows_compared", int(mask.sum()))
        got, want = got[mask], want[mask]
    m.close(c["scenario"], got, want, tol=3e-5, msg=f"layers={layers} lam={lam:.3g}")
