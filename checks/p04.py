"""Arnoldi influence: exact with full Krylov space, rank-k otherwise, seed-determined."""
import random
import torch
from vmon.workloads import Problem, rand_spec
from checks.p01 import choose_lam

LEVEL = "exploration"
RULE = ("float32 and float64 problems with positive-definite, simple-spectrum full-batch Hessian (selected by an oracle on the dense "
        "Hessian); scores vs the dense rank-k pseudo-inverse; plus seed/RNG-history metamorphic pairs; distinct by (scenario, "
        "architecture, sizes, k, batching)")
MIN_EVENTS = {"compared": 20}


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for _ in range(70 if q else 500):
        s = rand_spec(rng, maxcheck=2, dtypes=("float32", "float64"), kinds=["linear", "mlp"], losses=("mse",))
        s.update(d=rng.randint(2, 5), h=2, k=1, n=rng.randint(6, 14))
        if s["kind"] == "mlp":
            s["d"] = rng.randint(1, 2)
        s["target"] = rng.choice([None, "outsum"])
        out.append(dict(scenario=rng.choice(["full", "full", "rank_k", "indefinite"]), spec=s, lay=rng.randrange(10**6), bs=rng.randint(1, 7),
                        cbs=rng.choice([99, 99, 3, 4, 5]), aseed=rng.randrange(1000), nc=rng.choice([1.0, 1.0, 2.5]), ratio=rng.choice([1.0, 1.0, 0.5])))
    for _ in range(8 if q else 60):
        s = rand_spec(rng, maxcheck=2, dtypes=("float32",), kinds=["linear", "mlp"], losses=("ce", "mse"))
        out.append(dict(scenario="seed", spec=s, lay=rng.randrange(10**6), bs=rng.randint(1, 7), aseed=rng.randrange(1000)))
    return out


def run(m, c):
    from dattri.algorithm.influence_function import IFAttributorArnoldi
    P = Problem(c["spec"])
    layers = P.pick_layers(random.Random(c["lay"]))
    scen = c["scenario"]
    if scen == "seed":
        npar = P.grads(0, layers=layers).shape[1]
        outs = []
        for junk in (1, 2):
            torch.manual_seed(junk * 77)
            att = IFAttributorArnoldi(P.task(), layer_name=layers, proj_dim=max(1, npar // 3), max_iter=max(2, npar // 2),
                                      regularization=50.0, seed=c["aseed"])
            att.cache(P.loader("train"))
            torch.rand(junk)
            outs.append(att.attribute(P.loader("train", c["bs"] if junk == 1 else 99), P.loader("test", 99 if junk == 1 else c["bs"])))
        m.saw(str(P.spec), npar)
        m.close("seed_determines", outs[0], outs[1], tol=1e-4)
        return
    cbs = c["cbs"]
    nb = -(-P.spec["n"] // cbs)
    import math
    use = math.ceil(nb * c["ratio"])
    idx = list(range(min(P.spec["n"], use * cbs)))
    Hs = [P.hessian(k, layers, idx=idx) for k in range(len(P.states))]
    lam = max(0.0, -min(float(torch.linalg.eigvalsh(H).min()) for H in Hs))
    top = max(float(torch.linalg.eigvalsh(H).abs().max()) for H in Hs)
    lam += 0.2 * top
    if scen == "indefinite":
        # some kept eigenvalues are negative: they are dropped, not turned into NaN
        mid = sum(torch.linalg.eigvalsh(H).median().item() for H in Hs) / len(Hs)
        lam = -mid + 0.05 * top
    npar = len(Hs[0])
    for H in Hs:
        ev = torch.linalg.eigvalsh(H)
        mags = (ev + lam).abs().sort().values
        if scen == "indefinite" and (float(mags[0]) < 0.02 * float(mags[-1]) or float((ev + lam).max()) <= 0
                                     or (npar > 1 and float((mags[1:] - mags[:-1]).min()) < 1e-2 * float(mags[-1]))):
            m.ev("skipped_clustered_spectrum")
            m.sig.append("skip")
            return
        if npar > 1 and float((ev[1:] - ev[:-1]).min()) < 2e-2 * float(ev[-1] + lam) or npar > 8:
            m.ev("skipped_clustered_spectrum")
            m.sig.append("skip")
            return
    k = npar if scen == "full" else max(1, npar // 2)
    if scen == "indefinite":
        k = c["bs"] % npar + 1
    att = IFAttributorArnoldi(P.task(), layer_name=layers, proj_dim=k if scen != "full" else npar + c["bs"] % 2, max_iter=100, norm_constant=c.get("nc", 1.0),
                              regularization=lam, seed=c["aseed"], precompute_data_ratio=c["ratio"])
    att.cache(P.loader("train", cbs))
    got = att.attribute(P.loader("train", c["bs"]), P.loader("test", max(1, c["bs"] - 1)))
    tot, mag = 0, 0
    for i, H in enumerate(Hs):
        ev, U = torch.linalg.eigh(H + lam * torch.eye(npar, dtype=H.dtype))
        if scen == "rank_k":
            ev, U = ev[-k:], U[:, -k:]
        if scen == "indefinite":
            top_k = ev.abs().argsort()[-k:]
            keep = top_k[ev[top_k] > 0]
            ev, U = ev[keep], U[:, keep]
            m.ev("indefinite")
            if not len(keep):
                mag = max(mag, 1.0)
                continue
        g, t = P.grads(i, "train", False, layers), P.grads(i, "test", True, layers)
        tot = tot + (g @ U / ev) @ (t @ U).T
        mag = max(mag, float(((g @ U / ev.sqrt()).norm(dim=1).max() * (t @ U / ev.sqrt()).norm(dim=1).max())))
    m.saw(P.spec["kind"], P.spec["n"], P.spec["m"], npar, k, str(layers), c["bs"], cbs)
    m.ev("spectra", len(Hs))
    m.close(scen, got, tot / len(Hs), tol=5e-3 if P.spec['dtype'] == 'float32' else 2e-5, scale=mag, msg=f"npar={npar} k={k}")
