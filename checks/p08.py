"""TRAK == ensemble formula."""
import random
import torch
from vmon.workloads import Problem, rand_spec, KINDS
from checks.p07 import projector

LEVEL = "exploration"
RULE = ("random networks, ensembles, projections, regularization, layer selections and batchings, cached and uncached; scores recomputed "
        "from per-sample autograd in float64; distinct by (architecture, sizes, layers, projection, batching, cached)")
MIN_EVENTS = {"compared": 30}


def gen(rng, tier):
    out = []
    for _ in range(110 if tier == "quick" else 900):
        s = rand_spec(rng, kinds=KINDS, losses=("ce", "margin"))
        if rng.random() < 0.3:
            s["lscale"] = rng.choice([1e-2, 10.0])
        s["target"] = rng.choice([None, None, "margin", "logit"])
        s["n"] = rng.randint(2, 10)
        out.append(dict(scenario="trak", spec=s, lay=rng.randrange(10**6), bs=rng.randint(1, 10), tbs=rng.randint(1, 7),
                        proj=rng.choice(["identity", "normal", "rademacher", "random_mask", "normal"]), pd=rng.randint(1, 12),
                        pseed=rng.choice([0, 0, 1, 77]), reg=rng.choice([1e-3, 1e-2, 0.1, 1.0]), cached=rng.random() < 0.5,
                        wrap=rng.choice(["plain", "str"])))
    return out


def prob_func(P):
    model = P.model

    def f(params, data):
        x, y = P._unpack(data)
        yhat = torch.func.functional_call(model, params, (x.unsqueeze(0),))
        return torch.softmax(yhat, -1).gather(-1, y.long().reshape(1, 1)).reshape(())
    return f


def probs(P, k):
    net = P._plain(k)
    with torch.no_grad():
        return torch.softmax(net(P.cast(P.x)), -1).gather(-1, P.y.unsqueeze(-1)).squeeze(-1)


def oracle(P, layers, eff, reg, nck=None):
    tot, Q, mag = 0, 0, 0
    K = len(P.states)
    npar = sum(p.numel() for p in P.model.parameters() if p.requires_grad)
    for k in range(K):
        g, t = P.grads(k, "train", False, layers), P.grads(k, "test", True, layers)
        M = projector(P, eff, g.shape[1], k, g)
        g, t = g @ M / npar ** .5, t @ M / npar ** .5
        ker = g.T @ g + reg * torch.eye(g.shape[1])
        inv = torch.linalg.solve(ker, t.T)
        tot = tot + g @ inv / K
        Q = Q + (1 - probs(P, k)) / K
        mag = max(mag, float(g.norm(dim=1).max() * inv.norm(dim=0).max()))
    return tot * Q[:, None], mag


def run(m, c):
    from dattri.algorithm.trak import TRAKAttributor
    from dattri.params.projection import TRAKProjectionParams
    rng = random.Random(c["lay"])
    P = Problem(c["spec"])
    layers = P.pick_layers(rng)
    passed = layers[0] if layers and len(layers) == 1 and c["wrap"] == "str" else layers
    npar = P.grads(0, "train", False, layers).shape[1]
    pd = min(c["pd"], npar) if c["proj"] == "random_mask" else c["pd"]
    eff = TRAKProjectionParams(proj_dim=pd, proj_type=c["proj"], proj_seed=c["pseed"])
    att = TRAKAttributor(P.task(), prob_func(P), proj_params=eff, layer_name=passed, regularization=c["reg"])
    if c["cached"]:
        att.cache(P.loader("train", c["bs"]))
        got = att.attribute(P.loader("test", c["tbs"]))
    else:
        got = att.attribute(P.loader("test", c["tbs"]), P.loader("train", c["bs"]))
    want, mag = oracle(P, layers, eff, c["reg"])
    m.saw(P.spec["kind"], P.spec["n"], P.spec["m"], str(layers), c["proj"], c["reg"], c["bs"], c["tbs"], len(P.states), c["cached"])
    m.close("trak", got, want, tol=2e-5, scale=mag, msg=f"layers={layers} proj={c['proj']} cached={c['cached']} reg={c['reg']}")
    if rng.random() < 0.4:
        bs2 = rng.randint(1, 10)
        att2 = TRAKAttributor(P.task(), prob_func(P), proj_params=eff, layer_name=passed, regularization=c["reg"])
        if c["cached"]:
            got2 = att2.attribute(P.loader("test", c["tbs"]), P.loader("train", bs2))
        else:
            att2.cache(P.loader("train", bs2))
            got2 = att2.attribute(P.loader("test", c["tbs"]))
        m.close("trak cached vs recomputed", got2, got, tol=2e-5, scale=mag)
