"""DataInf == layer-wise closed form."""
import math, random
import torch
from vmon.workloads import Problem, rand_spec

LEVEL = "exploration"
RULE = ("random networks, layer selections, ensembles, regularization, cached ratio and batchings; scores vs the layer-wise mean "
        "of rank-one inverses evaluated sample by sample in float64; distinct by (architecture, sizes, layers, batching, ratio)")
MIN_EVENTS = {"compared": 20}


def gen(rng, tier):
    out = []
    for _ in range(110 if tier == "quick" else 900):
        s = rand_spec(rng, kinds=["linear", "mlp", "mlp3", "conv", "norm"])
        if rng.random() < 0.3:
            s["lscale"] = rng.choice([1e-3, 1e-2, 30.0])
        s["n"] = rng.randint(2, 9)
        out.append(dict(scenario="datainf", spec=s, lay=rng.randrange(10**6), bs=rng.randint(1, 6), cbs=rng.randint(1, 9),
                        reg=rng.choice([1e-3, 0.1, 1.0, 10.0]), ratio=rng.choice([1.0, 1.0, 0.3, 0.5, 0.75])))
    return out


def groups(names):
    out, cur = [], None
    for i, n in enumerate(names):
        mod = n.rsplit(".", 1)[0]
        if mod != cur:
            out.append([])
            cur = mod
        out[-1].append(i)
    return out


def datainf(V, G, blocks, r):
    """V (m,P), G (n,P), blocks list of index ranges."""
    out = torch.zeros_like(V)
    for sl in blocks:
        v, g = V[:, sl], G[:, sl]
        acc = torch.zeros_like(v)
        for gi in g:
            acc += (v - ((v @ gi) / (r + gi @ gi))[:, None] * gi[None]) / r
        out[:, sl] = acc / len(g)
    return out


def blocks_for(P, layers):
    names = P.sel(layers)
    ps = dict(P.model.named_parameters())
    off, pos = [], 0
    for n in names:
        off.append((pos, pos + ps[n].numel()))
        pos += ps[n].numel()
    return [slice(off[b[0]][0], off[b[-1]][1]) for b in groups(names)]


def run(m, c):
    from dattri.algorithm.influence_function import IFAttributorDataInf
    P = Problem(c["spec"])
    layers = P.pick_layers(random.Random(c["lay"]))
    if layers:
        layers = [n for n in P.pnames if n in layers]
    att = IFAttributorDataInf(P.task(), layer_name=layers, regularization=c["reg"], fim_estimate_data_ratio=c["ratio"])
    att.cache(P.loader("train", c["cbs"]))
    got = att.attribute(P.loader("train", c["bs"]), P.loader("test", max(1, c["bs"] - 1)))
    n = P.spec["n"]
    nb = -(-n // c["cbs"])
    keep = min(n, math.ceil(nb * c["ratio"]) * c["cbs"])
    bl = blocks_for(P, layers)
    tot, mag = 0, 0
    for k in range(len(P.states)):
        g, t = P.grads(k, "train", False, layers), P.grads(k, "test", True, layers)
        tr = datainf(t, g[:keep], bl, c["reg"])
        tot = tot + g @ tr.T
        mag = max(mag, float(g.norm(dim=1).max() * tr.norm(dim=1).max()))
    m.saw(P.spec["kind"], n, P.spec["m"], str(layers), c["bs"], c["cbs"], c["ratio"], len(bl), len(P.states))
    m.close("datainf", got, tot / len(P.states), tol=2e-5, scale=mag, msg=f"layers={layers} keep={keep}/{n} blocks={len(bl)}")
