"""TracIn family == weighted gradient inner products."""
import random
import torch
from vmon.workloads import Problem, rand_spec, KINDS, FixedSampler

LEVEL = "exploration"
RULE = ("random networks, ensembles, weights, layer selections, batchings, loader formats, normalization and projection types; each score "
        "recomputed from per-sample reverse-mode autograd in float64 (projection matrix read out through the public projector); distinct by "
        "(architecture, sizes, layers, projection, normalization, batching)")
MIN_EVENTS = {"compared": 30}


def gen(rng, tier):
    out = []
    for _ in range(130 if tier == "quick" else 1100):
        s = rand_spec(rng, kinds=KINDS)
        if rng.random() < 0.3:
            s["lscale"] = rng.choice([1e-5, 1e-3, 1e-2, 30.0])
        ty = rng.choice(["identity", "identity", "normal", "rademacher", "random_mask", "default"])
        out.append(dict(scenario="tracin", spec=s, lay=rng.randrange(10**6), bs=rng.randint(1, 9), tbs=rng.randint(1, 7),
                        norm=rng.random() < 0.35, proj=ty, pd=rng.randint(1, 12), pseed=rng.choice([0, 0, 1, 77]),
                        w=[round(rng.uniform(-1, 2), 3) for _ in range(s["ncheck"])], wt=rng.choice(["tensor", "list"]),
                        sub=rng.choice([False, False, True]), wrap=rng.choice(["plain", "str"])))
    return out


def projector(P, params, npar, ckpt, ref):
    from dattri.func.projection import random_project
    from dattri.params.projection import RandomProjectionParams
    if params.proj_type == "identity":
        return torch.eye(npar, dtype=torch.float64)
    eye = torch.eye(npar, dtype=P.dtype)
    f = random_project(eye, RandomProjectionParams(feature_batch_size=npar, device="cpu", **params.model_dump()))
    return f(eye, ensemble_id=ckpt).double()


def run(m, c):
    from dattri.algorithm.tracin import TracInAttributor
    from dattri.params.projection import TracInProjectionParams
    rng = random.Random(c["lay"])
    P = Problem(c["spec"])
    layers = P.pick_layers(rng)
    passed = layers
    if layers and len(layers) == 1 and c["wrap"] == "str":
        passed = layers[0]
    g0 = P.grads(0, "train", False, layers)
    if c["proj"] == "default":
        pp = None
        eff = TracInProjectionParams()
    else:
        pd = c["pd"]
        if c["proj"] == "random_mask":
            pd = min(pd, g0.shape[1])
        eff = pp = TracInProjectionParams(proj_dim=pd, proj_type=c["proj"], proj_seed=c["pseed"])
    w = torch.tensor(c["w"]) if c["wt"] == "tensor" else c["w"]
    att = TracInAttributor(P.task(), weight_list=w, normalized_grad=c["norm"], proj_params=pp, layer_name=passed)
    idx = None
    if c["sub"]:
        idx = sorted(rng.sample(range(P.spec["n"]), rng.randint(1, P.spec["n"])), key=lambda _: rng.random())
    ltr = P.loader("train", c["bs"], sampler=FixedSampler(idx) if idx else None)
    got = att.attribute(ltr, P.loader("test", c["tbs"]))
    tot, mag = 0, 0
    for k in range(len(P.states)):
        g, t = P.grads(k, "train", False, layers), P.grads(k, "test", True, layers)
        if idx:
            g = g[idx]
        M = projector(P, eff, g.shape[1], k, g)
        g, t = g @ M, t @ M
        if c["norm"]:
            g, t = torch.nn.functional.normalize(g), torch.nn.functional.normalize(t)
        tot = tot + c["w"][k] * (g @ t.T)
        mag = max(mag, float(g.norm(dim=1).max() * t.norm(dim=1).max()) * max(1, abs(c["w"][k])))
    m.saw(P.spec["kind"], P.spec["n"], P.spec["m"], str(layers), c["proj"], c["norm"], c["bs"], c["tbs"], len(P.states), bool(idx))
    m.close("tracin", got, tot, tol=2e-5, scale=mag, msg=f"layers={layers} proj={c['proj']} norm={c['norm']} idx={idx}")
