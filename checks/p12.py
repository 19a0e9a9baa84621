"""Block-projected influence == its closed form from plain autograd gradients."""
import os, random
import torch
from vmon.workloads import FixedSampler, rand_spec
from vmon import block
block.no_compile()

LEVEL = "exploration"
RULE = ("random networks with linear layers on 2-D and sequence inputs, layer selections, losses, separate targets, tuple/dict batches, "
        "batchings, Hessian kinds, dampings, offload modes, and identity / LoGra / FactGraSS / generic two-stage compression; scores, subset "
        "scores and self-influence recomputed in float64 from plain per-sample autograd, the compression map read by compressing unit "
        "gradients; a few cases run with torch.compile on; distinct by (architecture, layers, compression, Hessian, offload, batching)")
MIN_EVENTS = {"compared": 100, "compiled_cases": 1}
CASE_LIMIT = 280


def gen(rng, tier):
    out = []
    for i in range(120 if tier == "quick" else 1100):
        s = rand_spec(rng, kinds=block.KINDS_B, maxcheck=2, fmts=("tuple", "tuple", "dict"), frozen=False, dtypes=("float32", "float32", "float64"))
        if rng.random() < 0.3:
            s["lscale"] = rng.choice([1e-2, 30.0])
        s["n"] = rng.randint(2, 14)
        if s["kind"] == "norm":
            s["h"] = 4  # layer norm over two features has no float32 gradient to speak of
        comp = rng.choice(["identity", "identity", "logra", "factgrass", "generic", "default"])
        out.append(dict(scenario="block", spec=s, pick=rng.randrange(10**6), comp=comp, bs=rng.randint(1, 7), tbs=rng.randint(1, 7),
                        hess=rng.choice(["eFIM", "eFIM", "Identity"]), damping=rng.choice([0.01, 0.03, 0.3, 3.0, None]),
                        offload=rng.choice(["none", "cpu", "disk"]), chunk=rng.choice([1, 2, 3, 16]), pseed=rng.choice([0, 0, 1, 9]),
                        k=rng.choice([1, 4, 9, 16]), blow=rng.choice([1, 4]), t1=rng.choice(["normal", "rademacher"]),
                        cached=rng.random() < 0.7, sub=rng.random() < 0.4, drop=rng.random() < 0.1))
    for j in range(2 if tier == "quick" else 10):
        out.append(dict(out[j * 3], scenario="compiled", compile=True, limit=280))
    # many samples: more test samples than one scoring block, many chunks
    for j in range(3 if tier == "quick" else 10):
        c = dict(out[j * 5], scenario="large", comp="identity", bs=rng.randint(2, 5), chunk=rng.choice([1, 2, 4]), offload=["none", "cpu", "disk"][j % 3])
        c["spec"] = dict(c["spec"], kind="mlp", n=rng.randint(45, 70), m=rng.randint(40, 70), fmt="tuple")
        out.append(c)
    # a layer that takes no part in some of the passes, or in any, has zero gradients there
    for j in range(12 if tier == "quick" else 60):
        c = dict(rng.choice(out[:100]), scenario="idle")
        c["spec"] = dict(c["spec"], kind=rng.choice(["linear", "mlp", "mlp3"]) + rng.choice(["+aux", "+gate"]))
        if c["spec"]["kind"].endswith("+gate"):
            c["bs"] = c["tbs"] = 1
        out.append(c)
    return out


def build(P, c, rng, cache_dir=None, offload=None, chunk=None, layers="pick"):
    from dattri.algorithm.block_projected_if.block_projected_if import BlockProjectedIFAttributor
    from dattri.algorithm.logra import LoGraAttributor
    from dattri.algorithm.factgrass import FactGraSSAttributor
    from dattri.params.projection import FactGrassProjectionParams, GeneralProjectionParams, LoGraProjectionParams
    allm = P.linears()
    names = None
    if layers == "pick":
        if rng.random() < 0.5:
            names = rng.sample(allm, rng.randint(1, len(allm)))
    else:
        names = layers
    off = offload or c["offload"]
    kw = dict(task=P.task(), layer_names=names[0] if names and len(names) == 1 and rng.random() < 0.5 else names,
              hessian=c["hess"], damping=c["damping"], offload=off, chunk_size=chunk or c["chunk"],
              cache_dir=cache_dir or (os.path.abspath("store") if off == "disk" else None))
    comp = c["comp"]
    if comp == "identity":
        ident = GeneralProjectionParams(proj_dim=-1, proj_max_batch_size=64, proj_type="identity")
        att = BlockProjectedIFAttributor(sparsifier_params=ident, projector_params=ident, **kw)
    elif comp == "logra":
        att = LoGraAttributor(proj_params=LoGraProjectionParams(proj_dim_per_layer=c["k"], proj_seed=c["pseed"]), **kw)
    elif comp == "factgrass":
        # the masks must not ask for more coordinates than a factor has (at least 2)
        kk, blow = (1, c["blow"]) if c["blow"] == 4 else (c["k"] if c["k"] <= 4 else 4, 1)
        att = FactGraSSAttributor(proj_params=FactGrassProjectionParams(proj_dim_per_layer=kk, proj_seed=c["pseed"]), blowup_factor=blow, **kw)
    elif comp == "generic":
        sp = GeneralProjectionParams(proj_dim=c["k"] % 5 + 1, proj_max_batch_size=8, proj_type=c["t1"], proj_seed=c["pseed"])
        pr = GeneralProjectionParams(proj_dim=c["k"], proj_max_batch_size=8, proj_type="rademacher" if c["t1"] == "normal" else "normal",
                                     proj_seed=c["pseed"] + 3)
        att = BlockProjectedIFAttributor(sparsifier_params=sp, projector_params=pr, **kw)
    else:
        att = BlockProjectedIFAttributor(**kw)
    return att, (names or allm)


def dims(P, n):
    mod = P.model.get_submodule(n)
    return mod.out_features, mod.in_features + (mod.bias is not None)


def run(m, c):
    if c.get("compile"):
        block.with_compile()
        m.ev("compiled_cases")
    P = block.BProblem(c["spec"])
    rng = random.Random(c["pick"])
    att, names = build(P, c, rng)
    n = P.spec["n"]
    ltr, lte = P.loader("train", c["bs"]), P.loader("test", c["tbs"])
    if c["cached"]:
        att.cache(ltr)
    got = att.attribute(ltr, lte)
    mats = [None if c["comp"] == "identity" or cp is None else block.probe(cp, *dims(P, nm)) for cp, nm in zip(att.compressors, names)]
    if P.spec["kind"].endswith("+aux") and "side" in names:
        # nothing is known about this layer, and nothing depends on it
        mats, names = zip(*[(C, nm) for C, nm in zip(mats, names) if nm != "side"]) if len(names) > 1 else ((), ())
        if not names:
            m.equal("nothing", bool((got == 0).all()), True)
            return
    want, selfw, mag, cond = block.oracle(P, mats, names, c["hess"], c["damping"])
    if want is None:
        m.ev("skipped_degenerate")
        return
    tol = 1e-4 + 1e-6 * cond
    if tol > 0.05:
        # the inverse is formed in float32: beyond this conditioning no accuracy is claimed
        m.ev("skipped_illconditioned")
        m.check("finite", torch.isfinite(got).all() and got.shape == want.shape, "non-finite scores or wrong shape")
        return
    m.saw(P.spec["kind"], n, P.spec["m"], str(names), c["comp"], c["hess"], c["offload"], c["bs"], c["tbs"], c["damping"])
    m.close("scores", got, want, tol=tol, scale=mag, msg=f"{c['comp']} {c['hess']} layers={names}")
    m.close("self", att.compute_self_attribution(), selfw, tol=tol, scale=mag, msg=f"{c['comp']} {c['hess']} layers={names}")
    if c["sub"]:
        # the same attributor scores any part of the training data under the cached statistics
        idx = [rng.randrange(n) for _ in range(rng.randint(1, n))]
        gs = att.attribute(P.loader("train", c["tbs"], sampler=FixedSampler(idx)), lte)
        ws, _, _, _ = block.oracle(P, mats, names, c["hess"], c["damping"], tidx=idx)
        m.close("subset", gs, ws, tol=tol, scale=mag, msg=f"idx={idx}")
    if not P.spec["target"]:
        # train against train: its diagonal is the self-influence
        gt = att.attribute(ltr, P.loader("train", c["tbs"]))
        m.close("diag", torch.diagonal(gt), selfw, tol=tol, scale=mag)
    m.close("repeat", att.attribute(ltr, lte), got, tol=1e-5, scale=mag)
