"""Flattening, partial parameters and size-limited partitions lose nothing."""
import random
import torch
from torch import nn
from vmon.workloads import Problem, rand_spec, KINDS

LEVEL = "exploration"
RULE = ("random module trees (nested, shared-prefix names, scalars, frozen parameters, 0-size dims excluded) and dtypes: flatten/unflatten "
        "round trips, wrapped functions evaluated on random flat / per-layer / partial parameters against the function on an independently "
        "assembled dictionary; random size lists and batch sizes for the partition; distinct by (shape list, selection)")
MIN_EVENTS = {"roundtrip": 40, "partial": 40, "partition": 100}


def gen(rng, tier):
    out = []
    k = 1 if tier == "quick" else 8
    for _ in range(90 * k):
        out.append(dict(scenario="flatten", pick=rng.randrange(10**9)))
    for _ in range(40 * k):
        out.append(dict(scenario="network", spec=rand_spec(rng, kinds=KINDS), pick=rng.randrange(10**9)))
    for _ in range(60 * k):
        out.append(dict(scenario="partition", pick=rng.randrange(10**9)))
    return out


class Tree(nn.Module):
    def __init__(self, rng, depth, dtype, gen):
        super().__init__()
        pool = ["w", "weight", "bias", "a", "ab", "b"]
        rng.shuffle(pool)
        for nm in pool[:rng.randint(0 if depth else 1, 4)]:
            shape = [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 1, 2, 2, 3]))]
            p = nn.Parameter(torch.randn(shape, generator=gen, dtype=torch.float64).to(dtype), requires_grad=rng.random() < 0.8)
            self.register_parameter(nm, p)
        if depth < 2:
            for i in range(rng.randint(0, 2)):
                self.add_module(rng.choice(["0", "layer", "layer1", "m"]) + str(i), Tree(rng, depth + 1, dtype, gen))


def fingerprint(params, x):
    """A scalar that depends on every entry and on which name it sits under, plus data."""
    tot = 0
    for i, (n, p) in enumerate(sorted(params.items())):
        w = torch.arange(1, p.numel() + 1, dtype=p.dtype).reshape(p.shape)
        tot = tot + ((p * w).sin() * (i + 1)).sum() + (p.sum() * x.sum()) * (i + 2)
    return tot


def run(m, c):
    from dattri.func import utils as U
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    if c["scenario"] == "partition":
        for _ in range(25):
            bs = rng.choice([1, 7, 2**20, 2**26, 2**27, 2**28, 2**29, 3 * 2**25])
            limit = (2**32 - 1) // (2 * bs)
            top = limit if rng.random() < 0.6 else 3 * limit
            sizes = [rng.choice([rng.randint(1, max(1, top)), rng.randint(1, max(1, limit // 3)), max(1, limit - 1)])
                     for _ in range(rng.randint(1, 9))]
            if sum(sizes) / limit > 400:
                continue
            mx, chunks = U.get_parameter_chunk_sizes(list(sizes), bs)
            chunks = [int(x) for x in chunks]
            m.ev("partition")
            m.saw(sizes, bs)
            info = f"sizes={sizes} batch={bs} limit={limit} chunks={chunks}"
            m.check("total", sum(chunks) == sum(sizes), info)
            m.check("limit", int(mx) == limit and all(0 < x <= limit for x in chunks), info)
            cuts, t = set(), 0
            for x in chunks:
                t += x
                cuts.add(t)
            t = 0
            for s in sizes:
                if s < limit:
                    m.check("no-split", not any(t < q < t + s for q in cuts), info)
                t += s
        return
    if c["scenario"] == "network":
        P = Problem(c["spec"])
        model, params = P.model, {n: p for n, p in P.model.named_parameters() if p.requires_grad}
        batch = next(iter(P.loader("train", len(P.x))))
        f = P.loss_func()
        F = lambda prm: f(prm, batch)  # noqa: E731
    else:
        dtype = rng.choice([torch.float64, torch.float32])
        model = Tree(rng, 0, dtype, g)
        params = {n: p for n, p in model.named_parameters() if p.requires_grad}
        if not params:
            m.ev("skipped")
            return
        x = torch.randn(3, generator=g, dtype=torch.float64).to(dtype)
        F = lambda prm: fingerprint(prm, x)  # noqa: E731
    names = list(params)
    m.saw([tuple(p.shape) for p in params.values()])
    orig = {n: p.detach().clone() for n, p in params.items()}
    flat = U.flatten_params(params).detach()
    want = torch.cat([p.detach().reshape(-1) for p in params.values()])
    m.equal("flatten", flat, want)
    new = torch.randn(flat.shape, generator=g, dtype=torch.float64).to(flat.dtype)
    un = U._unflatten_params(new, model)
    m.ev("roundtrip")
    m.check("names", list(un) == names, f"{list(un)} want {names}")
    m.equal("roundtrip", U.flatten_params(un).detach(), new)
    off, expect, layers = 0, {}, []
    for n, p in params.items():
        k = p.numel()
        expect[n] = new[off:off + k].reshape(p.shape)
        layers.append(new[off:off + k])
        off += k
    for n in names:
        m.equal("unflatten", un[n].detach(), expect[n], msg=n)
    wrapped = U.flatten_func(model)(lambda prm, *a, **k: F(prm))
    m.close("flat-call", wrapped(new), F(expect), tol=1e-6 if flat.dtype == torch.float32 else 1e-12)
    m.close("layer-call", wrapped(tuple(layers)), F(expect), tol=1e-6 if flat.dtype == torch.float32 else 1e-12)
    # another parameter position and keyword arguments
    wr2 = U.flatten_func(model, param_num=1)(lambda s, prm, scale=1.0: F(prm) * s * scale)
    m.close("position", wr2(2.0, new, scale=3.0), F(expect) * 6, tol=1e-6 if flat.dtype == torch.float32 else 1e-12)
    for _ in range(4):
        sel = rng.sample(names, rng.randint(1, len(names)))
        if rng.random() < 0.5:
            sel = [n for n in names if n in sel]
        arg = sel[0] if len(sel) == 1 and rng.random() < 0.6 else list(sel)
        merged = {n: orig[n].clone() for n in names}
        off = 0
        part = torch.cat([torch.randn(orig[n].numel(), generator=g, dtype=torch.float64).to(flat.dtype) for n in sel])
        for n in sel:
            k = orig[n].numel()
            merged[n] = part[off:off + k].reshape(orig[n].shape)
            off += k
        full = dict(params)
        pf = U.partial_param(full_param=full, layer_name=arg)(wrapped)
        m.ev("partial")
        tol = 1e-6 if flat.dtype == torch.float32 else 1e-12
        m.close("partial-call", pf(part), F(merged), tol=tol, msg=f"{sel}")
        gr = torch.func.grad(pf)(part)
        q = part.clone().requires_grad_()
        off, md = 0, {n: orig[n] for n in names}
        for n in sel:
            k = orig[n].numel()
            md[n] = q[off:off + k].reshape(orig[n].shape)
            off += k
        m.close("partial-grad", gr, torch.autograd.grad(F(md), q)[0], tol=10 * tol, msg=f"{sel}")
        m.close("partial-again", pf(part), F(merged), tol=tol)
        m.check("inputs", list(full) == names and all(full[n] is params[n] for n in names), "caller's dictionary changed")
    for n, p in params.items():
        m.equal("model", p.detach(), orig[n], msg="model parameter changed " + n)
    # batched gradients, one row per sample
    b = rng.randint(1, 5)
    gd = {n: torch.randn((b, *p.shape), generator=g, dtype=torch.float64).to(flat.dtype) for n, p in params.items()}
    want = torch.cat([t.reshape(b, -1) for t in gd.values()], 1)
    m.equal("vectorize", U._vectorize(gd, device="cpu"), want)
    arr = torch.full(want.shape, 7.0, dtype=flat.dtype)
    m.equal("vectorize-into", U._vectorize(gd, arr=arr, device="cpu"), want)
