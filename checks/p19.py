"""Hessian-vector products == (dense Hessian + regularization I) v."""
import random
import torch
from vmon import funcs
from vmon.workloads import Problem, rand_spec

LEVEL = "exploration"
RULE = ("random twice-differentiable functions of one or three arguments (flat or matrix-shaped argument, any position) and losses of random "
        "networks, both autodiff modes, lazily built (one function reused at several points) and prepared at a point, single vectors and "
        "vmapped batches, regularization incl. 0 and negative; against the dense Hessian by double backward; linearity, symmetry, "
        "non-interference of inputs; distinct by (function, position, mode, dtype, sizes)")
MIN_EVENTS = {"compared": 500, "net": 20}


def gen(rng, tier):
    out = []
    for i in range(250 if tier == "quick" else 3000):
        out.append(dict(scenario="function", pick=rng.randrange(10**9)))
    for i in range(40 if tier == "quick" else 400):
        out.append(dict(scenario="network", pick=rng.randrange(10**9), spec=rand_spec(rng, maxcheck=1, dtypes=("float32", "float64"), losses=("ce", "mse"))))
    return out


def run(m, c):
    from dattri.func.hessian import hvp, hvp_at_x
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    reg = rng.choice([0.0, 0.0, 0.5, 3.0, -0.25])
    mode = rng.choice(["rev-rev", "rev-fwd"])
    if c["scenario"] == "network":
        from functools import partial
        P = Problem(c["spec"])
        task = P.task()
        layers = P.pick_layers(rng)
        x0, _ = task.get_param(0, layer_name=layers)
        f = partial(task.get_loss_func(layer_name=layers, ckpt_idx=0), **{task.loss_func_data_key: (P.x, P.y) if P.spec["fmt"] != "dict" else {"x": P.x, "y": P.y}})
        H = P.hessian(0, layers) + reg * torch.eye(len(x0))
        lazy, at = hvp(f, mode=mode, regularization=reg), hvp_at_x(f, (x0,), mode=mode, regularization=reg)
        V = torch.randn(rng.randint(1, 4), len(x0), generator=g, dtype=torch.float64)
        tol = 1e-9 if P.dtype == torch.float64 else 2e-4
        sc = float(H.norm() * V.norm() + 1e-3)
        m.ev("net")
        m.saw(P.spec["kind"], str(layers), mode, reg)
        for v in V:
            m.close("lazy-net", lazy((x0,), v.to(x0)), H @ v, tol=tol, scale=sc, msg=mode)
            m.close("at-net", at(v.to(x0)), H @ v, tol=tol, scale=sc, msg=mode)
        m.close("vmap-net", torch.func.vmap(at)(V.to(x0)), V @ H, tol=tol, scale=sc, msg=mode)
        return
    dtype = rng.choice([torch.float64, torch.float64, torch.float32])
    f, args, pos, kind = funcs.rand_func(rng, g, dtype, matrix=True)
    tol = 1e-9 if dtype == torch.float64 else 1e-4
    shape = args[pos].shape
    kw = {}
    if pos or rng.random() < 0.5:
        kw["argnums"] = pos if rng.random() < 0.8 else pos - len(args)
    if reg or rng.random() < 0.5:
        kw["regularization"] = reg
    if mode != "rev-rev" or rng.random() < 0.5:
        kw["mode"] = mode
    lazy = hvp(f, **kw)
    m.saw(kind, pos, mode, str(dtype), tuple(shape), reg)
    pts = [args]
    for _ in range(2):  # the same lazy function serves other points
        pts.append(tuple(torch.randn(t.shape, generator=g, dtype=torch.float64).to(dtype) if t.is_floating_point() else t.clone() for t in args))
    ats = [hvp_at_x(f, x=p, **kw) for p in pts]
    Hs = [funcs.dense_hessian(f, p, pos) for p in pts]
    order = [rng.randrange(3) for _ in range(5)]
    for k in order:
        p, H = pts[k], Hs[k]
        H = H + reg * torch.eye(len(H))
        keep = [t.clone() for t in p]
        v = torch.randn(shape, generator=g, dtype=torch.float64).to(dtype)
        w = torch.randn(shape, generator=g, dtype=torch.float64).to(dtype)
        a, b = rng.uniform(-2, 2), rng.uniform(-2, 2)
        sc = float(H.norm() + 1e-6) * float(v.norm() + w.norm()) * (1 + abs(a) + abs(b))
        want = (H @ v.double().reshape(-1)).reshape(shape)
        v0 = v.clone()
        for nm, h in (("lazy", lambda z: lazy(p, z)), ("at", ats[k])):
            hv, hw = h(v), h(w)
            m.check(nm + "-dtype", hv.dtype == dtype and hv.shape == shape, f"{hv.dtype} {tuple(hv.shape)}")
            m.close(nm, hv, want, tol=tol, scale=sc, msg=f"{kind} arg {pos} {mode} reg={reg}")
            m.close(nm + "-linear", h(a * v + b * w), a * hv.double() + b * hw.double(), tol=tol, scale=sc, msg=f"{kind} {mode}")
            m.close(nm + "-symmetric", (hv * w).sum(), (hw * v).double().sum(), tol=tol, scale=sc * float(v.norm() + w.norm()), msg=f"{kind} {mode}")
            m.close(nm + "-again", h(v), hv, tol=tol / 10, scale=sc)
            V = torch.stack([v, w, v + w, torch.zeros_like(v)])
            m.close(nm + "-vmap", torch.func.vmap(h)(V), (V.double().reshape(4, -1) @ H).reshape(V.shape), tol=tol, scale=sc * 2, msg=f"{kind} {mode}")
        m.check("inputs-kept", torch.equal(v, v0) and all(torch.equal(s, t) for s, t in zip(keep, p)), "inputs changed")
