"""Captured compressed gradients == compressing the true per-sample gradient; capturing is invisible and removable."""
import random
import torch
from torch import nn
from vmon import block
from vmon.workloads import rand_spec
block.no_compile()

LEVEL = "exploration"
RULE = ("random networks (2-D, 3-D and non-contiguous layer inputs, with and without bias), hooked subsets of layers in any order, every CPU "
        "projection type for both stages and any size, several batches of different size through one hook manager; the stage maps are read off by "
        "projecting the identity and applied to per-sample gradients from plain float64 autograd; outputs, input gradients and the gradients of "
        "unhooked parameters compared with an unhooked copy, before, during (enabled / disabled) and after capturing; compressors also driven "
        "directly; some cases with torch.compile on; distinct by (network, layers, stage configuration)")
MIN_EVENTS = {"compared": 1000, "captured": 300, "direct": 100, "compiled_cases": 2, "removed": 80}
CASE_LIMIT = 280


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(130 if q else 1500):
        s = rand_spec(rng, kinds=block.KINDS_B, maxcheck=1, fmts=("tuple",), frozen=False, dtypes=("float32", "float64"))
        s["n"] = rng.randint(6, 14)
        if s["kind"] == "norm":
            s["h"] = 4
        out.append(dict(scenario="capture", spec=s, pick=rng.randrange(10**9)))
    for i in range(60 if q else 600):
        out.append(dict(scenario="direct", pick=rng.randrange(10**9)))
    for i in range(3 if q else 12):
        out.append(dict(out[i * 3], compile=True))
    return out


def stage(rng, dim):
    from dattri.params.projection import GeneralProjectionParams
    typ = rng.choice(["normal", "rademacher", "random_mask", "identity", "identity"])
    k = -1 if typ == "identity" else rng.randint(1, dim if typ == "random_mask" else 2 * dim + 2)
    return GeneralProjectionParams(proj_dim=k, proj_max_batch_size=rng.choice([8, 64]), proj_type=typ, proj_seed=rng.choice([0, 1, 77]))


def maps(comp, o, i, dtype):
    """(S1, S2, P) of one compressor as matrices acting on rows from the right."""
    S1 = comp.sparsifier.sparsifier_comp[0](torch.eye(o, dtype=dtype), ensemble_id=0).double()
    S2 = comp.sparsifier.sparsifier_comp[1](torch.eye(i, dtype=dtype), ensemble_id=0).double()
    P = comp.projector.projector(torch.eye(S1.shape[1] * S2.shape[1], dtype=dtype), ensemble_id=0).double()
    return S1, S2, P


def compress(G, mp):
    S1, S2, P = mp
    return (S1.T @ G @ S2).flatten(1) @ P


def run(m, c):
    rng = random.Random(c["pick"])
    if c.get("compile"):
        block.with_compile()
        m.ev("compiled_cases")
    if c["scenario"] == "direct":
        return direct(m, c, rng)
    from dattri.algorithm.block_projected_if.core.compressor import setup_model_compressors
    from dattri.algorithm.block_projected_if.core import hook as hookmod
    P = block.BProblem(c["spec"])
    model = P.model.eval()
    dtype = next(model.parameters()).dtype
    ref = P._plain(0)
    with torch.no_grad():
        for (_, a), (_, b) in zip(model.named_parameters(), ref.named_parameters()):
            a.copy_(b.to(dtype))
    allm = P.linears()
    names = rng.sample(allm, rng.randint(1, len(allm)))
    dims = {}
    for n in names:
        mod = model.get_submodule(n)
        dims[n] = (mod.out_features, mod.in_features + (mod.bias is not None))
    small = min(min(d) for d in dims.values())
    sp = stage(rng, small)
    ints = [(d[0] if sp.proj_type == "identity" else sp.proj_dim) * (d[1] if sp.proj_type == "identity" else sp.proj_dim) for d in dims.values()]
    pr = stage(rng, min(ints))
    X, Y = P.x, P.y
    b0 = rng.randint(1, 4)
    keys = sorted(model.__dict__)
    comps = setup_model_compressors(model, names, sparsifier_params=sp, projector_params=pr, sample_inputs=X[:b0], device="cpu")
    m.check("setup-clean", sorted(model.__dict__) == keys and not any(x._forward_hooks or x._forward_pre_hooks or x._backward_hooks for x in model.modules()),
            "setting up the compressors left hooks behind")
    what = f"{c['spec']['kind']} layers={names} {sp.proj_type}:{sp.proj_dim}/{sp.proj_seed} -> {pr.proj_type}:{pr.proj_dim} {dtype}"
    m.saw(c["spec"]["kind"], names, sp.proj_type, sp.proj_dim, pr.proj_type, pr.proj_dim, str(dtype), str(dims))
    m.check("setup-order", len(comps) == len(names) and all(x is not None and x.name == n for x, n in zip(comps, names)), f"{[x and x.name for x in comps]} {what}")
    mps = {n: maps(cp, *dims[n], dtype) for cp, n in zip(comps, names)}
    for n, (S1, S2, Pm) in mps.items():
        w1 = dims[n][0] if sp.proj_type == "identity" else sp.proj_dim
        w2 = dims[n][1] if sp.proj_type == "identity" else sp.proj_dim
        wp = w1 * w2 if pr.proj_type == "identity" else pr.proj_dim
        m.check("stage-dims", (S1.shape[1], S2.shape[1], Pm.shape[1]) == (w1, w2, wp), f"{n}: {S1.shape[1], S2.shape[1], Pm.shape[1]} want {w1, w2, wp} {what}")
        if sp.proj_type == "identity":
            m.check("stage-identity", torch.equal(S1, torch.eye(w1, dtype=S1.dtype)) and torch.equal(S2, torch.eye(w2, dtype=S2.dtype)), what)
    again = setup_model_compressors(model, names, sparsifier_params=sp, projector_params=pr, sample_inputs=X[:1 + b0 % 3], device="cpu")
    for n, cp in zip(names, again):
        for a, b in zip(maps(cp, *dims[n], dtype), mps[n]):
            m.check("stage-seeded", torch.equal(a, b), f"{n}: a second set-up with the same seed gives another map {what}")
    reg0 = len(hookmod._HOOK_MANAGER_REGISTRY) if hasattr(hookmod, "_HOOK_MANAGER_REGISTRY") else None
    hm = hookmod.HookManager(model, names)
    hm.set_compressors(comps)
    loss = P.loss_func()

    def grads_ref(idx):
        """Per-sample gradient matrices, mean-loss gradients of all parameters and of the input."""
        out = {n: [] for n in names}
        net = P._plain(0)
        for i in idx:
            net.zero_grad()
            loss(net, (X[i:i + 1].double(), Y[i:i + 1].double() if Y.is_floating_point() else Y[i:i + 1]), "cpu").backward()
            for n in names:
                mod = net.get_submodule(n)
                G = mod.weight.grad.clone() if mod.weight.grad is not None else torch.zeros_like(mod.weight)
                if mod.bias is not None:
                    G = torch.cat([G, mod.bias.grad.unsqueeze(1)], 1)
                out[n].append(G)
        net.zero_grad()
        xi = X[idx].double().requires_grad_()
        lo = net(xi)
        loss(net, (xi, Y[idx].double() if Y.is_floating_point() else Y[idx]), "cpu").backward()
        return {n: torch.stack(g).detach() for n, g in out.items()}, {k: p.grad for k, p in net.named_parameters()}, xi.grad, lo.detach()
    tol = 2e-4 if dtype == torch.float32 else 1e-8
    hooked = {f"{n}.{s}" for n in names for s in ("weight", "bias")}
    for step in range(rng.randint(2, 4)):
        idx = rng.sample(range(len(X)), rng.randint(1, min(6, len(X))))
        per, full, gx, lo = grads_ref(idx)
        off = rng.random() < 0.25
        (hm.disable_hooks if off else hm.enable_hooks)()
        model.zero_grad()
        x = X[idx].clone().requires_grad_()
        m.close("forward", model(x), lo, tol=tol, msg=f"step {step} hooks {'off' if off else 'on'} {what}")
        x.grad = None
        loss(model, (x, Y[idx]), "cpu").backward()
        m.close("input-grad", x.grad, gx, tol=tol, scale=max(float(gx.abs().max()), 1e-6), msg=f"hooks {'off' if off else 'on'} {what}")
        for k, p in model.named_parameters():
            if k in hooked and not off:
                m.check("hooked-grad", p.grad is None, f"{k}: a full gradient was materialized {what}")
            elif full[k] is not None:
                m.close("other-grad", p.grad, full[k], tol=tol, scale=max(float(full[k].abs().max()), 1e-5), msg=f"{k} hooks {'off' if off else 'on'} {what}")
        if off:
            continue
        got = hm.get_compressed_grads()
        m.check("count", len(got) == len(names), f"{len(got)}")
        for n, gq in zip(names, got):
            want = compress(per[n], mps[n])
            S1, S2, Pm = mps[n]
            sc = float(per[n].flatten(1).norm(dim=1).max() * torch.linalg.matrix_norm(S1, 2) * torch.linalg.matrix_norm(S2, 2) * torch.linalg.matrix_norm(Pm, 2))
            m.close("captured", gq, want, tol=tol, scale=max(sc, 1e-9), msg=f"{n} batch of {len(idx)} step {step} {what}")
            m.ev("captured")
    hm.remove_hooks()
    m.ev("removed")
    for nm, mod in model.named_modules():
        m.check("removed", "forward" not in mod.__dict__ and "_original_forward" not in mod.__dict__, f"{nm} is still patched {what}")
    if reg0 is not None:
        m.check("removed", len(hookmod._HOOK_MANAGER_REGISTRY) == reg0, "the hook manager stays registered")
    idx = list(range(3))
    _, full, gx, lo = grads_ref(idx)
    model.zero_grad()
    x = X[idx].clone().requires_grad_()
    loss(model, (x, Y[idx]), "cpu").backward()
    m.close("after-input", x.grad, gx, tol=tol, scale=max(float(gx.abs().max()), 1e-6), msg=what)
    for k, p in model.named_parameters():
        if full[k] is not None:
            m.close("after-grad", p.grad, full[k], tol=tol, scale=max(float(full[k].abs().max()), 1e-5), msg=f"{k} {what}")


def direct(m, c, rng):
    """One compressor on raw factors: 2-D and 3-D, batch and sequence independence."""
    from dattri.algorithm.block_projected_if.core.compressor import setup_model_compressors
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    i, o, bias = rng.randint(1, 12), rng.randint(1, 12), rng.random() < 0.7
    seq = rng.random() < 0.6
    net = nn.Sequential(nn.Linear(i, o, bias=bias), nn.Linear(o, i, bias=bias))
    # two equal layers must get different random maps
    twin = nn.Sequential(nn.Linear(i, o, bias=bias), nn.Tanh(), nn.Linear(o, i), nn.Linear(i, o, bias=bias))
    ii = i + bias
    sp, pr = stage(rng, min(o, ii)), None
    d = (o if sp.proj_type == "identity" else sp.proj_dim) * (ii if sp.proj_type == "identity" else sp.proj_dim)
    pr = stage(rng, d)
    T = rng.randint(1, 7)
    x = torch.randn(*((3, T) if seq else (3,)), i, generator=g)
    cp = setup_model_compressors(twin, ["3", "0"], sparsifier_params=sp, projector_params=pr, sample_inputs=x, device="cpu")
    mp3, mp0 = maps(cp[0], o, ii, torch.float32), maps(cp[1], o, ii, torch.float32)
    if sp.proj_type in ("normal", "rademacher") and mp3[0].numel() + mp3[1].numel() > 40:
        m.check("twin", not (torch.equal(mp3[0], mp0[0]) and torch.equal(mp3[1], mp0[1])), f"two layers share a random map {sp}")
    if o == ii and sp.proj_type in ("normal", "rademacher") and mp3[0].numel() > 40:
        m.check("twin", not torch.equal(mp3[0], mp3[1]), f"both factors share a random map {sp}")
    m.saw(i, o, bias, seq, T, sp.proj_type, sp.proj_dim, pr.proj_type, pr.proj_dim)
    for comp, mp in ((cp[0], mp3), (cp[1], mp0)):
        for _ in range(3):
            b = rng.randint(1, 5)
            t = rng.randint(1, 9)
            sh = (b, t) if seq else (b,)
            v1 = torch.randn(*sh, o, generator=g)
            v2 = torch.randn(*sh, ii, generator=g)
            if rng.random() < 0.3:
                v1 = v1.transpose(0, -1).contiguous().transpose(0, -1)
            k1, k2 = v1.clone(), v2.clone()
            got = comp.forward(v1, v2)
            G = torch.einsum("bto,bti->boi", v1.double(), v2.double()) if seq else torch.einsum("bo,bi->boi", v1.double(), v2.double())
            want = compress(G, mp) * b
            sc = b * float(v1.double().flatten(1).norm(dim=1).max() * v2.double().flatten(1).norm(dim=1).max()) * float(
                torch.linalg.matrix_norm(mp[0], 2) * torch.linalg.matrix_norm(mp[1], 2) * torch.linalg.matrix_norm(mp[2], 2))
            m.close("direct", got, want, tol=3e-5, scale=max(sc, 1e-9), msg=f"b={b} t={t} seq={seq} {sp.proj_type}:{sp.proj_dim} {pr.proj_type}:{pr.proj_dim}")
            m.check("direct-input", torch.equal(v1, k1) and torch.equal(v2, k2), "the factors were changed")
            m.ev("direct")
