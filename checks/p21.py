"""Inverse-Fisher products == their dense definitions (explicit, DataInf, EK-FAC)."""
import random
import torch
from vmon import funcs
from vmon.workloads import Problem, rand_spec
from checks import p06

LEVEL = "exploration"
RULE = ("random functions / arguments / regularizations for the explicit product (lazy at several points, prepared); random gradients, layer "
        "selections and test batches (smaller and larger than the cached set) for DataInf; EK-FAC covariance, eigenvector and lambda estimation "
        "over random layers, 2-D and sequence inputs (short and long), batchings and max_iter, and its product on random vectors; linearity and "
        "row independence; distinct by (product, sizes, batching)")
MIN_EVENTS = {"compared": 400}


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for i in range(60 if q else 600):
        out.append(dict(scenario="explicit", pick=rng.randrange(10**9)))
    for i in range(50 if q else 500):
        out.append(dict(scenario="datainf", pick=rng.randrange(10**9), spec=rand_spec(rng, maxcheck=2, dtypes=("float64", "float32"))))
    for i in range(60 if q else 600):
        out.append(dict(scenario="estimate", pick=rng.randrange(10**9)))
    for i in range(40 if q else 400):
        s = rand_spec(rng, kinds=["linear", "mlp", "mlp3", "seq"], maxcheck=1, frozen=False)
        s["n"] = rng.randint(3, 12)
        out.append(dict(scenario="ekfac", pick=rng.randrange(10**9), spec=s))
    return out


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    return globals()[c["scenario"]](m, c, rng, g)


def linear_rows(m, key, h, V, tol, scale):
    """h is linear and treats its rows independently."""
    full = h(V)
    i = int(torch.randint(len(V), (1,)))
    m.close(key + "-alone", h(V[i:i + 1]), full[i:i + 1], tol=tol, scale=scale, msg=f"row {i} of {len(V)}")
    perm = torch.randperm(len(V))
    m.close(key + "-perm", h(V[perm]), full[perm], tol=tol, scale=scale)
    W = V.flip(0)
    m.close(key + "-linear", h(2.5 * V - 0.5 * W), 2.5 * full.double() - 0.5 * full.flip(0).double(), tol=4 * tol, scale=scale)


def explicit(m, c, rng, g):
    from dattri.func.fisher import ifvp_at_x_explicit, ifvp_explicit
    dtype = torch.float64 if rng.random() < 0.7 else torch.float32
    f, args, pos, kind = funcs.rand_func(rng, g, dtype)
    p = len(args[pos])
    reg = rng.choice([0.01, 0.1, 1.0, 10.0] + [1e-8, 1e-6, 1e-4] * (dtype == torch.float64))
    kw = dict(argnums=pos, regularization=reg)
    lazy = ifvp_explicit(f, **kw)
    m.saw(kind, pos, p, reg, str(dtype))
    for _ in range(2):
        gr = funcs.dense_grad(f, args, pos)
        F = torch.outer(gr, gr) + reg * torch.eye(p, dtype=torch.float64)
        cond = float(1 + gr @ gr / reg)
        tol = (1e-7 if dtype == torch.float64 else 1e-4) + (1e-13 if dtype == torch.float64 else 3e-6) * cond
        V = torch.randn(rng.randint(1, 5), p, generator=g, dtype=torch.float64).to(dtype)
        if tol < 0.01:
            want = torch.linalg.solve(F, V.double().T).T
            sc = float(V.double().norm() / reg)
            for nm, h in (("lazy", lambda z: lazy(args, z)), ("at", ifvp_at_x_explicit(f, *args, **kw))):
                m.close("explicit-" + nm, h(V), want, tol=tol, scale=sc, msg=f"{kind} arg {pos} reg {reg} cond {cond:.3g}")
                m.close("explicit-1d-" + nm, h(V[0]).reshape(-1), want[0], tol=tol, scale=sc)
                linear_rows(m, "explicit-" + nm, h, V, tol, sc)
        else:
            m.ev("skipped")
        args = tuple(torch.randn(t.shape, generator=g, dtype=torch.float64).to(dtype) if t.is_floating_point() else t.clone() for t in args)


def datainf(m, c, rng, g):
    from dattri.algorithm.influence_function import IFAttributorDataInf
    P = Problem(c["spec"])
    layers = P.pick_layers(rng)
    names = P.sel(layers)
    n = P.spec["n"]
    r = rng.choice([0.01, 0.1, 1.0])
    att = IFAttributorDataInf(P.task(), layer_name=layers, regularization=r)
    bs = rng.randint(1, n)
    att.cache(P.loader("train", bs))
    ck = rng.randrange(len(P.states))
    ps = dict(P.model.named_parameters())
    G = P.grads(ck, "train", False, layers)
    b = rng.choice([1, 2, 3, n, n + 1, 2 * n + 1])
    V = torch.randn(b, G.shape[1], generator=g, dtype=torch.float64)
    sizes, order = {}, []
    for nm in names:
        mod = nm.rpartition(".")[0]
        if mod not in sizes:
            order.append(mod)
        elif order[-1] != mod:
            return m.ev("skipped")  # a module's parameters named in several separate places
        sizes[mod] = sizes.get(mod, 0) + ps[nm].numel()
    want, at = [], 0
    for mod in order:
        k = sizes[mod]
        v, gl = V[:, at:at + k], G[:, at:at + k]
        at += k
        want.append(sum((v - (v @ q).unsqueeze(1) * q / (r + q @ q)) / r for q in gl) / n)
    want = torch.cat(want, 1)
    m.saw(P.spec["kind"], n, bs, b, str(layers), r)
    f32 = P.dtype == torch.float32
    sc = float(V.norm() / r)

    def h(z):
        return att.transform_test_rep(ck, z.to(P.dtype))
    m.close("datainf", h(V), want, tol=1e-9 if not f32 else 1e-4, scale=sc, msg=f"layers={layers} n={n} b={b}")
    linear_rows(m, "datainf", h, V, 1e-9 if not f32 else 1e-4, sc)


def estimate(m, c, rng, g):
    """The three estimation steps on explicit layer inputs, outputs and batches."""
    from dattri.func import fisher
    n, din, dout, hid = rng.randint(2, 9), rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 3)
    T = rng.choice([0, 0, 1, 3, 10, 11, 14])
    shape = (n, T, din) if T else (n, din)
    X = torch.randn(shape, generator=g, dtype=torch.float64)
    Y = torch.randn(n, dout, generator=g, dtype=torch.float64)
    W1 = torch.randn(hid, din, generator=g, dtype=torch.float64)
    W2 = torch.randn(dout, hid, generator=g, dtype=torch.float64)
    dict_batches = rng.random() < 0.3
    cache = {}

    def forward(x, store):
        x = x.clone().requires_grad_()
        s1 = x @ W1.T
        s1.retain_grad()
        a2 = torch.tanh(s1)
        if T:
            a2 = a2 * torch.linspace(0.5, 1.5, T, dtype=torch.float64).unsqueeze(-1)
        s2 = a2 @ W2.T
        s2.retain_grad()
        store["one"], store["two"] = (x.detach(), s1), (a2.detach(), s2)
        return s2.mean(1) if T else s2

    def func(batch):
        x, y = (batch["x"], batch["y"]) if isinstance(batch, dict) else batch
        return ((forward(x, cache) - y) ** 2).sum(-1).mean()
    bs = rng.randint(1, n)
    batches = [(X[i:i + bs], Y[i:i + bs]) for i in range(0, n, bs)]
    if dict_batches:
        batches = [{"x": x, "y": y} for x, y in batches]
    mi = rng.choice([None, None, 1, 2, len(batches), len(batches) + 3])
    used = n if mi is None else min(n, mi * bs)
    cov = fisher.estimate_covariance(func, batches, cache, mi)
    q = fisher.estimate_eigenvector(cov)
    lam = fisher.estimate_lambda(func, batches, q, cache, mi)
    m.saw(n, T, din, dout, hid, bs, mi)
    # per-sample reference: one sample at a time, loss of that sample
    ref = {k: [] for k in ("one", "two")}
    for i in range(used):
        st = {}
        ((forward(X[i:i + 1], st) - Y[i:i + 1]) ** 2).sum().backward()
        for k in ref:
            a, s = st[k]
            ref[k].append((a.reshape(-1, a.shape[-1]), s.grad.reshape(-1, s.shape[-1])))
    for k in ref:
        A = sum(a.T @ a for a, _ in ref[k]) / used
        S = sum(s.T @ s for _, s in ref[k]) / used
        info = f"layer {k} n={n} T={T} bs={bs} max_iter={mi}"
        m.close("cov-a", cov[k][0], A, tol=1e-8, msg=info)
        m.close("cov-s", cov[k][1], S, tol=1e-8, scale=float(S.abs().max()) + 1e-12, msg=info)
        for Q, C in ((q[k][0], A), (q[k][1], S)):
            m.close("eig-orthonormal", Q @ Q.T, torch.eye(len(C)), tol=1e-8)
            D = Q @ C @ Q.T
            m.close("eig-diagonal", D - torch.diag(torch.diagonal(D)), torch.zeros_like(D), tol=1e-8, scale=float(C.abs().max()), msg=info)
        L = sum((q[k][1] @ (s.T @ a) @ q[k][0].T) ** 2 for a, s in ref[k]) / used
        m.close("lambda", lam[k], L, tol=1e-8, scale=float(L.abs().max()) + 1e-12, msg=info)


def ekfac(m, c, rng, g):
    from dattri.algorithm.influence_function import IFAttributorEKFAC
    P = Problem(c["spec"])
    allm = p06.mods(P)
    names = rng.sample(allm, rng.randint(1, len(allm))) if rng.random() < 0.6 else None
    use = names or allm
    n, bs = P.spec["n"], rng.randint(1, P.spec["n"])
    damping = rng.choice([1e-2, 0.1, 1.0])
    att = IFAttributorEKFAC(P.task(), module_name=names, damping=damping)
    mi = rng.choice([None, None, 1, 2])
    att.cache(P.loader("train", bs), **({} if mi is None else {"max_iter": mi}))
    used = n if mi is None else min(n, mi * bs)
    st = p06.stats(P, use)
    ps = dict(P.model.named_parameters())
    b = rng.randint(1, 5)
    parts, wants = [], []
    for nm in use:
        rows = st[nm][:used]
        A = sum(a.T @ a for a, _ in rows) / used
        S = sum(s.T @ s for _, s in rows) / used
        qa, qs = (t.double() for t in att.cached_q[nm])
        # any orthonormal eigenbasis of the covariances will do
        for Q, C in ((qa, A), (qs, S)):
            D = Q @ C @ Q.T
            m.close("basis", Q @ Q.T, torch.eye(len(C)), tol=1e-6)
            m.close("basis-diagonal", D, torch.diag(torch.diagonal(D)), tol=1e-6, scale=float(C.abs().max()) + 1e-12)
        lam = sum((qs @ (s.T @ a) @ qa.T) ** 2 for a, s in rows) / used
        out, inn = ps[nm + ".weight"].shape
        bias = nm + ".bias" in ps
        M = torch.randn(b, out, inn + bias, generator=g, dtype=torch.float64)
        R = qs.T @ ((qs @ M @ qa.T) / (lam + damping)) @ qa

        def pack(M):
            return torch.cat([M[..., :inn].flatten(1), M[..., inn:].flatten(1)], 1)
        parts.append(pack(M))
        wants.append(pack(R))
    V, want = torch.cat(parts, 1), torch.cat(wants, 1)
    m.saw(P.spec["kind"], n, bs, str(names), damping, mi)
    sc = float(V.norm() / damping)

    def h(z):
        return att.transform_test_rep(0, z.to(P.dtype))
    m.close("ekfac", h(V), want, tol=1e-8, scale=sc, msg=f"modules={names} bs={bs} max_iter={mi}")
    linear_rows(m, "ekfac", h, V, 1e-8, sc)
