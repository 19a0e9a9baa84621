"""Inverse-Hessian solvers == dense solve, in lazy and prepared forms, with documented hyper-parameter effects."""
import random
import torch
from vmon import funcs

LEVEL = "exploration"
RULE = ("random functions with positive-definite regularized Hessian in one of several arguments, vectors given singly or in batches (incl. zero, "
        "repeated and tiny rows); explicit, CG, Arnoldi and LiSSA solvers, lazy (at several points) and prepared, both autodiff modes; against "
        "the dense solve, CG error bounds per iteration, residual at the tolerance, Arnoldi rank-k and norm constant, LiSSA closed-form "
        "recursion for every depth, damping, scaling, and sampled-batch / repeat accounting and statistics; distinct by (solver, function, sizes)")
MIN_EVENTS = {"compared": 400, "cg_steps": 100, "stat": 5, "lissa_calls": 10, "refused": 20}


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for sc, n in (("explicit", 40), ("cg", 70), ("arnoldi", 50), ("lissa", 50), ("lissa_count", 20), ("lissa_stat", 12), ("arnoldi_indefinite", 16)):
        for i in range(n if q else n * 10):
            out.append(dict(scenario=sc, pick=rng.randrange(10**9)))
    return out


def vectors(rng, g, p, dtype):
    b = rng.choice([0, 1, 1, 2, 3, 5])
    if b == 0:
        return torch.randn(p, generator=g, dtype=torch.float64).to(dtype)
    V = torch.randn(b, p, generator=g, dtype=torch.float64)
    for i in range(b):
        r = rng.random()
        if r < 0.1:
            V[i] = 0
        elif r < 0.2:
            V[i] = V[0]
        elif r < 0.3:
            V[i] *= rng.choice([1e-3, 1e3])
    return V.to(dtype)


def trim(rng, kw, **defaults):
    """Leave out, half of the time, arguments that equal their documented default."""
    return {k: v for k, v in kw.items() if not (k in defaults and defaults[k] == v and rng.random() < 0.5)}


def run(m, c):
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"] % 2**31)
    torch.manual_seed(c["pick"] % 2**31)
    if c["scenario"].startswith("lissa"):
        return lissa(m, c, rng, g)
    from dattri.func import hessian as hs
    if c["scenario"] == "arnoldi_indefinite":
        return indefinite(m, rng, g, hs)
    dtype = torch.float64 if rng.random() < 0.7 else torch.float32
    f, args, pos, kind = funcs.rand_func(rng, g, dtype, convex=True)
    p = len(args[pos])
    reg = rng.choice([0.0, 0.0, 0.3, 2.0])
    mode = rng.choice(["rev-rev", "rev-fwd"])
    pts = [args, tuple(torch.randn(t.shape, generator=g, dtype=torch.float64).to(dtype) for t in args)]
    Hs = [funcs.dense_hessian(f, a, pos) + reg * torch.eye(p, dtype=torch.float64) for a in pts]
    sc = c["scenario"]
    m.saw(sc, kind, pos, p, mode, str(dtype), reg)
    kw = trim(rng, dict(argnums=pos, regularization=reg), argnums=0, regularization=0.0)
    mkw = trim(rng, dict(mode=mode), mode="rev-rev")
    eps = 1e-12 if dtype == torch.float64 else 1e-6
    for a, H in zip(pts, Hs):
        ev = torch.linalg.eigvalsh(H)
        cond = float(ev.max() / ev.min())
        if float(ev.min()) <= 0 or cond > 1e4:
            m.ev("skipped")
            continue
        V = vectors(rng, g, p, dtype)
        rows = V.double().reshape(-1, p)
        V0 = V.clone()
        X = torch.linalg.solve(H, rows.T).T

        def both(make_lazy, make_at, key, tol, want=X, per_row=True):
            for nm, h in (("lazy", (lambda z: make_lazy()(a, z)) if make_lazy else None), ("at", make_at())):
                if h is None:
                    continue
                got = h(V)
                if not m.check(f"{key}-{nm}-shape", got.numel() == rows.numel(), f"{tuple(got.shape)} for {tuple(V.shape)}"):
                    continue
                got = got.reshape(-1, p)
                for i in range(len(rows)):
                    # per row, so that a huge row does not hide an error in a small one
                    m.close(f"{key}-{nm}", got[i], want[i], tol=tol, scale=float(rows[i].norm() / ev.min()) + 1e-30, msg=f"{kind} cond={cond:.3g} row {i}/{len(rows)} {mode}")
                if per_row and V.ndim == 2 and len(V) > 1:
                    i = rng.randrange(len(V))
                    m.close(f"{key}-{nm}-alone", h(V[i:i + 1]).reshape(-1), got[i], tol=10 * tol, scale=float(rows[i].norm() / ev.min()) + 1e-30,
                            msg=f"row {i} alone differs {kind}")
                m.close(f"{key}-{nm}-again", h(V).reshape(-1, p), got, tol=tol, scale=float(rows.norm() / ev.min()))
        if sc == "explicit":
            both(lambda: hs.ihvp_explicit(f, **kw), lambda: hs.ihvp_at_x_explicit(f, *a, **kw), "explicit", (1e-7 if dtype == torch.float64 else 1e-4) * max(1, cond / 100))
        elif sc == "cg":
            it = 3 * p + 5
            tol = rng.choice([1e-12, 1e-9]) if dtype == torch.float64 else 1e-7
            both(lambda: hs.ihvp_cg(f, max_iter=it, tol=tol, **mkw, **kw), lambda: hs.ihvp_at_x_cg(f, *a, max_iter=it, tol=tol, **mkw, **kw),
                 "cg", max(1e3 * eps * cond, 1e-7 if dtype == torch.float64 else 1e-4))
            # fewer iterations: the energy norm of the error never grows and obeys the Chebyshev bound
            if dtype == torch.float64:
                last = None
                for k in range(0, p + 2):
                    got = hs.ihvp_at_x_cg(f, *a, max_iter=k, tol=0.0 if rng.random() < .3 else 1e-10, **mkw, **kw)(V).reshape(-1, p).double()
                    if not m.check("cg-finite", torch.isfinite(got).all(), f"non-finite after {k} iterations"):
                        break
                    err = torch.einsum("ij,jk,ik->i", got - X, H, got - X).clamp_min(0).sqrt()
                    if last is None:
                        e0 = torch.maximum(err, torch.einsum("ij,jk,ik->i", X, H, X).clamp_min(0).sqrt())
                    else:
                        slack = 1e-6 * e0 + 1e-12
                        m.check("cg-monotone", (err <= last + slack).all(), f"{kind} step {k}: {last.tolist()} -> {err.tolist()}")
                        rate = (cond ** 0.5 - 1) / (cond ** 0.5 + 1)
                        m.check("cg-bound", (err <= 2 * rate ** k * e0 + slack).all(), f"{kind} step {k}: {err.tolist()} start {e0.tolist()} rate {rate}")
                        m.ev("cg_steps")
                    last = err
                # tolerance: on the norm of the residual
                t = rng.choice([0.05, 0.5, 3.0])
                got = hs.ihvp_at_x_cg(f, *a, max_iter=40, tol=t, **mkw, **kw)(V).reshape(-1, p).double()
                res = (got @ H - rows).norm(dim=1)
                m.check("cg-tol", (res <= t * (1 + 1e-6)).all(), f"residuals {res.tolist()} tol {t}")
        else:
            gap = float((ev[1:] - ev[:-1]).min()) if p > 1 else 1.0
            # Krylov vectors of a clustered spectrum lose accuracy with every step
            loss = (2e-16 if dtype == torch.float64 else 1e-7) * (3 * float(ev.max()) / max(gap, 1e-12)) ** max(1, p - 1)
            it = p + rng.randint(1, 6)
            tol = 1e-8 + 1e-3 * (dtype != torch.float64) + 1e2 * loss
            if tol > 0.01:
                m.ev("skipped")
                continue
            both(lambda: hs.ihvp_arnoldi(f, max_iter=it, **mkw, **kw), lambda: hs.ihvp_at_x_arnoldi(f, *a, max_iter=it, **mkw, **kw), "arnoldi", tol)
            k = rng.randint(1, p)
            nc = rng.choice([1.0, 1.0, 3.0, 0.5])
            w, U = torch.linalg.eigh(H)
            U, w = U[:, -k:], w[-k:]
            both(None, lambda: hs.ihvp_at_x_arnoldi(f, *a, max_iter=it, **trim(rng, dict(top_k=k, norm_constant=nc), norm_constant=1.0), **mkw, **kw), "arnoldi-topk", tol,
                 want=(rows @ U / w) @ U.T)
        m.check("inputs-kept", torch.equal(V, V0), "vectors changed in place")


def indefinite(m, rng, g, hs):
    """The eigenpairs of the largest magnitude are kept, whatever their sign."""
    p = rng.randint(2, 6)
    mags = torch.tensor([float(rng.uniform(1.0, 1.4) * 1.8 ** i) for i in range(p)], dtype=torch.float64)
    w = mags * torch.tensor([rng.choice([-1.0, 1.0]) for _ in range(p)], dtype=torch.float64)
    U = torch.linalg.qr(torch.randn(p, p, generator=g, dtype=torch.float64))[0]
    H = (U * w) @ U.T
    reg = rng.choice([0.0, 0.1])
    f = lambda t: 0.5 * t @ H @ t  # noqa: E731
    k, nc = rng.randint(1, p), rng.choice([1.0, 2.0])
    V = vectors(rng, g, p, torch.float64)
    ev = w + reg
    if float(ev.abs().sort().values.diff().min()) < 0.1:
        m.ev("skipped")
        return
    keep = ev.abs().argsort()[-k:]
    want = (V.reshape(-1, p) @ U[:, keep] / ev[keep]) @ U[:, keep].T
    got = hs.ihvp_at_x_arnoldi(f, torch.randn(p, generator=g, dtype=torch.float64), max_iter=p + rng.randint(1, 5), top_k=k, norm_constant=nc, regularization=reg,
                               mode=rng.choice(["rev-rev", "rev-fwd"]))(V)
    m.saw("arnoldi_indefinite", p, k, nc, reg, w.sign().tolist())
    m.close("arnoldi-indefinite", got.reshape(-1, p), want, tol=1e-6, scale=float(V.norm() / ev.abs().min()) + 1e-30, msg=f"k={k} spectrum {ev.tolist()}")


def data_func(rng, g, dtype):
    """A mean-over-samples loss of (X, y, theta) (any order), batch dimensions of X possibly not 0."""
    n, p = rng.randint(2, 8), rng.randint(1, 4)
    X = torch.randn(n, p, generator=g, dtype=torch.float64).to(dtype)
    y = torch.randn(n, generator=g, dtype=torch.float64).to(dtype)
    th = torch.randn(p, generator=g, dtype=torch.float64).to(dtype)
    kind = rng.choice(["mse", "logistic", "robust"])

    def core(X, y, th):
        z = X @ th
        if kind == "mse":
            return ((z - y) ** 2).mean()
        if kind == "logistic":
            return torch.nn.functional.softplus(-torch.sign(y) * z).mean() + 0.1 * (th ** 2).sum()
        return torch.log(torch.cosh(z - y)).mean() + 0.05 * (th ** 2).sum()
    lay = rng.choice(["xyt", "txy", "Xyt"])
    if lay == "xyt":
        return (lambda X, y, t: core(X, y, t)), (X, y, th), 2, (0, 0, None), n, p, kind
    if lay == "txy":
        return (lambda t, X, y: core(X, y, t)), (th, X, y), 0, (None, 0, 0), n, p, kind
    return (lambda Xt, y, t: core(Xt.T, y, t)), (X.T.contiguous(), y, th), 2, (1, 0, None), n, p, kind


def lissa(m, c, rng, g):
    from dattri.func import hessian as hs
    dtype = torch.float64 if rng.random() < 0.7 else torch.float32
    f, args, pos, dims, n, p, kind = data_func(rng, g, dtype)
    H = funcs.dense_hessian(f, args, pos)
    mode = rng.choice(["rev-rev", "rev-fwd"])
    sc = c["scenario"]
    V = vectors(rng, g, p, dtype)
    rows = V.double().reshape(-1, p)
    depth, reps = rng.randint(1, 8), rng.randint(1, 3)
    damping = rng.choice([0.0, 0.1, 0.3])
    top = float(torch.linalg.eigvalsh(H).max())
    scaling = rng.choice([1.0, 2.0, 10.0]) * max(top, 0.1)
    m.saw(sc, kind, n, p, depth, reps, damping, mode, dims, str(dtype))

    def recursion(V, d):
        cur = V.clone()
        for _ in range(d):
            cur = V + (1 - damping) * cur - cur @ H / scaling
        return cur / scaling
    calls = []

    def collate(s):
        calls.append([t.shape[d] for t, d in zip(s, dims) if d is not None])
        return tuple(s)

    def make(form, bs, rp, dp, cf=None, **kw):
        base = dict(argnums=pos, batch_size=bs, num_repeat=rp, recursion_depth=dp, damping=damping, scaling=scaling, mode=mode, collate_fn=cf, **kw)
        base = trim(rng, base, argnums=0, batch_size=1, num_repeat=1, damping=0.0, mode="rev-rev", collate_fn=None)
        if form == "at":
            return hs.ihvp_at_x_lissa(f, *args, in_dims=dims, **base)
        h = hs.ihvp_lissa(f, **base)
        return lambda z: h(args, z, in_dims=dims)
    if n > 1 and sc == "lissa_count":  # ambiguous sample counts are refused
        odd = tuple(a[:-1] if d == 0 and i == max(j for j, e in enumerate(dims) if e is not None) else a for i, (a, d) in enumerate(zip(args, dims)))
        for nm, bad in (("mismatch", lambda: hs.ihvp_lissa(f, argnums=pos)(odd, V, in_dims=dims)), ("length", lambda: hs.ihvp_lissa(f, argnums=pos)(args, V, in_dims=dims[:2])),
                        ("at-mismatch", lambda: hs.ihvp_at_x_lissa(f, *odd, argnums=pos, in_dims=dims)(V))):
            try:
                bad()
            except hs.IHVPUsageError:
                m.ev("refused")
                continue
            m.fail("size-" + nm, f"sizes {[tuple(a.shape) for a in odd]} dims {dims} accepted")
    for form in ("lazy", "at"):
        if sc == "lissa":
            bs = rng.choice([n, n, n + 3])
            want = recursion(rows, depth)
            got = make(form, bs, reps, depth)(V)
            if not m.check(f"{form}-shape", got.numel() == rows.numel(), str(tuple(got.shape))):
                continue
            tol = 1e-9 if dtype == torch.float64 else 1e-4
            got = got.reshape(-1, p)
            for i in range(len(rows)):
                m.close(f"lissa-{form}", got[i], want[i], tol=tol, scale=float(rows[i].norm()) * depth / scaling + 1e-30, msg=f"{kind} depth {depth}")
            # convergence
            lo = float(torch.linalg.eigvalsh(H).min())
            rate = max(abs(1 - damping - lo / scaling), abs(1 - damping - top / scaling))
            if rate < 0.9:
                got = make(form, n, 1, 400)(V).reshape(-1, p)
                X = torch.linalg.solve(H + scaling * damping * torch.eye(p, dtype=torch.float64), rows.T).T
                m.close(f"lissa-limit-{form}", got, X, tol=10 * tol, scale=float(X.norm()) + 1e-30, msg=f"{kind} rate {rate}")
        elif sc == "lissa_count":
            bs = rng.randint(1, n + 2)
            calls.clear()
            got = make(form, bs, reps, depth, cf=collate)(V)
            m.check(f"count-shape-{form}", got.numel() == rows.numel(), str(tuple(got.shape)))
            m.check(f"batch-size-{form}", all(k == min(bs, n) for s in calls for k in s), f"batch_size={bs} of {n}: {calls[:3]}")
            m.check(f"evaluations-{form}", len(calls) in (reps * depth, reps * depth * len(rows)), f"{len(calls)} evaluations, {reps} repeats x depth {depth}")
            m.ev("lissa_calls", len(calls))
        else:
            # sampled batches: unbiased for the full recursion, variance falls with the repeats
            v = torch.randn(p, generator=g, dtype=torch.float64)
            R, bs, dp = 500, rng.randint(1, max(1, n // 2)), rng.randint(1, 3)
            var = {}
            for rp in (1, 6):
                got = make(form, bs, rp, dp)(v.to(dtype).repeat(R, 1)).double()
                se = got.std(0) / R ** 0.5
                want = recursion(v.unsqueeze(0), dp)[0]
                m.check(f"unbiased-{form}", ((got.mean(0) - want).abs() <= 7 * se + 1e-5 * v.norm() / scaling).all(),
                        f"mean {got.mean(0).tolist()} want {want.tolist()} se {se.tolist()} bs={bs} n={n} repeats={rp}")
                var[rp] = float(got.var(0).sum())
                m.ev("stat")
            if n > bs and var[1] > 1e-6 * float(v.norm() / scaling) ** 2:
                m.check(f"averaging-{form}", var[6] < 0.35 * var[1] and var[6] > var[1] / 40, f"variance {var} bs={bs} n={n}")
