"""Random scalar functions of several tensor arguments, and dense derivatives by plain double backward."""
import torch


def rand_func(rng, g, dtype=torch.float64, convex=False, matrix=False):
    """-> (f, args, argnum). f takes all args positionally and returns a scalar; the rest stay constant.

    convex: positive-definite in the chosen argument whatever the other arguments are."""
    p, q = rng.randint(1, 5), rng.randint(2, 7)

    def r(*s):
        return torch.randn(*s, generator=g, dtype=torch.float64).to(dtype)
    x, A, b = r(p), r(q, p), r(q)
    if convex:
        kind = rng.choice(["ridge", "logistic", "quad", "softplus"])
        fs = {
            "ridge": lambda x, A, b: ((A @ x - b) ** 2).mean() + 0.3 * (x ** 2).sum(),
            "logistic": lambda x, A, b: torch.nn.functional.softplus(-torch.sign(b) * (A @ x)).mean() + 0.2 * (x ** 2).sum(),
            "quad": lambda x, A, b: 0.5 * x @ (A.T @ A) @ x + b.sum() * x.sum() + 0.25 * (x ** 2 * torch.arange(1, len(x) + 1).to(x)).sum(),
            "softplus": lambda x, A, b: torch.logsumexp(A @ x + b, 0) + 0.4 * (x ** 2).sum() + 0.05 * (x ** 4).sum(),
        }
        f, args, pos = fs[kind], [x, A, b], 0
        if rng.random() < 0.5:  # the parameters need not come first
            perm = [1, 2, 0]
            g0 = f
            f = lambda A, b, x: g0(x, A, b)  # noqa: E731
            args, pos = [args[i] for i in perm], 2
        return f, tuple(args), pos, kind
    kind = rng.choice(["sin", "mlp", "poly", "ratio", "mixed", "one", "labels"] + (["matrix"] if matrix else []))
    fs = {
        "sin": lambda x, A, b: torch.sin(A @ x + b).sum(),
        "mlp": lambda x, A, b: (torch.tanh(torch.tanh(A @ x) @ A + 0.1 * x) * x).sum() + (b ** 3).sum() * x[0],
        "poly": lambda x, A, b: (x ** 3).sum() + (A @ x) @ b * x.sum() + (b @ b) * (A ** 2).sum(),
        "ratio": lambda x, A, b: torch.exp(-(A @ x - b).pow(2).sum() / (1 + x.pow(2).sum())),
        "mixed": lambda x, A, b: torch.logsumexp(A @ x * b, 0) * torch.cos(b).sum() + (x * x.roll(1)).prod(),
        "labels": lambda x, A, b: torch.nn.functional.cross_entropy(torch.outer(torch.tanh(A @ x), torch.arange(1, 4).to(x)), b) + (x ** 4).sum(),
        "one": lambda x: (torch.sin(x) * x.roll(1)).sum() + x.pow(4).mean(),
        "matrix": lambda x, A, b: torch.tanh(A @ x - b).pow(2).sum() + (A ** 3).sum(),
    }
    f = fs[kind]
    if kind == "one":
        return f, (x,), 0, kind
    if kind == "labels":    # an integer-typed constant argument
        return f, (x, A, torch.randint(0, 3, (q,), generator=g)), 0, kind
    pos = rng.choice([0, 0, 2]) if kind != "matrix" else 1
    return f, (x, A, b), pos, kind


def dense_hessian(f, args, pos):
    """Flat (P, P) Hessian in float64 by double backward (no torch.func)."""
    a = [t.detach().to(torch.float64) if t.is_floating_point() else t for t in args]
    a[pos] = a[pos].clone().requires_grad_()
    y = f(*a)
    (gr,) = torch.autograd.grad(y, a[pos], create_graph=True)
    rows = []
    for e in gr.reshape(-1):
        if e.requires_grad:
            (h,) = torch.autograd.grad(e, a[pos], retain_graph=True, allow_unused=True)
        else:
            h = None
        rows.append((torch.zeros_like(a[pos]) if h is None else h).reshape(-1))
    return torch.stack(rows).detach()


def dense_grad(f, args, pos):
    a = [t.detach().to(torch.float64) if t.is_floating_point() else t for t in args]
    a[pos] = a[pos].clone().requires_grad_()
    return torch.autograd.grad(f(*a), a[pos])[0].detach().reshape(-1)
