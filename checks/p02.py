"""CG influence == exact inverse on positive-definite problems."""
import random
import torch
from vmon.workloads import Problem, rand_spec
from checks.p01 import oracle, choose_lam

LEVEL = "exploration"
RULE = ("random networks with regularization making every checkpoint's full-batch Hessian positive definite; CG run with "
        ">= 2x parameter-count iterations in both autodiff modes; distinct by (mode, architecture, sizes, layers, batching)")
MIN_EVENTS = {"compared": 20, "hard": 3}


def gen(rng, tier):
    out = []
    for _ in range(60 if tier == "quick" else 500):
        s = rand_spec(rng, maxcheck=2)
        s["h"], s["d"], s["k"] = min(s["h"], 2), min(s["d"], 3), min(s["k"], 3)
        out.append(dict(scenario="cg", spec=s, mode=rng.choice(["rev-rev", "rev-rev", "rev-fwd"]), lay=rng.randrange(10**6),
                        rel=rng.choice([None, None, None, "theta", "l"]), bs=rng.randint(2, 8), mult=rng.choice([1, 2])))
    for _ in range(10 if tier == "quick" else 80):
        s = rand_spec(rng, maxcheck=1, kinds=["linear", "mlp"])
        out.append(dict(scenario="cg_truncated", spec=s, mode="rev-rev", lay=rng.randrange(10**6), it=rng.choice([1, 2, 3]),
                        bs=rng.randint(1, 6)))
    # weak regularization: more iterations are needed than there are parameters
    for _ in range(25 if tier == "quick" else 200):
        s = rand_spec(rng, maxcheck=1, kinds=["linear"], losses=("mse",), targets=False, dtypes=("float32",))
        s.update(d=rng.randint(5, 9), k=1, n=rng.randint(15, 30))
        out.append(dict(scenario="cg_hard", spec=s, mode=rng.choice(["rev-rev", "rev-fwd"]), lay=rng.randrange(10**6), bs=rng.randint(2, 8),
                        rel=rng.choice([1e-4, 1e-5]), base=rng.choice([1.5, 1.7, 2.0])))
    return out


def cg_ref(A, V, it, tol=1e-7):
    """The same number of textbook CG steps, one vector at a time, starting at x0 = v."""
    out = []
    for v in V:
        x = v.clone()
        r = v - A @ x
        p = r.clone()
        for _ in range(it):
            if r.norm() < tol:
                break
            Ap = A @ p
            a = (r @ r) / (p @ Ap)
            x = x + a * p
            r2 = r - a * Ap
            if r2.norm() < tol:
                break
            p = r2 + (r2 @ r2) / (r @ r) * p
            r = r2
        out.append(x)
    return torch.stack(out)


def run(m, c):
    from dattri.algorithm.influence_function import IFAttributorCG
    P = Problem(c["spec"])
    layers = P.pick_layers(random.Random(c["lay"]))
    if c["scenario"] == "cg_hard":  # features of very different scales
        w = torch.tensor([c["base"] ** -j for j in range(P.x.shape[1])])
        P.x, P.xt = P.x * w, P.xt * w
    lam = choose_lam(P, layers, "big")
    npar = P.grads(0, layers=layers).shape[1]
    m.saw(c["scenario"], c["mode"], P.spec["kind"], P.spec["n"], P.spec["m"], len(P.states), str(layers), c["bs"], npar)
    if c["scenario"] == "cg":
        att = IFAttributorCG(P.task(), layer_name=layers, max_iter=c["mult"] * npar + 10, tol=1e-10, mode=c["mode"],
                             regularization=lam)
        att.cache(P.loader("train"))
        rel = c["rel"]
        if rel == "l":
            P.spec["target"] = P.spec["target"]
        got = att.attribute(P.loader("train", c["bs"]), P.loader("test", max(1, c["bs"] - 1)), relatif_method=rel)
        want, mask = oracle(P, layers, lam, rel)
        if mask is not None and got.shape == want.shape:
            got, want = got[mask], want[mask]
        m.close("cg", got, want, tol=5e-5, msg=f"mode={c['mode']} layers={layers}")
        return
    if c["scenario"] == "cg_hard":
        H = P.hessian(0, layers)
        ev = torch.linalg.eigvalsh(H)
        lam = max(0.0, -float(ev[0])) + c["rel"] * float(ev[-1])
        A = H + lam * torch.eye(len(H), dtype=H.dtype)
        g, t = P.grads(0, "train", False, layers), P.grads(0, "test", True, layers)
        want = g @ torch.linalg.solve(A, t.T)
        # what the method attains in single precision, for a slightly perturbed system too (rounding steers its path)
        errs = []
        cond = float((ev[-1] + lam) / max(float(ev[0]) + lam, 1e-30))
        for k in range(3):
            B = A.float() * (1 + 1e-7 * k)
            errs.append(float((g @ cg_ref(B, t.float(), 4 * npar, 1e-7).double().T - want).abs().max() / want.abs().max()))
        if max(errs) > 1e-3 or cond > 1e4:
            m.ev("skipped_illconditioned")
            return
        att = IFAttributorCG(P.task(), layer_name=layers, max_iter=4 * npar, tol=1e-7, mode=c["mode"], regularization=lam)
        att.cache(P.loader("train"))
        got = att.attribute(P.loader("train", c["bs"]), P.loader("test", c["bs"]))
        m.ev("hard")
        m.close("cg_hard", got, want, tol=1e-3 + 1e-6 * cond + 5 * max(errs), msg=f"npar={npar} cond={cond:.3g}")
        return
    # early stopping at a fixed number of iterations: scores come from that many CG steps
    it = c["it"]
    att = IFAttributorCG(P.task(), layer_name=layers, max_iter=it, tol=1e-12, mode=c["mode"], regularization=lam)
    att.cache(P.loader("train"))
    got = att.attribute(P.loader("train", c["bs"]), P.loader("test", c["bs"]))
    H = P.hessian(0, layers)
    A = H + lam * torch.eye(len(H), dtype=H.dtype)
    want = P.grads(0, "train", False, layers) @ cg_ref(A, P.grads(0, "test", True, layers), it, 1e-12).T
    m.close("cg_truncated", got, want, tol=5e-5, msg=f"it={it}")
