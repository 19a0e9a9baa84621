"""EK-FAC == eigenvalue-corrected Kronecker closed form."""
import random
import torch
from vmon.workloads import Problem, rand_spec

LEVEL = "exploration"
RULE = ("linear-layer networks (2-D and sequence inputs, short and long sequences) with/without bias, module subsets, damping and "
        "batchings; scores vs the closed form built from per-sample autograd gradients and captured layer inputs/output gradients; "
        "cases whose covariance eigenbasis is ambiguous are skipped; distinct by (architecture, sizes, modules, batching)")
MIN_EVENTS = {"compared": 20}


def gen(rng, tier):
    out = []
    for _ in range(100 if tier == "quick" else 800):
        s = rand_spec(rng, kinds=["linear", "mlp", "mlp3", "seq", "seq", "par"], maxcheck=1, frozen=False)
        if rng.random() < 0.3:
            s["lscale"] = rng.choice([1e-2, 30.0])
        s["n"] = rng.randint(3, 12)
        if s["kind"] == "seq" and rng.random() < 0.4:
            s["d"] = rng.choice([10, 11, 13])
        out.append(dict(scenario="ekfac", spec=s, pick=rng.randrange(10**6), bs=rng.randint(1, 6), cbs=rng.randint(1, 12),
                        damping=rng.choice([1e-2, 0.1, 1.0]), single=rng.random() < 0.1,
                        fail=rng.random() < 0.25, cap=rng.random() < 0.25))
    return out


def mods(P):
    return [n for n, mod in P.model.named_modules() if isinstance(mod, torch.nn.Linear)]


class Broken:
    """Loader that fails on its way through the training set."""

    def __init__(self, loader, after):
        self.loader, self.after = loader, after

    def __len__(self):
        return len(self.loader)

    def __iter__(self):
        for i, b in enumerate(self.loader):
            if i == self.after:
                raise Boom
            yield b


class Boom(Exception):
    pass


def stats(P, names):
    """per-module list over samples of (inputs (T,in[+1]), output grads (T,out)) through plain autograd."""
    net = P._plain(0)
    x, y = P.cast(P.x), P.cast(P.y)
    store = {n: [] for n in names}
    for i in range(len(x)):
        cap = {}
        hs = []
        for n in names:
            def hook(mod, inp, out, n=n):
                out.retain_grad()
                cap[n] = (inp[0], out)
            hs.append(net.get_submodule(n).register_forward_hook(hook))
        net.zero_grad()
        P.value(net, x[i:i + 1], y[i:i + 1]).backward()
        for h in hs:
            h.remove()
        for n in names:
            a, o = cap[n]
            a = a.detach().reshape(-1, a.shape[-1])
            if net.get_submodule(n).bias is not None:
                a = torch.cat([a, torch.ones(len(a), 1, dtype=a.dtype)], 1)
            store[n].append((a, o.grad.reshape(-1, o.shape[-1])))
    return store


def ambiguous(ev):
    top = float(ev.abs().max())
    if top <= 0:
        return True
    nz = ev[ev > 1e-9 * top]
    return len(nz) > 1 and float((nz[1:] - nz[:-1]).min()) < 1e-5 * top


def run(m, c):
    from dattri.algorithm.influence_function import IFAttributorEKFAC
    P = Problem(c["spec"])
    rng = random.Random(c["pick"])
    allm = mods(P)
    names = None
    if rng.random() < 0.6:
        k = rng.randint(1, len(allm))
        names = rng.sample(allm, k)
    use = allm if names is None else names
    arg = names[0] if (names and len(names) == 1 and c["single"]) else names
    att = IFAttributorEKFAC(P.task(), module_name=arg, damping=c["damping"])
    kw, used = {}, P.spec["n"]
    if c.get("cap"):
        kw["max_iter"] = rng.randint(1, -(-P.spec["n"] // c["cbs"]) + 1)
        used = min(used, kw["max_iter"] * c["cbs"])
    if c.get("fail"):
        m.ev("failed_caches")
        good = P.loader("train", c["cbs"])
        try:
            att.cache(Broken(good, rng.randrange(len(good))))
            m.fail("ekfac failing loader ignored", "")
        except Boom:
            pass
    att.cache(P.loader("train", c["cbs"]), **kw)
    left = [n for n, mod in P.model.named_modules() if mod._forward_hooks or mod._backward_hooks or mod._forward_pre_hooks]
    m.check("ekfac hooks left", not left, f"{left}")
    got = att.attribute(P.loader("train", c["bs"]), P.loader("test", max(1, c["bs"] - 1)))
    st = {n: v[:used] for n, v in stats(P, use).items()}
    ps = dict(P.model.named_parameters())
    tot, mag = 0, 0
    for n in use:
        A = sum(a.T @ a for a, _ in st[n]) / len(st[n])
        S = sum(s.T @ s for _, s in st[n]) / len(st[n])
        ea, Ua = torch.linalg.eigh(A)
        es, Us = torch.linalg.eigh(S)
        if ambiguous(ea) or ambiguous(es):
            m.ev("skipped_ambiguous")
            m.sig.append("amb")
            return
        qa, qs = Ua.T, Us.T
        lam = sum((qs @ (s.T @ a) @ qa.T) ** 2 for a, s in st[n]) / len(st[n])
        layer = [n + ".weight"] + ([n + ".bias"] if n + ".bias" in ps else [])
        w = ps[n + ".weight"].shape

        def mat(G):
            W = G[:, :w.numel()].reshape(-1, *w)
            if len(layer) == 2:
                W = torch.cat([W, G[:, w.numel():].unsqueeze(-1)], -1)
            return W
        g = mat(P.grads(0, "train", False, layer))
        t = mat(P.grads(0, "test", True, layer))
        tr = qs.T @ ((qs @ t @ qa.T) / (lam + c["damping"])) @ qa
        tot = tot + torch.einsum("iab,jab->ij", g, tr)
        mag = max(mag, float(g.flatten(1).norm(dim=1).max() * tr.flatten(1).norm(dim=1).max()))
    m.saw(P.spec["kind"], P.spec["n"], P.spec["m"], P.spec["d"], str(names), c["bs"], c["cbs"], P.spec["target"])
    m.close("ekfac", got, tot, tol=1e-4, scale=mag, msg=f"modules={names} cbs={c['cbs']} cached on {used} of {P.spec['n']}")
