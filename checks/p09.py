"""Representer points == closed form at an (approximately) optimal last layer."""
import copy, random
import torch
from torch import nn
import torch.nn.functional as F
from torch.utils.data import DataLoader, TensorDataset
from vmon.workloads import FixedSampler

LEVEL = "exploration"
RULE = ("random networks (named or nested last layer, binary and multi-class, with/without cache, subset train loaders, normalized features, "
        "two checkpoints); scores recomputed in float64 from the refit weights and, independently of them, from the exact optimum found by "
        "Newton iterations with the tolerance implied by the documented stopping rule; distinct by configuration")
MIN_EVENTS = {"compared": 60, "refit-near-optimal": 20}


def gen(rng, tier):
    out = []
    for _ in range(90 if tier == "quick" else 700):
        lam = rng.choice([0.003, 0.05, 0.3, 1.0])
        out.append(dict(scenario="rps", d=rng.randint(2, 6), h=rng.randint(2, 5), k=rng.choice([1, 1, 2, 3, 4]), n=rng.randint(2, 12),
                        m=rng.randint(1, 6), nested=rng.random() < 0.4, lam=lam, cache=rng.random() < 0.6,
                        sub=rng.random() < 0.5, norm=rng.random() < 0.35, bs=rng.randint(1, 12), tbs=rng.randint(1, 6),
                        nck=rng.choice([1, 1, 2]), bias=rng.random() < 0.7, fs=rng.choice([0.5, 1.0, 3.0] + [12.0] * (lam > 0.01) + [40.0] * (lam > 0.1))))
    return out


class Flat(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.fc1 = nn.Linear(c["d"], c["h"])
        self.out = nn.Linear(c["h"], c["k"], bias=c["bias"])
        self.fs = c["fs"]

    def forward(self, x):
        return self.out(self.fs * torch.tanh(self.fc1(x)))

    def feat(self, x):
        return self.fs * torch.tanh(self.fc1(x))


class Nest(nn.Module):
    def __init__(self, c):
        super().__init__()
        self.body = nn.Linear(c["d"], c["h"])
        self.head = nn.Sequential(nn.Tanh(), nn.Linear(c["h"], c["k"], bias=c["bias"]))

    def forward(self, x):
        return self.head(self.body(x))

    def feat(self, x):
        return torch.tanh(self.body(x))


def loss_of(k):
    if k == 1:
        return lambda a, b: F.binary_cross_entropy_with_logits(a, b)
    return lambda a, b: F.cross_entropy(a, b)


def newton(x, y, lam, k, th0):
    th = th0.clone()
    lf = loss_of(k)

    def obj(t):
        return lf(x @ t.T, y) + lam * (t ** 2).sum()
    for _ in range(60):
        g = torch.func.grad(obj)(th)
        if g.abs().max() < 1e-13:
            break
        H = torch.func.hessian(obj)(th).reshape(th.numel(), th.numel())
        step = torch.linalg.solve(H, g.reshape(-1)).reshape(th.shape)
        t = 1.0
        while obj(th - t * step) > obj(th) and t > 1e-8:
            t /= 2
        th = th - t * step
    return th


def run(m, c):
    from dattri.algorithm.rps import RPSAttributor
    from dattri.task import AttributionTask
    rng = random.Random(c["seed"])
    torch.manual_seed(c["seed"])
    net = (Nest if c["nested"] else Flat)(c).double().eval()
    name = "head.1" if c["nested"] else "out"
    x, xt = torch.randn(c["n"], c["d"]).double(), torch.randn(c["m"], c["d"]).double()
    kk = max(2, c["k"])
    y, yt = torch.randint(0, kk, (c["n"],)), torch.randint(0, kk, (c["m"],))
    lf = loss_of(c["k"])
    sds = [copy.deepcopy(net.state_dict())]
    for _ in range(c["nck"] - 1):
        sds.append({k: v + torch.randn_like(v) for k, v in sds[0].items()})
    live = copy.deepcopy(net)
    task = AttributionTask(loss_func=lf, model=live, checkpoints=copy.deepcopy(sds) if len(sds) > 1 else copy.deepcopy(sds[0]))
    att = RPSAttributor(task, final_linear_layer_name=name, normalize_preactivate=c["norm"], l2_strength=c["lam"], epoch=3000)
    if len(sds) > 1:
        task.get_param(ckpt_idx=1)
    ds, dt = TensorDataset(x, y), TensorDataset(xt, yt)
    idx = list(range(c["n"]))
    if c["sub"]:
        idx = rng.sample(idx, rng.randint(1, c["n"]))
    lt = DataLoader(ds, batch_size=c["bs"], sampler=FixedSampler(idx) if c["sub"] else None)
    le = DataLoader(dt, batch_size=c["tbs"])
    fitidx = list(range(c["n"])) if c["cache"] else idx
    if c["cache"]:
        att.cache(DataLoader(ds, batch_size=max(1, c["bs"] - 1)))
        if len(sds) > 1:
            task.get_param(ckpt_idx=1)
    got = att.attribute(lt, le)
    # ---- oracle
    net.load_state_dict(sds[0])
    with torch.no_grad():
        fx, ft, out = net.feat(x), net.feat(xt), net(x)
    W = net.get_submodule(name).weight.data
    soft = torch.sigmoid(out) if c["k"] == 1 else torch.softmax(out, 1)
    nf = len(fitidx)

    def scores(th):
        phi = fx @ th.T
        p = torch.sigmoid(phi) if c["k"] == 1 else torch.softmax(phi, 1)
        al = (p - soft) / (-2 * c["lam"] * nf)     # d(loss_i)/d(phi_i) of (B)CE with soft labels
        a = al[idx][:, yt] if c["k"] > 1 else al[idx]
        A, B = fx[idx], ft
        if c["norm"]:
            A, B = F.normalize(A), F.normalize(B)
        return (A @ B.T) * a
    fs, ys = fx[fitidx], soft[fitidx]

    def obj(t):
        return lf(fs @ t.T, ys) + c["lam"] * (t ** 2).sum()
    g0, th = torch.func.grad(obj)(W), att.finetuned_theta.double()
    gth = torch.func.grad(obj)(th)
    m.ev("refit-near-optimal")
    # the line search compares float32 objectives: below sqrt(2 eps obj L) of gradient norm no step can be seen to improve
    L = 0.25 * float(torch.linalg.matrix_norm(fs, 2)) ** 2 / nf + 2 * c["lam"]
    floor = (2 * 1.2e-7 * float(obj(th)) * L) ** 0.5 / th.numel() ** 0.5
    need = g0.abs().mean() / {1.0: 200, 0.3: 200, 0.05: 20, 0.003: 2}[c["lam"]] * 1.01 + 1e-6
    m.check("rps refit not optimal", gth.abs().mean() <= need + floor * (c["fs"] > 3),
            f"mean|grad| of the regularized objective {float(gth.abs().mean()):.3g} vs initial {float(g0.abs().mean()):.3g}")
    inner = float((fx[idx].norm(dim=1).max() if not c["norm"] else 1.0) * (ft.norm(dim=1).max() if not c["norm"] else 1.0))
    mag = inner / (2 * c["lam"] * nf)
    m.saw(tuple(c[k] for k in ("d", "h", "k", "n", "m", "nested", "lam", "cache", "sub", "norm", "bs", "tbs", "nck")))
    m.close("rps", got, scores(th), tol=2e-6, scale=mag, msg=f"idx={idx} lam={c['lam']}")
    star = newton(fs, ys, c["lam"], c["k"], W)
    bound = float(gth.norm()) / (2 * c["lam"]) * float(fx.norm(dim=1).max()) * 0.5
    m.close("rps vs exact optimum", got, scores(star), tol=1.0, scale=mag * (bound + 1e-6), msg=f"bound={bound:.3g}")
    for k, v in live.state_dict().items():
        m.check("rps changed model", any(torch.equal(v, sd[k]) for sd in sds), k)
    m.check("rps left hooks", not any(mod._forward_hooks for mod in live.modules()), "forward hooks remain")
    got2 = att.attribute(lt, le)
    m.close("rps repeat", got2, got, tol=1e-9, scale=mag)
