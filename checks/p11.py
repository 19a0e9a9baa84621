"""DVEmb == SGD-unrolling recursion on independently computed per-sample gradients of a real SGD run."""
import math, random
import torch
import torch.nn.functional as F
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
from vmon.workloads import Net

LEVEL = "exploration"
RULE = ("real SGD runs (random nets, epochs with arbitrary numbers, repeated and shuffled sample indices, varying step sizes and batch sizes); all modes "
        "(full, factorized, Kronecker/elementwise projected, direct and context caching), networks with parallel, residual, unused and conditionally run layers, "
        "batch buffers the caller reuses; embeddings recomputed sample by sample by explicit "
        "propagation through all later steps; distinct by (mode, model, steps, epochs, layers)")
MIN_EVENTS = {"compared": 60, "disordered": 1, "buffers_reused": 40}
MODES = ["none", "none", "noneproj", "kron", "krctx", "kronproj", "elem", "elemproj", "elemctx", "kronplainctx", "elemplainctx"]


class Branches(nn.Module):
    """Parallel layers, a residual connection, a layer nothing depends on, and a layer only some steps run."""

    def __init__(self, kind, d, h, k, bias):
        super().__init__()
        self.kind, self.on = kind, True
        self.first = nn.Linear(d, h, bias=bias)
        if kind == "parallel":
            self.other = nn.Linear(d, h, bias=bias)
        if kind in ("residual", "gated"):
            self.mid = nn.Linear(h, h, bias=bias)
        if kind == "unused":
            self.spare = nn.Linear(d, h, bias=bias)
        if kind == "ignored":
            self.aux = nn.Linear(h, h, bias=bias)
        self.last = nn.Linear(h, k, bias=bias)

    def forward(self, x):
        z = self.first(x)
        if self.kind == "parallel":
            z = z + self.other(x)
        elif self.kind == "residual":
            z = z + self.mid(z)
        elif self.kind == "gated" and self.on:
            z = self.mid(torch.tanh(z))
        elif self.kind == "ignored":
            self.aux(z)
        return self.last(torch.tanh(z))


def gen(rng, tier):
    out = []
    for _ in range(140 if tier == "quick" else 1200):
        e0 = rng.choice([0, 0, 0, 1, 5])
        ne = rng.randint(1, 3)
        eps = [e0 + i * rng.choice([1, 1, 2]) for i in range(ne)] if rng.random() < .5 else list(range(e0, e0 + ne))
        out.append(dict(scenario="dvemb", mode=rng.choice(MODES), kind=rng.choice(["linear", "mlp", "mlp3", "seq", "mlp", "seq", "parallel", "residual", "unused", "ignored", "gated"]), d=rng.randint(2, 4), h=rng.randint(2, 4),
                        k=rng.randint(2, 3), bias=rng.random() < 0.7, n=rng.randint(2, 10), m=rng.randint(1, 5), epochs=sorted(set(eps)),
                        bs=rng.randint(1, 5), lr=rng.choice([0.02, 0.1, 0.5]), decay=rng.random() < 0.6, loss=rng.choice(["ce", "mse"]),
                        pd=rng.choice([1, 4, 5, 9, 16]), seed2=rng.choice([0, 0, 3]), sel=rng.random() < 0.4, dtype=rng.choice(["float64", "float64", "float32"]),
                        tbs=rng.randint(1, 4), repeat=rng.random() < 0.4, mem=rng.random() < 0.5, rerun=rng.random() < 0.2, reuse=rng.random() < 0.3))
        # epoch numbers name positions in the training run: records may be made in another order (e.g. resumed from a log)
        out[-1]["failing"] = 0.25 if rng.random() < 0.3 else 0
        out[-1]["disorder"] = rng.random() < 0.25 and len(out[-1]["epochs"]) > 1 and not out[-1]["mode"].endswith("ctx")
    return out


def run(m, c):
    from dattri.algorithm.dvemb import DVEmbAttributor
    from dattri.func.projection import random_project
    from dattri.params.projection import DVEmbProjectionParams, RandomProjectionParams
    from dattri.task import AttributionTask
    rng = random.Random(c["seed"])
    torch.manual_seed(c["seed"])
    dt = getattr(torch, c["dtype"])
    mode = c["mode"]
    model = (Net if c["kind"] in ("linear", "mlp", "mlp3", "seq") else Branches)(c["kind"], c["d"], c["h"], c["k"], c["bias"]).to(dt)
    n, mm, k = c["n"], c["m"], c["k"]
    x, xt = torch.randn(n, c["d"]).to(dt), torch.randn(mm, c["d"]).to(dt)
    if c["loss"] == "ce":
        y, yt = torch.randint(0, k, (n,)), torch.randint(0, k, (mm,))
        lf = F.cross_entropy
    else:
        y, yt = torch.randn(n, k).to(dt), torch.randn(mm, k).to(dt)
        lf = F.mse_loss
    fact = not mode.startswith("none")
    ctx = mode.endswith("ctx")
    proj = mode.endswith("proj") or (ctx and "plain" not in mode)

    class Boom(Exception):
        pass
    armed = []

    def floss(params, data):
        a, b = data
        if armed:
            raise Boom
        return lf(torch.func.functional_call(model, params, (a,)), b)

    def eloss(mod, data, device):
        a, b = data
        out = mod(a.to(device))
        if armed:
            raise Boom
        return lf(out, b.to(device))
    task = AttributionTask(model=model, loss_func=eloss if fact else floss, checkpoints=[model.state_dict()])
    kw = {}
    linear = [nm for nm, mod in model.named_modules() if isinstance(mod, nn.Linear)]
    names = linear
    if fact:
        kw["factorization_type"] = "kronecker" if mode.startswith("kr") else "elementwise"
        if c["sel"]:
            names = rng.sample(linear, rng.randint(1, len(linear)))
            kw["layer_names"] = names[0] if len(names) == 1 and rng.random() < .5 else list(names)
    pd = c["pd"]
    if proj:
        kw["proj_params"] = DVEmbProjectionParams(proj_dim_per_layer=pd, proj_seed=c["seed2"])
    att = DVEmbAttributor(task, **kw)

    def gradients(loss, ps):
        gs = torch.autograd.grad(loss, ps, allow_unused=True)
        return [torch.zeros_like(p) if g is None else g for g, p in zip(gs, ps)]

    bufs = {}

    def lend(idx):
        """The batch as a caller with fixed buffers hands it over."""
        b = (x[idx], y[idx], idx.clone())
        if not c["reuse"]:
            return b
        out = []
        for i, t in enumerate(b):
            buf = bufs.setdefault((i, len(idx)), torch.empty_like(t))
            buf.copy_(t)
            out.append(buf)
        return out

    def reclaim():
        if c["reuse"]:
            for buf in bufs.values():
                buf.copy_(torch.zeros_like(buf) if not buf.is_floating_point() else torch.randn_like(buf) * 3)
            m.ev("buffers_reused")

    # ---- independent gradient features
    def feats(xs, ys):
        rows = []
        ps = dict(model.named_parameters())
        for i in range(len(xs)):
            if not fact:
                g = gradients(lf(model(xs[i:i + 1]), ys[i:i + 1]), list(ps.values()))
                rows.append(torch.cat([a.reshape(-1) for a in g]).double())
                continue
            sel = [ps[f"{nm}.{q}"] for nm in names for q in ("weight", "bias") if f"{nm}.{q}" in ps]
            g = dict(zip([f"{nm}.{q}" for nm in names for q in ("weight", "bias") if f"{nm}.{q}" in ps],
                         gradients(lf(model(xs[i:i + 1]), ys[i:i + 1]), sel)))
            if not proj:
                rows.append(torch.cat([a.reshape(-1) for a in g.values()]).double())
            else:
                rows.append([g[f"{nm}.weight"].double() for nm in names])
        if not proj:
            return torch.stack(rows)
        return rows

    def matrix(din, p):
        eye = torch.eye(din)
        f = random_project(eye, RandomProjectionParams(feature_batch_size=din, device="cpu", proj_dim=p, proj_seed=c["seed2"], proj_max_batch_size=64))
        return f(eye).double()      # (din, p)
    mats = {}

    def project(rows):
        if not proj:
            return rows
        if not fact:
            R = rows if torch.is_tensor(rows) else torch.stack(rows)
            return R @ mats.setdefault("full", matrix(R.shape[1], pd))
        out = []
        p = int(math.sqrt(pd)) if mode.startswith("kr") else pd
        for r in rows:
            parts = []
            for nm, W in zip(names, r):
                A = mats.setdefault(("a", nm), matrix(W.shape[1], p))
                B = mats.setdefault(("b", nm), matrix(W.shape[0], p))
                K = B.T @ W @ A       # (p, p) rows: output side
                parts.append(K.reshape(-1) if mode.startswith("kr") else K.diagonal() * math.sqrt(p))
            out.append(torch.cat(parts))
        return torch.stack(out)

    def grads(xs, ys):
        if proj and not fact:
            rows = []
            for i in range(len(xs)):
                g = gradients(lf(model(xs[i:i + 1]), ys[i:i + 1]), list(model.parameters()))
                rows.append(torch.cat([a.reshape(-1) for a in g]).double())
            return project(torch.stack(rows))
        return project(feats(xs, ys))

    def failed_step(e, idx, lr):
        """A step that fails on the way: the caller sees its own exception and the record stays as it was."""
        m.ev("failed_steps")
        where = rng.choice(["start", "forward", "backward"])
        if not ctx:
            armed.append(1)
            try:
                att.cache_gradients(e, (x[idx], y[idx]), idx, lr)
                m.fail("dvemb failing loss ignored", "")
            except Boom:
                pass
            except Exception as ex:  # noqa: BLE001
                m.fail("dvemb failure masked", f"direct: {type(ex).__name__} {ex}")
            armed.clear()
            return
        try:
            with att.cache_gradients_context(epoch=e, indices=idx, learning_rate=lr):
                if where != "start":
                    loss = lf(model(x[idx]), y[idx])
                if where == "backward":
                    loss.backward()
                raise Boom
        except Boom:
            pass
        except Exception as ex:  # noqa: BLE001
            m.fail("dvemb failure masked", f"{where}: {type(ex).__name__} {ex}")
        model.zero_grad()

    def training(epochs, disorder=False):
        hist, lr = [], c["lr"] if isinstance(model, Net) else min(0.1, c["lr"])
        if disorder:  # same weights throughout: the steps are recorded epoch by epoch in arbitrary order
            calls = list(epochs) * rng.choice([1, 2])
            while calls == sorted(calls):
                rng.shuffle(calls)
            for e in calls:
                for _ in range(rng.randint(1, 2)):
                    idx = torch.tensor([rng.randrange(n) for _ in range(rng.randint(1, c["bs"]))] if c["repeat"] else rng.sample(range(n), min(n, c["bs"])))
                    hist.append((e, idx, lr / len(idx), grads(x[idx], y[idx])))
                    bx, by, bi = lend(idx)
                    att.cache_gradients(e, (bx, by), bi, lr)
                    reclaim()
                    lr *= 0.9
            m.ev("disordered")
            return sorted(hist, key=lambda h: h[0])  # stable: the order of steps inside an epoch is the recorded one
        for e in epochs:
            order = list(range(n))
            rng.shuffle(order)
            if c["repeat"]:
                order = [rng.randrange(n) for _ in range(n)]
            for s in range(0, len(order), c["bs"]):
                idx = torch.tensor(order[s:s + c["bs"]])
                if c["decay"]:
                    lr *= 0.9
                if c["kind"] == "gated":
                    model.on = rng.random() < 0.5
                G = grads(x[idx], y[idx])
                hist.append((e, idx, lr / len(idx), G))
                if rng.random() < c["failing"]:
                    failed_step(e, idx, lr)
                opt = torch.optim.SGD(model.parameters(), lr=lr)
                bx, by, bi = lend(idx)
                if ctx:
                    with att.cache_gradients_context(epoch=e, indices=bi, learning_rate=lr):
                        opt.zero_grad()
                        lf(model(bx), by).backward()
                        opt.step()
                else:
                    att.cache_gradients(e, (bx, by), bi, lr)
                    opt.zero_grad()
                    lf(model(bx), by).backward()
                    opt.step()
                reclaim()
        return hist

    def embed(hist):
        size = max(int(h[1].max()) for h in hist) + 1
        emb = {e: torch.zeros(size, hist[0][3].shape[1], dtype=torch.float64) for e in {h[0] for h in hist}}
        for t, (e, idx, eta, G) in enumerate(hist):
            V = eta * G
            for (_, _, eta2, G2) in hist[t + 1:]:
                V = V - eta2 * (V @ G2.T) @ G2
            for r, i in enumerate(idx.tolist()):
                emb[e][i] += V[r]
        return emb
    if c["rerun"]:
        training([0, 7])
        att.cache(memory_saving=False)
        att.clear_cache()
    hist = training(c["epochs"], c["disorder"])
    att.cache(memory_saving=c["mem"])
    emb = embed(hist)
    T = grads(xt, yt)
    te = DataLoader(TensorDataset(xt, yt), batch_size=c["tbs"])
    tot = sum(emb.values()) @ T.T
    got = att.attribute(te)
    mag = float(max(sum(v.abs() for v in emb.values()).norm(dim=1).max(), max(float((h[2] * h[3]).norm(dim=1).max()) for h in hist)) * T.norm(dim=1).max())
    tol = 2e-5 if c["dtype"] == "float64" and not proj else 3e-4
    m.saw(mode, c["kind"], n, mm, c["bs"], tuple(c["epochs"]), str(kw.get("layer_names")), c["pd"] if proj else 0, c["repeat"], c["decay"], c["dtype"])
    m.close(f"dvemb {mode}", got, tot, tol=tol, scale=mag, msg=f"epochs={c['epochs']} layers={names}")
    e = rng.choice(c["epochs"])
    m.close(f"dvemb {mode} epoch", att.attribute(te, epoch=e), emb[e] @ T.T, tol=tol, scale=mag, msg=f"epoch {e}")
    ids = [rng.randrange(len(tot)) for _ in range(rng.randint(1, 4))]
    m.close(f"dvemb {mode} rows", att.attribute(te, train_data_indices=ids), tot[ids], tol=tol, scale=mag, msg=f"rows {ids}")
    for mod in model.modules():
        m.check("dvemb hooks left", not mod._forward_hooks and not mod._backward_hooks, type(mod).__name__)
