"""Random models / data / loaders and plain-autograd float64 oracles.

Everything here is written against torch only (no dattri import), so it is an independent
reference for what the attributors must return.
"""
import random
import torch
from torch import nn
import torch.nn.functional as Fn
from torch.utils.data import DataLoader, Dataset, Sampler, TensorDataset


class Net(nn.Module):
    """Small nets of several shapes; 'frozen' adds parameters that do not require grad."""

    def __init__(self, kind, d, h, k, bias=True, frozen=False):
        super().__init__()
        self.kind = kind
        if kind == "linear":
            self.fc = nn.Linear(d, k, bias=bias)
        elif kind == "mlp":
            self.fc1 = nn.Linear(d, h, bias=bias)
            self.fc2 = nn.Linear(h, k, bias=True)
        elif kind == "mlp3":
            self.body = nn.Sequential(nn.Linear(d, h), nn.Tanh(), nn.Linear(h, h, bias=bias), nn.Tanh())
            self.head = nn.Linear(h, k)
        elif kind == "norm":
            self.fc1 = nn.Linear(d, h)
            self.ln = nn.LayerNorm(h)
            self.fc2 = nn.Linear(h, k, bias=bias)
        elif kind == "conv":
            self.conv = nn.Conv1d(1, 2, 3, padding=1)
            self.fc2 = nn.Linear(2 * d, k)
        elif kind == "seq":  # the first linear layer sees (batch, d, 2) inputs
            self.fc1 = nn.Linear(2, h, bias=bias)
            self.fc2 = nn.Linear(h, k, bias=True)
        elif kind == "par":  # branches that are added: their layers receive one gradient
            self.fc1 = nn.Linear(d, h, bias=bias)
            self.skip = nn.Linear(d, h)
            self.mid = nn.Linear(h, h, bias=bias)
            self.fc2 = nn.Linear(h, k)
        elif kind == "emb":  # integer (token id) inputs
            self.tok = nn.Embedding(5, h)
            self.fc2 = nn.Linear(h, k, bias=bias)
        elif kind == "buf":  # checkpoints differ in a buffer as well (as batch-norm statistics do)
            self.fc1 = nn.Linear(d, h, bias=bias)
            self.register_buffer("shift", torch.zeros(h))
            self.fc2 = nn.Linear(h, k)
        else:
            raise ValueError(kind)
        if frozen:
            self.scale = nn.Parameter(torch.rand(k) + 0.5, requires_grad=False)
        else:
            self.scale = None

    def forward(self, x):
        k = self.kind
        if k == "linear":
            y = self.fc(x)
        elif k == "mlp":
            y = self.fc2(torch.tanh(self.fc1(x)))
        elif k == "mlp3":
            y = self.head(self.body(x))
        elif k == "norm":
            y = self.fc2(torch.tanh(self.ln(self.fc1(x))))
        elif k == "conv":
            y = self.fc2(torch.tanh(self.conv(x.unsqueeze(-2))).flatten(-2))
        elif k == "buf":
            y = self.fc2(torch.tanh(self.fc1(x) + self.shift))
        elif k == "par":
            z = self.fc1(x) + self.skip(x)
            y = self.fc2(z + self.mid(torch.tanh(z)))
        elif k == "emb":
            y = self.fc2(torch.tanh(self.tok(x).sum(-2)))
        elif k == "seq":
            y = self.fc2(torch.tanh(self.fc1(torch.stack([x, x * x], -1))).mean(-2))
        if self.scale is not None:
            y = y * self.scale
        return y


KINDS = ["linear", "mlp", "mlp3", "norm", "conv", "buf", "emb"]
KINDS_H = ["linear", "mlp", "mlp3", "conv", "buf", "emb"]  # LayerNorm forward-over-reverse differs inside torch itself


class Problem:
    """A concrete attribution problem built from a JSON-able spec."""

    def __init__(self, spec):
        self.spec = s = dict(kind="mlp", d=4, h=3, k=3, n=7, m=4, ncheck=1, bias=True, frozen=False,
                             loss="ce", target=None, fmt="tuple", dtype="float64", l2=0.0, lscale=1.0, seed=0)
        s.update(spec)
        g = torch.Generator().manual_seed(int(s["seed"]))
        self.dtype = getattr(torch, s["dtype"])
        st = torch.random.get_rng_state()
        torch.manual_seed(int(s["seed"]) + 17)
        self.model = Net(s["kind"], s["d"], s["h"], s["k"], s["bias"], s["frozen"]).to(self.dtype)
        self.model.eval()
        self.states = []
        for c in range(s["ncheck"]):
            sd = {}
            for n, v in self.model.state_dict().items():
                if n == "scale":
                    # non-trainable parameters are the same in every checkpoint
                    sd[n] = v.clone()
                else:
                    sd[n] = (v + 0.4 * torch.randn(v.shape, generator=g, dtype=torch.float64).to(self.dtype)).clone()
            self.states.append(sd)
        torch.random.set_rng_state(st)
        n, m, d, k = s["n"], s["m"], s["d"], s["k"]
        self.x = torch.randn(n, d, generator=g, dtype=torch.float64).to(self.dtype)
        self.xt = torch.randn(m, d, generator=g, dtype=torch.float64).to(self.dtype)
        if s["kind"] == "emb":
            self.x = torch.randint(0, 5, (n, d), generator=g)
            self.xt = torch.randint(0, 5, (m, d), generator=g)
        if s["loss"] == "mse":
            self.y = torch.randn(n, k, generator=g, dtype=torch.float64).to(self.dtype)
            self.yt = torch.randn(m, k, generator=g, dtype=torch.float64).to(self.dtype)
        else:
            self.y = torch.randint(0, k, (n,), generator=g)
            self.yt = torch.randint(0, k, (m,), generator=g)
        self.pnames = [nm for nm, p in self.model.named_parameters() if p.requires_grad]

    # ----- objects handed to the code under test ------------------------------------
    def _unpack(self, data):
        if isinstance(data, dict):
            return data["x"], data["y"]
        return data[0], data[1]

    def _loss(self, kind, yhat, y):
        out = self._raw_loss(kind, yhat, y)
        return out if self.spec["lscale"] == 1.0 else out * self.spec["lscale"]

    def _raw_loss(self, kind, yhat, y):
        if kind == "ce":
            return Fn.cross_entropy(yhat, y.long())
        if kind == "mse":
            return ((yhat - y) ** 2).mean()
        if kind == "msesum":
            return ((yhat - y) ** 2).sum()
        if kind == "margin":  # TRAK-style logit margin
            p = torch.softmax(yhat, -1).gather(-1, y.long().unsqueeze(-1)).squeeze(-1)
            return (torch.log(p + 1e-9) - torch.log(1 - p + 1e-9)).mean()
        if kind == "logit":
            return yhat.gather(-1, y.long().unsqueeze(-1)).mean()
        if kind == "outsum":
            return (yhat.sin() * y).mean()
        raise ValueError(kind)

    def loss_func(self):
        model, kind, l2 = self.model, self.spec["loss"], self.spec["l2"]

        def f(params, data):
            x, y = self._unpack(data)
            yhat = torch.func.functional_call(model, params, (x,))
            out = self._loss(kind, yhat, y)
            if l2:
                out = out + 0.5 * l2 * sum((p ** 2).sum() for p in params.values())
            return out
        return f

    def target_func(self):
        t = self.spec["target"]
        if t is None:
            return None
        model = self.model

        def g(params, data):
            x, y = self._unpack(data)
            return self._loss(t, torch.func.functional_call(model, params, (x,)), y)
        return g

    def checkpoints(self):
        return [dict((k, v.clone()) for k, v in sd.items()) for sd in self.states]

    def task(self, **kw):
        from dattri.task import AttributionTask
        cks = kw.pop("checkpoints", None) or self.checkpoints()
        args = dict(loss_func=self.loss_func(), model=self.model,
                    checkpoints=cks if len(cks) > 1 or kw.pop("aslist", True) else cks[0])
        if self.spec["target"] is not None:
            args["target_func"] = self.target_func()
        args.update(kw)
        return AttributionTask(**args)

    def dataset(self, which="train", idx=None, fmt=None):
        x, y = (self.x, self.y) if which == "train" else (self.xt, self.yt)
        if idx is not None:
            x, y = x[idx], y[idx]
        return Data(x, y, fmt or self.spec["fmt"])

    def loader(self, which="train", bs=None, idx=None, fmt=None, sampler=None):
        ds = self.dataset(which, idx, fmt)
        f = fmt or self.spec["fmt"]
        return DataLoader(ds, batch_size=bs or max(1, len(ds)), shuffle=False, sampler=sampler,
                          collate_fn=COLLATE[f])

    # ----- oracle -------------------------------------------------------------------
    def _plain(self, ckpt, dtype=torch.float64):
        net = Net(self.spec["kind"], self.spec["d"], self.spec["h"], self.spec["k"], self.spec["bias"],
                  self.spec["frozen"]).to(dtype)
        net.load_state_dict({k: v.to(dtype) for k, v in self.states[ckpt].items()})
        net.eval()
        return net

    def sel(self, layers=None):
        if layers is None:
            return list(self.pnames)
        return [layers] if isinstance(layers, str) else list(layers)

    def value(self, net, x, y, target=False):
        """scalar of one batch through a plain module."""
        kind = self.spec["target"] if (target and self.spec["target"]) else self.spec["loss"]
        out = self._loss(kind, net(x), y)
        if kind == self.spec["loss"] and self.spec["l2"] and not (target and self.spec["target"]):
            out = out + 0.5 * self.spec["l2"] * sum((p ** 2).sum() for p in net.parameters() if p.requires_grad)
        return out

    def cast(self, t):
        return t.to(torch.float64) if t.is_floating_point() else t

    def grads(self, ckpt, which="train", target=False, layers=None):
        """(n, P) per-sample gradients by plain reverse-mode autograd, float64."""
        net = self._plain(ckpt)
        ps = dict(net.named_parameters())
        sel = [ps[n] for n in self.sel(layers)]
        x, y = (self.x, self.y) if which == "train" else (self.xt, self.yt)
        x, y = self.cast(x), self.cast(y)
        out = []
        for i in range(len(x)):
            g = torch.autograd.grad(self.value(net, x[i:i + 1], y[i:i + 1], target), sel, allow_unused=True)
            out.append(torch.cat([(a if a is not None else torch.zeros_like(p)).reshape(-1) for a, p in zip(g, sel)]))
        return torch.stack(out)

    def hessian(self, ckpt, layers=None, idx=None, target=False):
        """Dense Hessian of the mean loss on the training batch w.r.t. selected parameters."""
        net = self._plain(ckpt)
        names = self.sel(layers)
        ps = dict(net.named_parameters())
        sel = [ps[n] for n in names]
        x, y = self.cast(self.x), self.cast(self.y)
        if idx is not None:
            x, y = x[idx], y[idx]
        loss = self.value(net, x, y, target)
        g = torch.autograd.grad(loss, sel, create_graph=True)
        flat = torch.cat([a.reshape(-1) for a in g])
        rows = []
        for i in range(len(flat)):
            r = torch.autograd.grad(flat[i], sel, retain_graph=True, allow_unused=True)
            rows.append(torch.cat([(a if a is not None else torch.zeros_like(p)).reshape(-1) for a, p in zip(r, sel)]))
        return torch.stack(rows)

    def pick_layers(self, rng):
        """None, one name, or several names (usually in model order)."""
        mode = rng.choice(["none", "none", "one", "some"])
        names = list(self.pnames)
        if mode == "none":
            return None
        if mode == "one":
            return [rng.choice(names)]
        k = rng.randint(1, len(names))
        chosen = set(rng.sample(names, k))
        out = [n for n in names if n in chosen]
        if rng.random() < 0.3:
            rng.shuffle(out)
        return out


class Data(Dataset):
    def __init__(self, x, y, fmt):
        self.x, self.y, self.fmt = x, y, fmt

    def __len__(self):
        return len(self.x)

    def __getitem__(self, i):
        if self.fmt == "dict":
            return {"x": self.x[i], "y": self.y[i]}
        return self.x[i], self.y[i]


def _tup(b):
    return tuple(torch.stack(z) for z in zip(*b))


def _lst(b):
    return [torch.stack(z) for z in zip(*b)]


def _dct(b):
    return {k: torch.stack([e[k] for e in b]) for k in b[0]}


COLLATE = {"tuple": _tup, "list": _lst, "dict": _dct}


class FixedSampler(Sampler):
    def __init__(self, idx):
        self.idx = list(idx)

    def __iter__(self):
        return iter(self.idx)

    def __len__(self):
        return len(self.idx)


def rand_spec(rng, kinds=tuple(KINDS_H), losses=("ce", "mse"), targets=True,
              maxcheck=3, fmts=("tuple", "list", "dict"), frozen=True, l2=(0.0,), big=False, dtypes=("float64",)):
    loss = rng.choice(list(losses))
    tgt = None
    if targets and rng.random() < 0.5:
        tgt = rng.choice(["margin", "logit"]) if loss == "ce" else "outsum"
    return dict(kind=rng.choice(list(kinds)), d=rng.randint(2, 5 if not big else 9), h=rng.randint(2, 4 if not big else 8),
                k=rng.randint(2, 4), n=rng.randint(1 if rng.random() < .15 else 3, 9 if not big else 25),
                m=rng.randint(1, 6 if not big else 14),
                ncheck=rng.choice([1, 1, 2, maxcheck]) if maxcheck > 1 else 1, bias=rng.random() < 0.7,
                frozen=bool(frozen and rng.random() < 0.2), loss=loss, target=tgt, fmt=rng.choice(list(fmts)),
                l2=rng.choice(list(l2)), dtype=rng.choice(list(dtypes)), seed=rng.randrange(2**31))
