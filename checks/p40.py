"""Scores follow from the function, the checkpoints and the data, not from how these are packaged."""
import collections
import copy
import functools
import os
import random
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
from vmon import attributors as A
from vmon.block import no_compile
from vmon.workloads import COLLATE
no_compile()

LEVEL = "exploration"
TECHNIQUE = "runtime monitoring: metamorphic twin runs of the real attributors on repackaged but equal problems"
RULE = ("every attributor, random problems and configurations; the same function, checkpoints and samples are handed over in another package (module "
        "nesting, hostile module names, registration order of modules and parameters, parameters nothing depends on, tied or reused layers, "
        "non-contiguous or view parameters, meaningless initial weights, a model in training mode, checkpoint files, loading functions that return a new model, "
        "other forms of the loss callable, other datasets, workers and uneven batch samplers); all scores are compared with the plain package's; "
        "distinct by (attributor, packages, architecture, sizes)")
MIN_EVENTS = {"compared": 150, "packaged": 100}
CASE_LIMIT = 200
KINDS = [k for k in A.ALL if k not in ("logra", "factgrass", "blockgen", "knn")]
MODEL = ["nested", "renamed", "order", "unused", "layout", "views", "nan", "mode", "none"]
CKPT = ["none", "none", "file", "path", "ordered", "fresh"]
SIG = ["none", "none", "object", "partial", "extra", "names"]
LOAD = ["none", "tensors", "listset", "uneven"] * 3 + ["workers"]


def gen(rng, tier):
    out = []
    for i in range(170 if tier == "quick" else 1600):
        k = KINDS[i % len(KINDS)]
        c = dict(scenario="package", kind=k, spec=A.spec(rng, k), cfg=A.config(rng, k), bs=rng.randint(1, 5), tbs=rng.randint(1, 4), pick=rng.randrange(10**9),
                 model=rng.choice(MODEL), ckpt=rng.choice(CKPT), sig=rng.choice(SIG), load=rng.choice(LOAD))
        if k == "blockid":
            c["spec"]["dtype"] = "float32"
        out.append(c)
    for i in range(20 if tier == "quick" else 160):
        k = rng.choice(["explicit", "cg", "lissa", "datainf", "tracin", "graddot", "gradcos", "trak"])
        c = dict(scenario="tied", kind=k, spec=dict(A.spec(rng, k), kind="linear"), cfg=A.config(rng, k), bs=rng.randint(1, 5), tbs=rng.randint(1, 4),
                 pick=rng.randrange(10**9), model="none", ckpt=rng.choice(["none", "file"]), sig="none", load="none")
        out.append(c)
    for c in out:
        if c["kind"] == "cg":  # runs to convergence for every sample
            c["spec"].update(n=min(c["spec"]["n"], 4), m=min(c["spec"]["m"], 3), d=2, h=2, k=2)
    return out


class Wrap(nn.Module):
    def __init__(self, core, drop=None):
        super().__init__()
        self.core = core
        if drop:
            self.drop = nn.Dropout(drop)

    def forward(self, *a, **kw):
        out = self.core(*a, **kw)
        return self.drop(out) if hasattr(self, "drop") else out


class Shared(nn.Module):
    """One hidden layer used twice; written with a single module, or with two modules holding the same parameters."""

    def __init__(self, d, h, k, tied):
        super().__init__()
        self.first = nn.Linear(d, h)
        self.mid = nn.Linear(h, h)
        if tied:
            self.mid2 = nn.Linear(h, h)
            self.mid2.weight, self.mid2.bias = self.mid.weight, self.mid.bias
        self.last = nn.Linear(h, k)

    def forward(self, x):
        z = torch.tanh(self.mid(torch.tanh(self.first(x))))
        return self.last(torch.tanh(getattr(self, "mid2", self.mid)(z)))


def rename(model, rng):
    names = rng.sample(["weight", "bias", "0", "a", "a_b", "model", "module", "params", "x y", "fc"], len(model._modules))
    mp = dict(zip(model._modules, names))
    cls = type(model)
    model.__class__ = type("Renamed", (cls,), {"__getattr__": lambda self, n: cls.__getattr__(self, mp.get(n, n))})
    model._modules = type(model._modules)((mp[k], v) for k, v in model._modules.items())
    return lambda n: ".".join([mp.get(n.split(".")[0], n.split(".")[0]), *n.split(".")[1:]])


def repackage(P, base, how, rng):
    """Change the package of P's model; returns the map of the names of base to those of P."""
    model = P.model
    ident = lambda n: n  # noqa: E731
    f = ident
    if how in ("nested", "mode"):
        P.model = Wrap(model, 0.5 if how == "mode" else None).to(P.dtype)
        f = lambda n: "core." + n  # noqa: E731
        if how == "mode":
            P.model.train()
    elif how == "renamed":
        f = rename(model, rng)
    elif how == "order":
        for mod in model.modules():
            mod._modules = type(mod._modules)(reversed(list(mod._modules.items()))) if not isinstance(mod, nn.Sequential) else mod._modules
            mod._parameters = type(mod._parameters)(reversed(list(mod._parameters.items())))
    elif how == "unused":
        if rng.random() < 0.5:
            model.register_parameter("spare", nn.Parameter(torch.randn(3, dtype=P.dtype)))
        else:
            model.spare = nn.Linear(2, 3).to(P.dtype)
        for sd in P.states:
            for n, v in model.state_dict().items():
                if n.startswith("spare"):
                    sd[n] = v + 0.1
    elif how == "layout":
        for mod in model.modules():
            if isinstance(mod, nn.Linear):
                mod.weight = nn.Parameter(mod.weight.detach().t().contiguous().t())
    elif how == "views":
        ps = [(mod, n, p) for mod in model.modules() for n, p in mod._parameters.items() if p is not None]
        flat = torch.cat([p.detach().reshape(-1) for _, _, p in ps])
        off = 0
        for mod, n, p in ps:
            mod._parameters[n] = nn.Parameter(flat[off:off + p.numel()].view(p.shape), requires_grad=p.requires_grad)
            off += p.numel()
    elif how == "nan":
        with torch.no_grad():
            for p in model.parameters():
                p.fill_(float("nan"))
    if f is not ident:
        P.states = [{f(k): v for k, v in sd.items()} for sd in P.states]
        P.pnames = [f(n) for n in P.pnames]
    back = {f(n): n for n in base.pnames}
    P.pick_layers = lambda r: (lambda L: None if L is None else [f(n) for n in L])(base.pick_layers(r))
    un = lambda L: None if L is None else [back[n] for n in ([L] if isinstance(L, str) else L)]  # noqa: E731
    P.hessian = lambda k, layers=None, **kw: base.hessian(k, un(layers), **kw)
    P.grads = lambda k, which="train", target=False, layers=None: base.grads(k, which, target, un(layers))
    if hasattr(base, "linears"):
        lin = [f(n) for n in base.linears()]
        P.linears = lambda: lin
    if hasattr(base, "linear"):
        last = f(base.linear())
        P.linear = lambda: last
    return f


class Call:
    def __init__(self, f):
        self.f = f

    def __call__(self, params, data):
        return self.f(params, data)


class Call3:
    def __init__(self, f):
        self.f = f

    def __call__(self, model, batch, device):
        return self.f(model, batch, device)


def signature(f, how, three):
    if three:
        if how == "object":
            return Call3(f)
        if how == "partial":
            return functools.partial(lambda z, m, b, d: f(m, b, d), None)
        if how == "extra":
            return lambda m, b, d, unused=None: f(m, b, d)
        if how == "names":
            return lambda data, params, device_: f(data, params, device_)
        return f
    if how == "object":
        return Call(f)
    if how == "partial":
        return functools.partial(lambda z, p, d: f(p, d), None)
    if how == "extra":
        return lambda p, d, unused=None: f(p, d)
    if how == "names":
        return lambda data, params: f(data, params)
    return f


def mktask(P, c, rng):
    """P's task with the loss callable and the checkpoints in another form."""
    three = c["kind"] in A.BLOCK or (c["kind"] == "dvemb" and P.eloss)
    kw = {}
    if c["kind"] not in ("rps",):
        kw["loss_func"] = signature(P.loss_func(), c["sig"], three)
        if P.target_func() is not None:
            kw["target_func"] = signature(P.target_func(), c["sig"], three)
    how = c["ckpt"]
    if how in ("file", "path"):
        import pathlib
        cks = []
        for i, sd in enumerate(P.states):
            p = os.path.abspath(f"ck{rng.randrange(10**9)}_{i}.pt")
            torch.save(sd, p)
            cks.append(p if how == "file" else pathlib.Path(p))
        kw["checkpoints"] = cks
    elif how == "ordered":
        kw["checkpoints"] = [collections.OrderedDict(reversed(list(sd.items()))) for sd in P.states]
    elif how == "fresh":
        def load(model, ck):
            new = copy.deepcopy(model)
            new.load_state_dict(ck)
            return new.eval()
        kw["checkpoints_load_func"] = load
    if len(P.states) == 1 and rng.random() < 0.5:
        kw["aslist"] = False
        if "checkpoints" in kw:
            one = kw["checkpoints"][0]
            kw["checkpoints"] = [one]
    return P.task(**kw)


class Packed(A.Adapter):
    load = "none"

    def _ld(self, which, idx, bs, via="sampler"):
        P, fmt = self.P, self.fmt
        if self.load == "none":
            return super()._ld(which, idx, bs, via)
        x, y = (P.x, P.y) if which == "train" else (P.xt, P.yt)
        idx = torch.tensor(list(idx))
        x, y = x[idx], y[idx]
        if self.load == "tensors" and fmt != "dict":
            return DataLoader(TensorDataset(x, y), batch_size=bs)
        rows = [{"x": a, "y": b} if fmt == "dict" else (a, b) for a, b in zip(x, y)]
        if self.load == "uneven" and bs < len(rows):
            r = random.Random(len(rows) * 31 + bs)
            groups, i = [], 0
            while i < len(rows):
                n = r.randint(1, bs + 1)
                groups.append(list(range(i, min(i + n, len(rows)))))
                i += n
            return DataLoader(rows, batch_sampler=groups, collate_fn=COLLATE[fmt])
        return DataLoader(rows, batch_size=bs, collate_fn=COLLATE[fmt], num_workers=1 if self.load == "workers" else 0)


def observe(ad, c, n, m):
    rng = random.Random(c["pick"] + 5)
    tr = list(range(n))
    if c["kind"] not in A.UNCACHED or rng.random() < 0.7:
        ad.cache(tr, None if c["kind"] in A.FULL_BATCH else c["bs"])
    out = [ad.scores(tr, c["bs"], list(range(m)), c["tbs"])]
    if c["kind"] == "trak" or ad.cached is not None or c["kind"] in A.NO_CACHE:
        s = ad.selfs(tr, c["bs"])
        if s is not None:
            out.append(s)
    return out


def run(m, c):
    rng = random.Random(c["pick"])
    kind, cfg = c["kind"], dict(c["cfg"])
    if c["model"] in ("order", "unused", "nested", "renamed") or c["scenario"] == "tied":
        # random projections and starting points are drawn per coordinate: only maps that do not depend on the coordinates compare
        cfg["ptype"] = "identity"
    if (c["model"] == "unused" and kind in ("arnoldi", "ekfac")) or (c["model"] == "order" and kind == "arnoldi"):
        c = dict(c, model="nested")  # (the starting vector is drawn per coordinate)
    if c["model"] == "unused" and kind == "trak":
        c = dict(c, model="order")  # the gradients are scaled by the number of parameters
    if c["load"] == "workers" and kind in ("explicit", "cg", "lissa", "arnoldi", "ekfac", "datainf"):
        c = dict(c, load="tensors")  # dozens of passes, each starting its own workers
    if c["load"] == "uneven" and kind not in ("trak", "dvemb"):
        c = dict(c, load="listset")  # these refuse loaders without a batch size
    if c["ckpt"] == "fresh" and (kind in ("ekfac", "dvemb") or c["spec"]["kind"] == "buf" or c["model"] == "mode"):
        c = dict(c, ckpt="file")  # the caller's function runs the model it closes over: its hooks and buffers are those of that object
    P, Q = A.problem(kind, dict(c["spec"])), A.problem(kind, dict(c["spec"]))
    if c["scenario"] == "tied":
        s = c["spec"]
        torch.manual_seed(s["seed"] % 2**31)
        for X, t in ((P, False), (Q, True)):
            X.model = Shared(s["d"], s["h"], s["k"], t).to(P.dtype).eval()
        g = torch.Generator().manual_seed(s["seed"] % 2**31)
        P.states = [{n: v + 0.4 * torch.randn(v.shape, generator=g, dtype=P.dtype) for n, v in P.model.state_dict().items()} for _ in P.states]
        Q.states = [dict(sd, **{"mid2." + e: sd["mid." + e] for e in ("weight", "bias")}) for sd in P.states]
        P.pnames = Q.pnames = [n for n, _ in P.model.named_parameters()]

        def plain(ckpt, dtype=torch.float64):
            net = Shared(s["d"], s["h"], s["k"], False).to(dtype)
            net.load_state_dict(P.states[ckpt])
            return net.eval()
        P._plain = plain
    repackage(Q, P, c["model"], rng)
    try:
        a = A.Adapter(kind, P, cfg)
    except Exception:  # noqa: BLE001 - not about construction
        raise
    want = observe(a, c, P.spec["n"], P.spec["m"])
    if kind == "dvemb":
        Q.eloss = cfg["fact"] is not None
    b = Packed(kind, Q, cfg, task=mktask(Q, c, rng))
    b.load = c["load"]
    got = observe(b, c, P.spec["n"], P.spec["m"])
    m.saw(kind, c["scenario"], c["model"], c["ckpt"], c["sig"], c["load"], P.spec["kind"], P.spec["n"], P.spec["m"], len(P.states), c["bs"])
    m.ev("packaged")
    m.ev("model_" + c["model"])
    for i, (w, g_) in enumerate(zip(want, got)):
        m.close(f"{kind}:{'scores' if i == 0 else 'selfs'}", g_, w, tol=10 * A.tol(kind), msg=f"model={c['model']} ckpt={c['ckpt']} sig={c['sig']} load={c['load']}")
