"""activate_dropout and get_final_layer_io on random module trees."""
import random
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
from vmon.workloads import FixedSampler

LEVEL = "exploration"
RULE = ("real activate_dropout on random nested module trees (every Dropout class, batch norm, dropout inside transformer layers, any initial mode, repeated "
        "calls, name lists by full path, by suffix and by shared prefix, wrong names): every module's mode and probability and all parameters and buffers "
        "compared before and after; get_final_layer_io over models, layers anywhere in the tree, loaders and modes compared with an own hook, "
        "hook tables of the whole tree compared before and after, also when the forward pass raises; distinct by (tree, names, probability)")
MIN_EVENTS = {"activations": 400, "modules": 4000, "activated": 500, "rejected": 60, "captures": 300, "failed_captures": 60}

DROPS = [nn.Dropout, nn.Dropout, nn.Dropout1d, nn.Dropout2d, nn.Dropout3d]


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("dropout", 450), ("effect", 80), ("io", 350)) for _ in range(k if q else 12 * k)]


def tree(rng, depth=0):
    r = rng.random()
    if depth >= 3 or r < 0.35:
        r = rng.random()
        if r < 0.45:
            return rng.choice(DROPS)(rng.choice([0.0, 0.2, 0.5, 1.0]))
        return rng.choice([lambda: nn.Linear(3, 3), lambda: nn.BatchNorm1d(3), nn.ReLU, lambda: nn.LayerNorm(3), lambda: nn.AlphaDropout(0.3),
                           nn.Identity])()
    if r < 0.45:
        return nn.TransformerEncoderLayer(4, 2, 5, dropout=0.25)
    kids = [tree(rng, depth + 1) for _ in range(rng.randint(1, 4))]
    if r < 0.75:
        return nn.Sequential(*kids)
    names = rng.sample(["drop", "dropout", "drop1", "drop10", "fc", "block", "drop_layer", "head", "layer1", "layer10"], len(kids))
    return nn.ModuleDict(dict(zip(names, kids)))


def is_drop(mod):
    return type(mod) in (nn.Dropout, nn.Dropout1d, nn.Dropout2d, nn.Dropout3d)


def snap(model):
    return {k: v.clone() for k, v in model.state_dict().items()}, {n: p.requires_grad for n, p in model.named_parameters()}


def dropout(m, rng):
    from dattri.model_util.dropout import activate_dropout
    root = nn.ModuleDict({n: tree(rng) for n in rng.sample(["enc", "body", "dropper", "a", "top"], rng.randint(1, 4))})
    for mod in root.modules():  # any initial mode
        mod.training = rng.random() < 0.5
    for rounds in range(rng.choice([1, 1, 2])):
        mods = dict(root.named_modules())
        drops = [n for n, mod in mods.items() if is_drop(mod)]
        before = snap(root)
        ps = {n: getattr(mod, "p", None) for n, mod in mods.items()}
        prob = rng.choice([0.0, 0.1, 0.33, 0.7, 1.0])
        mode = rng.choice(["all", "empty", "some", "suffix", "wrong", "unknown"])
        m.saw(mode, len(mods), len(drops), prob)
        if mode in ("some", "suffix", "wrong") and not drops:
            mode = "all"
        names = {"all": None, "empty": [], "unknown": ["no_such_layer"]}.get(mode)
        if mode in ("some", "suffix"):
            names = rng.sample(drops, rng.randint(1, len(drops)))
            if mode == "suffix":
                names = [".".join(n.split(".")[-rng.randint(1, 2):]) for n in names]
        elif mode == "wrong":
            names = [rng.choice([n for n in mods if n and not is_drop(mods[n])] or [""])]
            if not names[0]:
                names = None
        hit = [n for n in mods if names is None or len(names) == 0 or any(s in n for s in names)]
        bad = bool(names) and any(not is_drop(mods[n]) for n in hit)
        kw = {}
        if names is not None or rng.random() < 0.3:
            kw["layer_positions"] = None if names is None else list(names)
        if prob != 0.1 or rng.random() < 0.5:
            kw["dropout_prob"] = prob
        m.ev("activations")
        m.ev("modules", len(mods))
        try:
            out = activate_dropout(root, **kw)
            m.check("wrong-names-accepted", not bad, f"{names}: {[n for n in hit if not is_drop(mods[n])][:4]}")
        except ValueError:
            m.ev("rejected")
            m.check("valid-names-rejected", bad, f"{names} of {drops}")
            out = None
        if out is not None:
            m.check("returns-model", out is root, "")
        on = {n for n in hit if is_drop(mods[n])}
        m.ev("activated", len(on))
        for n, mod in mods.items():
            if n in on:
                m.check("dropout-active", mod.training and mod.p == prob, f"{n} {type(mod).__name__} training={mod.training} p={mod.p} want {prob} ({mode} {names})")
            elif out is not None:
                m.check("others-evaluate", not mod.training, f"{n} {type(mod).__name__} is training ({mode} {names})")
            if n not in on:
                m.check("others-keep-probability", getattr(mod, "p", None) == ps[n], f"{n}")
        after = snap(root)
        m.check("tree-unchanged", list(dict(root.named_modules())) == list(mods), "")
        m.check("weights-unchanged", list(before[0]) == list(after[0]) and before[1] == after[1]
                and all(torch.equal(v, after[0][k]) for k, v in before[0].items()), "")


class Chain(nn.Module):
    """Linear layers at various depths; the forward pass uses them in the order given."""

    def __init__(self, rng, g):
        super().__init__()
        d = [rng.randint(1, 5) for _ in range(rng.randint(2, 5))]
        self.d = d
        self.body = nn.ModuleList([nn.Sequential(nn.Linear(a, b), *([nn.Dropout(0.5)] if rng.random() < 0.4 else []),
                                                 *([nn.BatchNorm1d(b)] if rng.random() < 0.3 else []), nn.Tanh())
                                   for a, b in zip(d[:-1], d[1:])])
        self.head = nn.Linear(d[-1], rng.randint(1, 4), bias=rng.random() < 0.7)
        self.fail_at = None
        self.calls = 0
        for p in self.parameters():
            p.data = torch.randn(p.shape, generator=g)
        names = ["head"] + [f"body.{i}.0" for i in range(len(self.body))]
        self.target = "head" if rng.random() < 0.5 else rng.choice(names)
        self.post = rng.random() < 0.4

    def forward(self, x):
        self.calls += 1
        if self.fail_at == self.calls:
            self.head(torch.zeros(x.shape[0], self.d[-1]))
            raise RuntimeError("batch rejected")
        for b in self.body:
            x = b(x)
        y = self.head(x)
        return y.log_softmax(-1) if self.post else y


def hooks(model):
    return {n: (len(mod._forward_hooks), len(mod._forward_pre_hooks), len(mod._backward_hooks)) for n, mod in model.named_modules()}


def io(m, rng):
    from dattri.model_util.hook import get_final_layer_io
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net = Chain(rng, g)
    train = rng.random() < 0.2
    net.train(train)
    n = rng.randint(1, 17)
    x = torch.randn(n, net.d[0], generator=g)
    pos = list(range(n))
    smp = None
    if rng.random() < 0.4:
        pos = rng.sample(pos, rng.randint(1, n))
        smp = FixedSampler(pos)
    bs = rng.randint(1, n + 2)
    if train:
        bs = max(bs, 2)
        if len(pos) % bs == 1:
            net.eval()
            train = False
    dl = DataLoader(TensorDataset(x, torch.arange(n)), batch_size=bs, sampler=smp)
    mine = []
    other = []
    keep = net.get_submodule(net.target).register_forward_hook(lambda mod, i, o: other.append(1))
    mode = rng.choice(["ok", "ok", "ok", "fail"])
    h0, s0 = hooks(net), snap(net)
    m.saw("io", net.target, len(net.d), n, bs, mode, train)
    grad0 = torch.is_grad_enabled()
    if mode == "fail":
        net.fail_at = rng.randint(1, len(dl))
        try:
            get_final_layer_io(net, net.target, dl)
            m.fail("failure-swallowed", "the forward pass raised but the call returned")
        except RuntimeError as e:
            m.check("failure-kept", "batch rejected" in str(e), str(e))
        m.ev("failed_captures")
        m.equal("hooks-after-failure", hooks(net), h0)
        m.equal("grad-mode", torch.is_grad_enabled(), grad0)
        net.fail_at = None
        h = None
    torch.manual_seed(5)
    a, b = get_final_layer_io(net, net.target, dl, **(dict(device="cpu") if rng.random() < 0.5 else {}))
    m.ev("captures")
    m.equal("hooks-removed", hooks(net), h0)
    m.check("other-hooks-kept", len(other) >= len(dl), "")
    if not train:
        s1 = snap(net)
        m.check("model-unchanged", all(torch.equal(v, s1[0][k]) for k, v in s0[0].items()) and s0[1] == s1[1], "")
    m.check("modes-kept", all(mod.training == train for mod in net.modules()), "")
    m.equal("grad-mode", torch.is_grad_enabled(), grad0)
    m.check("detached", not a.requires_grad and not b.requires_grad, "")
    if train:
        # batch statistics and dropout masks are those of the captured pass
        lin = net.get_submodule(net.target)
        m.close("output-of-input", b, lin(a), tol=1e-5, scale=1, msg="train mode")
        m.equal("rows", a.shape[0], len(pos))
        return
    h = net.get_submodule(net.target).register_forward_hook(lambda mod, i, o: mine.append((i[0].detach().clone(), o.detach().clone())))
    net(x[pos])
    h.remove()
    keep.remove()
    m.close("layer-input", a, mine[0][0], tol=1e-5, scale=1, msg=f"{net.target} n {n} bs {bs} {mode}")
    m.close("layer-output", b, mine[0][1], tol=1e-5, scale=1, msg=f"{net.target} n {n} bs {bs} {mode}")


def effect(m, rng):
    """Activated dropout drops the requested fraction and rescales."""
    from dattri.model_util.dropout import activate_dropout
    p = rng.choice([0.0, 0.1, 0.4, 0.8])
    width = 4000
    net = nn.ModuleDict(dict(a=nn.Dropout(0.5), b=nn.Sequential(nn.Identity(), nn.Dropout(0.9))))
    pick = rng.choice([None, ["a"], ["b.1"]])
    activate_dropout(net, pick, dropout_prob=p) if p != 0.1 else activate_dropout(net, pick)
    m.ev("activations")
    m.saw("effect", p, str(pick))
    torch.manual_seed(rng.randrange(10**6))
    y = net["b"](net["a"](torch.ones(width)))
    on = 2 if pick is None else 1
    keep = (1 - p) ** on
    z = (y == 0).double().mean().item()
    m.check("dropped-fraction", abs(z - (1 - keep)) < 0.06, f"{z} want {1 - keep} ({pick})")
    m.close("rescaled", y[y != 0].mean(), torch.tensor(1 / keep, dtype=torch.float64), tol=1e-5, scale=1 / keep)
    m.ev("modules", 4)
    m.ev("activated", on)


def run(m, c):
    {"dropout": dropout, "io": io, "effect": effect}[c["scenario"]](m, random.Random(c["pick"]))
