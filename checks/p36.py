"""Benchmark training loops observed step by step; benchmark losses against per-sample evaluation of the saved weights."""
import contextlib
import io
import random
import numpy as np
import torch
import torch.nn.functional as F
from torch.optim.optimizer import register_optimizer_step_pre_hook
from torch.utils.data import DataLoader, Dataset, RandomSampler
from vmon.workloads import FixedSampler

LEVEL = "exploration"
RULE = ("real benchmark train_* functions (MNIST logistic regression and MLP, CIFAR ResNet-9, ImageNet ResNet-18, MAESTRO MusicTransformer, WikiText GPT-2) on "
        "small random datasets: at every optimizer step the gradients in use are compared with the gradient of the mean loss of exactly the batch last "
        "drawn, at the current weights and with the same dropout draws; batches of each epoch counted; runs repeated with equal / different seeds under "
        "different global random states; real loss_* functions on saved weights compared with each sample evaluated alone by plain tensor code, for "
        "any batching, order and sampler; distinct by (function, n, batch size, epochs)")
MIN_EVENTS = {"trainings": 60, "steps": 150, "losses": 60, "samples": 300}
CASE_LIMIT = 300


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for s, k in (("lr", 16), ("mlp", 16), ("resnet9", 5), ("resnet18", 4), ("maestro", 12), ("wikitext", 10)):
        out += [dict(scenario="train-" + s, pick=rng.randrange(10**9)) for _ in range(k if q else 8 * k)]
    for s, k in (("lr", 20), ("mlp", 20), ("resnet9", 8), ("resnet18", 5), ("maestro", 16), ("wikitext", 16)):
        out += [dict(scenario="loss-" + s, pick=rng.randrange(10**9)) for _ in range(k if q else 8 * k)]
    return out


class Items(Dataset):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[int(i)]


class Tape(DataLoader):
    """A loader that remembers the batch drawn last and the random state at that moment."""

    def __init__(self, *a, tape, **k):
        super().__init__(*a, **k)
        object.__setattr__(self, "tape", tape)

    def __iter__(self):
        for b in super().__iter__():
            self.tape["batch"] = b
            self.tape["rng"] = torch.get_rng_state()
            yield b


def bn(x, sd, p):
    v = [sd[p + s][None, :, None, None] for s in (".running_mean", ".running_var", ".weight", ".bias")]
    return (x - v[0]) / torch.sqrt(v[1] + 1e-5) * v[2] + v[3]


def resnet9_ref(sd, x):
    x = torch.relu(bn(F.conv2d(x, sd["conv1.weight"], padding=1), sd, "bn1"))
    for i, stride in ((1, 1), (2, 2), (3, 2)):
        p = f"layer{i}.0."
        y = torch.relu(bn(F.conv2d(x, sd[p + "conv1.weight"], padding=1, stride=stride), sd, p + "bn1"))
        y = torch.relu(bn(F.conv2d(y, sd[p + "conv2.weight"], padding=1), sd, p + "bn2"))
        x = torch.relu(y + bn(F.conv2d(x, sd[p + "shortcut.0.weight"], stride=stride), sd, p + "shortcut.1"))
    return x.mean((2, 3)) @ sd["linear.weight"].T + sd["linear.bias"]


def mlp_ref(sd, x):
    x = x.flatten(1)
    for i in (1, 2):
        x = torch.relu(x @ sd[f"fc{i}.weight"].T + sd[f"fc{i}.bias"])
    return x @ sd["fc3.weight"].T + sd["fc3.bias"]


def lr_ref(sd, x):
    return x.flatten(1) @ sd["linear.weight"].T + sd["linear.bias"]


class Task:
    """One benchmark setting: items, model factory, mean loss of a batch, per-sample loss of an item."""

    def __init__(self, name, rng):
        self.name, self.kw_epochs, self.kw, self.undo = name, "epoch_num", {}, []
        g = torch.Generator().manual_seed(rng.randrange(10**6))
        self.g, self.rng = g, rng

        def images(n, shape, classes):
            return [(torch.randn(shape, generator=g), rng.randrange(classes)) for _ in range(n)]
        if name in ("lr", "mlp"):
            mod = __import__(f"dattri.benchmark.datasets.mnist.mnist_{name}", fromlist=["x"])
            self.train, self.loss = getattr(mod, f"train_mnist_{name}"), getattr(mod, f"loss_mnist_{name}")
            fac = __import__("dattri.benchmark.models." + ("logistic_regression" if name == "lr" else "mlp"), fromlist=["x"])
            make = getattr(fac, f"create_{name}_model")
            self.model = lambda: make("mnist")
            self.items = lambda n: images(n, (1, 28, 28), 10)
            self.ref = lr_ref if name == "lr" else mlp_ref
        elif name == "resnet9":
            import dattri.benchmark.datasets.cifar.cifar_resnet9 as mod
            c = rng.choice([2, 2, 10])
            self.train, self.loss, self.kw_epochs = mod.train_cifar_resnet9, mod.loss_cifar_resnet9, "num_epochs"
            self.kw = {} if c == 2 else dict(num_classes=c)
            self.model = lambda: mod.create_resnet9_model(num_classes=c)
            self.items = lambda n: images(n, (3, 8, 8), c)
            self.ref = resnet9_ref
        elif name == "resnet18":
            import dattri.benchmark.datasets.imagenet.imagenet_resnet18 as mod
            from torchvision.models import resnet18
            self.train, self.loss, self.kw_epochs = mod.train_imagenet_resnet18, mod.loss_imagenet_resnet18, "num_epochs"
            self.model = resnet18
            self.items = lambda n: images(n, (3, 32, 32), 1000)
            self.ref = None
        elif name == "maestro":
            import dattri.benchmark.datasets.maestro.maestro_musictransformer as mod
            h = rng.choice([1, 2])
            T = rng.randint(3, 9)
            for k, v in dict(N_LAYERS=rng.randint(1, 2), NUM_HEADS=h, D_MODEL=4 * h, DIM_FEEDFORWARD=6, MAX_SEQUENCE=T, DROPOUT=0.2, PRINT_MODULUS=10**9).items():
                self.undo.append((mod, k, getattr(mod, k)))
                setattr(mod, k, v)
            self.train, self.loss, self.kw_epochs = mod.train_maestro_musictransformer, mod.loss_maestro_musictransformer, "num_epoch"
            self.mod = mod
            self.model = mod.create_musictransformer_model
            from dattri.benchmark.models.MusicTransformer.utilities.constants import TOKEN_PAD, VOCAB_SIZE
            self.pad = TOKEN_PAD

            def seqs(n):
                out = []
                for i in range(n):
                    s = torch.randint(0, VOCAB_SIZE - 2, (T + 1,), generator=g)
                    x, t = s[:-1].clone(), s[1:].clone()
                    if i and rng.random() < 0.3:
                        k = rng.randint(1, T - 1)
                        x[k:], t[k:] = TOKEN_PAD, TOKEN_PAD
                    out.append((x, t))
                return out
            self.items = seqs
        elif name == "wikitext":
            import transformers
            import dattri.benchmark.datasets.wikitext2.wikitext2_gpt2 as mod
            T, V = rng.randint(3, 8), 23
            cfg = dict(vocab_size=V, n_positions=16, n_embd=8, n_layer=1, n_head=2, bos_token_id=0, eos_token_id=1)
            state = torch.random.get_rng_state()
            torch.manual_seed(5)
            base = transformers.GPT2LMHeadModel(transformers.GPT2Config(**cfg)).state_dict()
            torch.random.set_rng_state(state)

            def tiny():
                with torch.random.fork_rng():
                    net = transformers.GPT2LMHeadModel(transformers.GPT2Config(**cfg))
                net.load_state_dict(base)
                return net
            self.undo.append((mod, "create_gpt2_model", mod.create_gpt2_model))
            mod.create_gpt2_model = tiny
            self.train, self.loss, self.model = mod.train_wikitext2_gpt2, mod.loss_wikitext2_gpt2, tiny

            def blocks(n):
                out = []
                for _ in range(n):
                    s = torch.randint(0, V, (T,), generator=g)
                    lab = s.clone()
                    if rng.random() < 0.3:
                        lab[:rng.randint(1, T - 1)] = -100
                    out.append(dict(input_ids=s, attention_mask=torch.ones_like(s), labels=lab))
                return out
            self.items = blocks

    def close(self):
        for mod, k, v in self.undo:
            setattr(mod, k, v)

    def mean_loss(self, net, b):
        if self.name == "wikitext":
            lo = net(input_ids=b["input_ids"], attention_mask=b["attention_mask"]).logits[:, :-1]
            return F.cross_entropy(lo.reshape(-1, lo.shape[-1]), b["labels"][:, 1:].reshape(-1), ignore_index=-100)
        if self.name == "maestro":
            return F.cross_entropy(net(b[0])[:, -1], b[1][:, -1], ignore_index=self.pad)
        return F.cross_entropy(net(b[0]), b[1])

    def sample_loss(self, net, item):
        """Loss of one item, evaluated alone."""
        with torch.no_grad():
            if self.name == "wikitext":
                lp = net(input_ids=item["input_ids"][None]).logits[0].double().log_softmax(-1)
                lab = item["labels"].tolist()
                v = [-lp[t - 1, y] for t, y in enumerate(lab) if t and y != -100]
                return torch.stack(v).mean()
            if self.name == "maestro":
                if int(item[1][-1]) == self.pad:
                    return torch.zeros((), dtype=torch.float64)
                return -net(item[0][None])[0, -1].double().log_softmax(-1)[item[1][-1]]
            sd = {k: v.double() if v.is_floating_point() else v for k, v in net.state_dict().items()}
            lo = self.ref(sd, item[0][None].double()) if self.ref else net(item[0][None]).double()
            return -lo.log_softmax(-1)[0, item[1]]


def make(task, rng, n, tape=None, shuffle=None):
    bs = rng.randint(1, n + 1)
    if task.name in ("resnet9", "resnet18"):
        bs = max(bs, 2)
        while n > 1 and n % bs == 1:
            bs += 1
    items = task.items(n)
    pos = list(range(n))
    kind = rng.choice(["plain", "fixed", "random"]) if shuffle is None else shuffle
    kw = {}
    if kind == "fixed":
        pos = rng.sample(pos, n)
        kw["sampler"] = FixedSampler(pos)
    elif kind == "random":
        kw["shuffle"] = True
    ds = Items(items)
    return (Tape(ds, batch_size=bs, tape=tape, **kw) if tape is not None else DataLoader(ds, batch_size=bs, **kw)), items, pos, bs, kind


def key(item):
    t = item["input_ids"] if isinstance(item, dict) else item[0]
    return tuple(t.flatten().tolist()[:40])


def rows(b):
    t = b["input_ids"] if isinstance(b, dict) else b[0]
    return [tuple(r.flatten().tolist()[:40]) for r in t]


def train(m, task, rng):
    n = rng.randint(2, 9)
    epochs = rng.randint(1, 3) if task.name != "resnet18" else rng.randint(1, 2)
    tape, log = {}, []
    dl, items, pos, bs, kind = make(task, rng, n, tape)
    if task.name == "maestro" and rng.random() < 0.4:
        task.undo.append((task.mod, "LR", task.mod.LR))
        task.mod.LR = None
    what = f"{task.name} n={n} bs={bs} epochs={epochs} {kind}"
    m.saw("train", task.name, n, bs, epochs, kind)
    seed = rng.randrange(1000)
    live = {}

    def step_hook(opt, args, kwargs):
        ps = [p for gr in opt.param_groups for p in gr["params"]]
        live["ps"] = ps
        state = torch.get_rng_state()
        with torch.random.fork_rng():
            net = task.model()
        own = list(net.parameters())
        if not m.equal("optimizes-all-parameters", [tuple(p.shape) for p in ps], [tuple(p.shape) for p in own], msg=what):
            return
        net.train()
        with torch.no_grad():
            for a, b in zip(own, ps):
                a.copy_(b)
        torch.set_rng_state(tape["rng"])
        want = torch.autograd.grad(task.mean_loss(net, tape["batch"]), own)
        torch.set_rng_state(state)
        scale = max(float(torch.cat([w.flatten() for w in want]).abs().max()), 1e-6)
        worst = max(float((p.grad - w).abs().max()) if p.grad is not None else 1e9 for p, w in zip(ps, want))
        m.check("step-gradient", worst < 2e-3 * scale, f"{what}: step {len(log)} uses a gradient {worst} away (scale {scale})")
        m.ev("steps")
        log.append((rows(tape["batch"]), opt.param_groups[0]["lr"], scale, [p.detach().clone() for p in ps] if task.name != "resnet18" else None))
    runs = []
    seeds = [seed, seed, seed + 1] if task.name != "resnet18" else [seed, seed]
    for i, sd in enumerate(seeds):
        log.clear()
        torch.manual_seed(rng.randrange(10**6))  # whatever state the caller is in
        random.seed(rng.randrange(10**6))
        np.random.seed(rng.randrange(10**6))
        [torch.randn(3) for _ in range(rng.randint(0, 3))]
        h = register_optimizer_step_pre_hook(step_hook)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                net = task.train(dl, seed=sd, device="cpu", **{task.kw_epochs: epochs}, **task.kw) if sd or rng.random() < 0.5 else \
                    task.train(dl, **{task.kw_epochs: epochs}, **task.kw)
        finally:
            h.remove()
        m.ev("trainings")
        per = -(-n // bs)
        m.equal("step-count", len(log), epochs * per, msg=what)
        for e in range(epochs):
            seen = sorted(r for x in log[e * per:(e + 1) * per] for r in x[0])
            m.equal("epoch-covers-samples", seen, sorted(key(it) for it in items), msg=f"{what} epoch {e}")
        m.check("returns-trained-weights", all(torch.equal(a, b) for a, b in zip(net.parameters(), live["ps"])), what)
        rates = [x[1] for x in log]
        if task.name == "maestro" and task.mod.LR is None:
            d = task.mod.D_MODEL
            want = [d ** -0.5 * k * 4000 ** -1.5 for k in range(len(rates))]
            m.check("schedule", max(abs(a - b) for a, b in zip(rates, want)) < 1e-12, f"{rates[:4]} want {want[:4]}")
        else:
            m.check("rate-constant", len(set(rates)) == 1 and rates[0] > 0, f"{rates[:4]}")
        if log[0][3] is not None and len(log) > 1 and rates[0] > 0 and log[0][2] > 1e-4:
            m.check("weights-move", any(not torch.equal(a, b) for a, b in zip(log[0][3], log[1][3])), what)
        m.check("finite", all(bool(torch.isfinite(p).all()) for p in net.parameters()), what)
        runs.append([p.detach().clone() for p in net.parameters()] + [b.clone() for b in net.buffers()])
    drift = max(float((a.double() - b.double()).abs().max()) for a, b in zip(runs[0], runs[1]))
    m.check("seed-reproduces", drift < 1e-5, f"{what}: equal seeds differ by {drift}")
    if len(runs) > 2:
        m.check("seed-matters", any(not torch.equal(a, b) for a, b in zip(runs[0], runs[2])), f"{what}: seeds {seed} and {seed + 1} give equal weights")


def losses(m, task, rng):
    n = rng.randint(1, 12) if task.name != "resnet18" else rng.randint(1, 5)
    dl, items, pos, bs, kind = make(task, rng, n, shuffle=rng.choice(["plain", "fixed"]))
    with torch.random.fork_rng():
        torch.manual_seed(rng.randrange(10**6))
        net = task.model()
        g = task.g
        with torch.no_grad():
            for p in net.parameters():
                p.add_(torch.randn(p.shape, generator=g) * 0.05)
            for k, b in net.named_buffers():
                if k.endswith("running_mean"):
                    b.add_(torch.randn(b.shape, generator=g) * 0.2)
                elif k.endswith("running_var"):
                    b.mul_(torch.rand(b.shape, generator=g) + 0.5)
    torch.save(net.state_dict(), "w.pt")
    net.eval()
    m.saw("loss", task.name, n, bs, kind)
    torch.manual_seed(rng.randrange(10**6))
    grad0 = torch.is_grad_enabled()
    got = task.loss("w.pt", dl, **(dict(device="cpu") if rng.random() < 0.5 else {}), **task.kw)
    m.check("grad-mode", torch.is_grad_enabled() == grad0, "")
    want = torch.stack([task.sample_loss(net, items[p]) for p in pos])
    m.ev("losses")
    m.ev("samples", n)
    what = f"{task.name} n={n} bs={bs} {kind}"
    if task.name == "resnet18":
        sums = [want[i:i + bs].sum() * len(want[i:i + bs]) for i in range(0, n, bs)]
        if bs > 1 and n > 1 and abs(float(got) - float(sum(sums)) / n) < 1e-5 * float(sum(sums)):
            m.tag = "batch sums weighted by batch size"
        m.close("mean-loss", torch.tensor(float(got), dtype=torch.float64), want.mean(), tol=1e-5, scale=max(1.0, float(want.mean())), msg=what)
        return
    if task.name == "maestro":
        want = -want  # documented by its use as a score: the log likelihood of the final token
    if task.name == "wikitext" and bs > 1 and n > 1:
        with torch.no_grad():
            per = torch.stack([task.mean_loss(net, b) for b in dl])
        if tuple(got.shape) == tuple(per.shape) and torch.allclose(got, per, rtol=1e-4, atol=1e-5):
            m.tag = "batch means"
    m.check("one-loss-per-sample", tuple(got.shape) == (n,), f"{what}: {tuple(got.shape)}")
    m.close("sample-loss", got, want, tol=1e-4, scale=max(1.0, float(want.abs().max())), msg=what)
    m.check("detached", not got.requires_grad, "")


def run(m, c):
    torch.set_num_threads(1)
    kind, name = c["scenario"].split("-")
    rng = random.Random(c["pick"])
    task = Task(name, rng)
    try:
        (train if kind == "train" else losses)(m, task, rng)
    finally:
        task.close()
