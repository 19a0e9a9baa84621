"""Recording train functions and datasets for retraining checks."""
import torch
from torch import nn
from torch.utils.data import DataLoader, Dataset, RandomSampler, SubsetRandomSampler
from vmon.workloads import FixedSampler


class Ids(Dataset):
    """Item i carries its own index."""

    def __init__(self, n, fmt="tuple"):
        self.n, self.fmt = n, fmt

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        i = int(i)
        if self.fmt == "dict":
            return {"ids": torch.tensor(float(i)), "y": i % 2}
        if self.fmt == "text":  # needs the loader's own collate function
            return [i] * (1 + i % 3)
        return torch.tensor([float(i)]), i % 2


def collate_text(items):
    return torch.tensor([float(it[0]) for it in items]), torch.tensor([len(it) for it in items])


def ids_of(loader):
    """The dataset indices one pass over the loader yields, and its batch sizes."""
    seen, sizes = [], []
    for b in loader:
        t = b["ids"] if isinstance(b, dict) else b[0]
        v = [int(x) for x in t.reshape(-1).tolist()]
        seen += v
        sizes.append(len(v))
    return seen, sizes


def make_loader(rng, nmin=4, nmax=24, kinds=("plain", "shuffle", "range", "indices", "random")):
    """(loader, pool, kind): pool[p] is the dataset index of the loader's p-th sample."""
    n = rng.randint(nmin, nmax)
    kind = rng.choice(kinds)
    fmt = rng.choice(["tuple", "tuple", "dict", "text"])
    bs = rng.randint(1, 6)
    extra = rng.randint(0, 9) if kind in ("range", "indices", "random") else 0
    ds = Ids(n + extra, fmt)
    kw = dict(collate_fn=collate_text) if fmt == "text" else {}
    pool = list(range(n))
    if kind == "plain":
        dl = DataLoader(ds, batch_size=bs, **kw)
    elif kind == "shuffle":
        dl = DataLoader(ds, batch_size=bs, shuffle=True, **kw)
    else:
        from dattri.benchmark.utils import SubsetSampler
        if kind == "range":
            smp = SubsetSampler(range(n))
        else:
            pool = rng.sample(range(n + extra), n)
            smp = SubsetSampler(pool) if kind == "indices" else SubsetRandomSampler(pool)
        dl = DataLoader(ds, batch_size=bs, sampler=smp, **kw)
    return dl, pool, kind + "/" + fmt, bs


class Tiny(nn.Module):
    """A model whose parameters spell out what it was trained on."""

    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(2, 1)

    def forward(self, x):
        return self.lin(x)


def fit(seen, seed, salt=0.0):
    net = Tiny()
    s = sum((i + 1) * 0.37 ** (1 + i % 5) for i in sorted(seen))
    with torch.no_grad():
        net.lin.weight.copy_(torch.tensor([[0.01 * s + salt, 0.1 * ((seed or 0) % 97)]]))
        net.lin.bias.fill_(0.001 * len(seen))
    return net
