"""Ground truth read back from retraining directories == evaluating exactly the recorded models."""
import os
import random
from pathlib import Path
import torch
import yaml
from torch.utils.data import DataLoader, TensorDataset
from vmon.retraining import Tiny, fit, ids_of, make_loader
from vmon.workloads import FixedSampler

LEVEL = "exploration"
RULE = ("directories written by the real retrain_loo / retrain_lds (any loader, index list in any order, repeats, shards run in any order, relative and "
        "absolute paths) and hand-written ones (directories created in any order, unrelated files and folders beside them, subset folders anywhere); "
        "the returned matrices compared with direct evaluation of the models trained for each recorded subset, in the order of the returned indices; "
        "test loaders of any batch size and sampler, target functions returning float32/float64; distinct by (writer, sizes)")
MIN_EVENTS = {"directories": 150, "models_loaded": 800, "compared": 300}


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("loo", 90), ("lds", 90), ("lds-hand", 50)) for _ in range(k if q else 12 * k)]


def test_loader(rng, g):
    t = rng.randint(1, 9)
    x = torch.randn(t + 4, 2, generator=g)
    pos = list(range(t + 4))
    smp = None
    if rng.random() < 0.5:
        pos = rng.sample(pos, t)
        smp = FixedSampler(pos)
    return DataLoader(TensorDataset(x, torch.arange(t + 4)), batch_size=rng.randint(1, t + 4), sampler=smp), x[pos]


def run(m, c):
    from dattri.metric import calculate_lds_ground_truth, calculate_loo_ground_truth
    from dattri.model_util.retrain import retrain_lds, retrain_loo
    rng = random.Random(c["pick"])
    g = torch.Generator().manual_seed(c["pick"])
    tl, X = test_loader(rng, g)
    out64 = rng.random() < 0.3
    loaded = []
    path = rng.choice(["out", "./a/b c", os.path.join(os.getcwd(), "abs")])
    if rng.random() < 0.3:
        path = Path(path)

    def values(net):
        vals = []
        with torch.no_grad():
            for b in tl:
                vals.append(net(b[0]).sin().squeeze(1))
        v = torch.cat(vals)
        return v.double() if out64 else v

    def want(net):
        with torch.no_grad():
            return net(X).sin().squeeze(1).double()

    m.ev("directories")
    dl, pool, kind, bs = make_loader(rng)
    n = len(pool)
    if c["scenario"] == "loo":
        idx = None if rng.random() < 0.3 else rng.sample(range(n), rng.randint(1, n))

        def train(loader, seed=None):
            return fit(ids_of(loader)[0], seed)
        seed = rng.choice([None, 3, 11])
        parts = [idx]
        if idx and len(idx) > 1 and rng.random() < 0.4:  # retrained in several runs
            k = rng.randint(1, len(idx) - 1)
            parts = [idx[k:], idx[:k]]
        for p in parts:
            retrain_loo(train, dl, path, indices=p, seed=seed)
        if rng.random() < 0.4:
            os.makedirs(Path(path) / "logs", exist_ok=True)
            (Path(path) / "index_notes.txt").write_text("x")
        removed = list(range(n)) if idx is None else idx

        def target(model, loader):
            loaded.append(1)
            m.check("loader", loader is tl, "")
            return values(model)
        got, ind = calculate_loo_ground_truth(target, path, tl)
        m.ev("models_loaded", len(loaded))
        m.saw("loo", kind, n, len(removed), len(X), len(parts))
        m.equal("indices", sorted(int(i) for i in ind), sorted(removed), msg=kind)
        m.check("shape", tuple(got.shape) == (len(removed), len(X)) and len(ind) == len(removed), str(tuple(got.shape)))
        for row, i in zip(got, ind):
            m.close("loo-value", row, want(fit([p for j, p in enumerate(pool) if j != int(i)], seed)), tol=1e-5, scale=1, msg=f"index {int(i)} {kind}")
        return

    def target(ckpt, loader):
        loaded.append(1)
        m.check("loader", loader is tl, "")
        net = Tiny()
        net.load_state_dict(torch.load(ckpt))
        return values(net)
    runs = rng.randint(1, 3)
    if c["scenario"] == "lds":
        ratio = rng.choice([0.3, 0.5, 0.7, 1.0])
        seed = rng.choice([None, 5, 1234567])
        made = {}
        salt = [0]

        def train(loader, seed=None):
            ids = ids_of(loader)[0]
            salt[0] += 1
            net = fit(ids, seed, 0.05 * salt[0])
            made.setdefault(frozenset(ids), []).append(net)
            return net
        s = rng.choice([1, 2, 3, 4, 6])
        shards = rng.choice([k for k in (1, 2, 3) if s % k == 0])
        kw = dict(subset_ratio=ratio, num_runs_per_subset=runs)
        if shards == 1:
            retrain_lds(train, dl, path, num_subsets=s, seed=seed, **kw)
        else:
            order = rng.sample(range(shards), shards)
            for k in order:
                retrain_lds(train, dl, path, num_subsets=s // shards, start_id=k * (s // shards), total_num_subsets=s, seed=seed or 7, **kw)
        nets = None
    else:
        s = rng.randint(1, 6)
        size = rng.randint(1, n)
        dirs = {i: str(Path(path) / rng.choice([f"{i}", f"sub_{i}", f"x/{s - i}"])) for i in range(s)}
        nets, subsets = {}, {}
        for i in rng.sample(range(s), s):
            os.makedirs(dirs[i])
            subsets[i] = rng.sample(range(1000), size)
            Path(dirs[i], "indices.txt").write_text("\n".join(map(str, subsets[i])) + rng.choice(["", "\n"]))
            for j in rng.sample(range(runs + 1), runs + 1):  # one stale repeat more than the metadata says
                nets[i, j] = fit(subsets[i], j, 0.1 * i)
                torch.save(nets[i, j].state_dict(), os.path.join(dirs[i], f"model_weights_{j}.pt"))
        items = rng.sample(list(dirs.items()), s)
        Path(path, "metadata.yml").write_text(yaml.safe_dump(dict(mode="lds", num_subsets=s, num_runs_per_subset=runs, subset_dir_map=dict(items)), sort_keys=False))
    got, ind = calculate_lds_ground_truth(target, path, tl)
    m.ev("models_loaded", len(loaded))
    m.saw(c["scenario"], kind, n, s, runs, len(X), out64)
    m.equal("models-used", len(loaded), s * runs)
    m.check("shape", tuple(got.shape) == (s, len(X)) and ind.shape[0] == s, f"{tuple(got.shape)} {tuple(ind.shape)}")
    for i in range(s):
        sub = ind[i].tolist()
        if nets is None:
            key = frozenset(pool[p] for p in sub)
            ns = made.get(key, [])
            m.check("recorded-subset-was-trained", len(ns) >= runs, f"subset {i}: {sorted(key)} {kind}")
            if len(ns) > runs:  # the same subset was drawn twice: any grouping of its runs
                continue
        else:
            m.equal("recorded-subset", sub, subsets[i])
            ns = [nets[i, j] for j in range(runs)]
        if ns:
            m.close("lds-value", got[i], -torch.stack([want(x) for x in ns]).mean(0), tol=1e-5, scale=1, msg=f"subset {i} of {s}, {runs} runs, {kind}")
