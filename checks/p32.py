"""What retraining trains on and writes, from recording training functions; shards and scripts against unsharded runs."""
import os
import random
import runpy
import sys
from pathlib import Path
import torch
import yaml
from vmon.retraining import Tiny, fit, ids_of, make_loader

LEVEL = "exploration"
RULE = ("real retrain_loo / retrain_lds with recording training functions over loaders of any sampler (none, shuffled, fixed, random subset), collate "
        "function, batch size and sample format; every ratio, subset / repeat count, shard split and seed; the samples each call really received, seeds "
        "and keyword arguments, checkpoints, index files and metadata compared with one another; the command-line drivers run in-process with stand-in "
        "datasets / training functions / subprocess launcher; distinct by (entry point, loader kind, sizes)")
MIN_EVENTS = {"trainings": 1500, "subsets": 400, "shards": 60, "loo_runs": 60, "cli": 30, "launched": 40, "stopped": 40}


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("loo", 100), ("lds", 100), ("shards", 60), ("stopped", 40), ("cli", 50), ("nanogpt", 30))
            for _ in range(k if q else 10 * k)]


def recorder(m, log):
    def train_func(loader, seed=None, **kw):
        a, sizes = ids_of(loader)
        b, _ = ids_of(loader)
        m.check("stable-content", sorted(a) == sorted(b), "two passes over the training loader differ")
        m.check("no-duplicates", len(set(a)) == len(a), f"{a}")
        log.append(dict(ids=a, sizes=sizes, seed=seed, kw=kw, rng=torch.initial_seed()))
        m.ev("trainings")
        net = fit(a, seed)
        log[-1]["net"] = net
        return net
    return train_func


def same(a, b):
    sa, sb = a.state_dict(), b.state_dict()
    return list(sa) == list(sb) and all(torch.equal(sa[k], sb[k]) for k in sa)


def read_lds(m, path, total):
    meta = yaml.safe_load(Path(path, "metadata.yml").read_text())
    m.equal("meta-num-subsets", meta["num_subsets"], total)
    m.equal("meta-dirs", sorted(meta["subset_dir_map"]), list(range(total)))
    out = []
    for i in range(total):
        d = Path(meta["subset_dir_map"][i])
        idx = [int(x) for x in (d / "indices.txt").read_text().split()]
        nets = []
        for j in range(meta["num_runs_per_subset"]):
            net = Tiny()
            net.load_state_dict(torch.load(d / f"model_weights_{j}.pt"))
            nets.append(net)
        m.equal("files", sorted(os.listdir(d)), sorted(["indices.txt"] + [f"model_weights_{j}.pt" for j in range(len(nets))]))
        m.ev("subsets")
        out.append((idx, nets))
    return meta, out


def check_lds(m, log, path, total, runs, ratio, pool, kind, bs, kw):
    n = len(pool)
    meta, subs = read_lds(m, path, total)
    m.equal("meta", {k: meta[k] for k in ("mode", "data_length", "subset_ratio", "num_runs_per_subset")},
            dict(mode="lds", data_length=n, subset_ratio=ratio, num_runs_per_subset=runs))
    m.equal("call-count", len(log), total * runs, msg=kind)
    free = list(log)
    for i, (idx, nets) in enumerate(subs):
        size = len(idx)
        m.check("size", abs(size - n * ratio) < 1 and size <= n * ratio + 1e-9, f"{size} of {n} at ratio {ratio}")
        m.check("distinct-indices", len(set(idx)) == size and all(0 <= p < n for p in idx), f"{idx}")
        want = sorted(pool[p] for p in idx)
        for net in nets:
            hit = next((r for r in free if sorted(r["ids"]) == want and same(r["net"], net)), None)
            if not m.check("trained-on-recorded-subset", hit is not None, f"subset {i} {want}, trained {[sorted(r['ids']) for r in log][:6]} {kind}"):
                continue
            free.remove(hit)
            m.equal("kwargs", hit["kw"], kw)
            m.check("batching", max(hit["sizes"], default=0) <= bs and len(hit["sizes"]) == -(-size // bs), f"{hit['sizes']} bs {bs}")
    return meta, subs


def lds(m, rng):
    from dattri.model_util.retrain import retrain_lds
    dl, pool, kind, bs = make_loader(rng)
    s, runs = rng.randint(1, 6), rng.randint(1, 3)
    ratio = rng.choice([0.25, 0.5, 0.5, 0.75, 1.0, 1 / 3])
    seed = rng.choice([None, 0, 1, 42, 2**31 - 200])
    kw = rng.choice([{}, dict(device="cpu"), dict(device="cpu", lr=0.1)])
    m.saw("lds", kind, len(pool), s, runs, ratio, seed)
    logs = []
    for rep in range(2):
        log = []
        path = rng.choice([f"r{rep}", f"./deep/er{rep}", Path(os.getcwd()) / f"abs {rep}"])
        torch.manual_seed(rng.randrange(10**6))
        random.seed(rng.randrange(10**6))
        retrain_lds(recorder(m, log), dl, path, num_subsets=s, subset_ratio=ratio, num_runs_per_subset=runs, seed=seed, **kw)
        meta, subs = check_lds(m, log, path, s, runs, ratio, pool, kind, bs, kw)
        m.equal("train-func-name", meta["train_func"], "train_func")
        sd = [r["seed"] for r in log]
        m.check("seeds-usable", all(isinstance(x, int) and 0 <= x < 2**32 for x in sd), f"seeds {sd[:4]}")
        m.check("seeds-distinct", len(set(sd)) == len(sd), f"{sd}")
        logs.append((log, subs))
    (a, sa), (b, sb) = logs
    if seed is not None:
        m.equal("seeded-subsets", [x[0] for x in sa], [x[0] for x in sb])
        m.equal("seeded-training-seeds", [r["seed"] for r in a], [r["seed"] for r in b])
        m.equal("seeded-order", [r["ids"] for r in a], [r["ids"] for r in b], msg="sample order inside the training loaders")
    else:
        m.check("unseeded-vary", [r["seed"] for r in a] != [r["seed"] for r in b], "two unseeded runs used the same seeds")
    if len(pool) >= 12 and ratio == 0.5 and s >= 2:
        m.check("subsets-vary", len({frozenset(x[0]) for x in sa}) > 1, "all subsets equal")


def shards(m, rng):
    from dattri.model_util.retrain import retrain_lds
    dl, pool, kind, bs = make_loader(rng)
    k = rng.randint(2, 4)
    per = rng.randint(1, 3)
    runs = rng.randint(1, 2)
    ratio, seed = rng.choice([0.5, 0.4, 1.0]), rng.choice([0, 3, 99])
    m.saw("shards", kind, len(pool), k, per, runs)
    whole, parts = [], []
    retrain_lds(recorder(m, whole), dl, "whole", num_subsets=k * per, subset_ratio=ratio, num_runs_per_subset=runs, seed=seed)
    order = rng.sample(range(k), k)
    for i in order:
        m.ev("shards")
        retrain_lds(recorder(m, parts), dl, "parts", num_subsets=per, subset_ratio=ratio, num_runs_per_subset=runs, seed=seed,
                    start_id=i * per, total_num_subsets=k * per)
    _, sw = check_lds(m, whole, "whole", k * per, runs, ratio, pool, kind, bs, {})
    _, sp = check_lds(m, parts, "parts", k * per, runs, ratio, pool, kind, bs, {})
    m.equal("shard-subsets", [x[0] for x in sp], [x[0] for x in sw], msg=f"shard order {order}")
    m.equal("shard-seeds", sorted(r["seed"] for r in parts), sorted(r["seed"] for r in whole))
    m.check("shard-models", all(same(a, b) for x, y in zip(sw, sp) for a, b in zip(x[1], y[1])), "")
    # invalid splits are refused
    for bad in (dict(num_subsets=2, total_num_subsets=3), dict(num_subsets=2, total_num_subsets=-2)):
        try:
            retrain_lds(recorder(m, []), dl, "bad", seed=1, **bad)
            m.fail("accepts-bad-split", str(bad))
        except ValueError:
            m.ev("refused")


class Stop(Exception):
    pass


def stopped(m, rng):
    """Training fails on its way: the error surfaces, nothing claims to be complete, and the same call later completes it."""
    from dattri.model_util.retrain import retrain_lds, retrain_loo
    dl, pool, kind, bs = make_loader(rng)
    n, seed = len(pool), rng.choice([0, 3, 99])
    log = []
    real = recorder(m, log)
    left = [0]

    def train_func(loader, seed=None, **kw):
        if left[0] == 0:
            raise Stop
        left[0] -= 1
        return real(loader, seed=seed, **kw)
    if rng.random() < 0.4:
        idx = rng.sample(range(n), rng.randint(1, n))
        calls, what = len(idx), f"loo {idx}"

        def call(path):
            retrain_loo(train_func, dl, path, indices=idx, seed=seed)
    else:
        k, per, runs, ratio = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2), rng.choice([0.5, 1.0])
        calls, what = k * per * runs, f"lds {k}x{per}x{runs}"

        def call(path):
            for i in range(k):
                retrain_lds(train_func, dl, path, num_subsets=per, subset_ratio=ratio, num_runs_per_subset=runs, seed=seed, start_id=i * per,
                            total_num_subsets=k * per)
    fails = sorted(rng.randrange(calls) for _ in range(rng.randint(1, 2)))
    m.saw("stopped", kind, what, str(fails))
    for f in fails:
        left[0] = f
        m.ev("stopped")
        try:
            call("run")
            m.fail("failure-lost", f"training {f} of {calls} failed: {what}")
        except Stop:
            pass
        m.check("unfinished-metadata", not os.path.exists("run/metadata.yml"), f"training {f} of {calls} failed, but the metadata says it is complete: {what}")
    del log[:]
    left[0] = -1
    call("run")
    m.equal("redone-calls", len(log), calls)
    call("clean")
    a, b = Path("run"), Path("clean")
    files = [sorted(str(p.relative_to(r)) for p in r.rglob("*") if p.is_file()) for r in (a, b)]
    m.equal("redone-files", files[0], files[1], msg=what)
    for f in files[1]:
        if f.endswith(".pt"):
            x, y = (torch.load(r / f, weights_only=False) for r in (a, b))
            x, y = ((z if isinstance(z, dict) else z.state_dict()) for z in (x, y))
            m.check("redone-models", list(x) == list(y) and all(torch.equal(x[k], y[k]) for k in x), f"{f} {what}")
        else:
            m.equal("redone-text", (a / f).read_text().replace("run", "clean"), (b / f).read_text().replace("run", "clean"), msg=f)


def loo(m, rng):
    from dattri.model_util.retrain import retrain_loo
    dl, pool, kind, bs = make_loader(rng)
    n = len(pool)
    idx = None if rng.random() < 0.3 else rng.sample(range(n), rng.randint(1, n))
    arg = idx
    if idx and rng.random() < 0.3:
        import numpy as np
        arg = np.array(idx) if rng.random() < 0.5 else tuple(idx)
    seed = rng.choice([None, 0, 17])
    kw = rng.choice([{}, dict(device="cpu")])
    log = []
    path = rng.choice(["loo", Path("x") / "y", os.path.join(os.getcwd(), "z z")])
    retrain_loo(recorder(m, log), dl, path, indices=arg, seed=seed, **kw)
    m.ev("loo_runs")
    removed = list(range(n)) if idx is None else idx
    m.saw("loo", kind, n, len(removed), seed)
    m.equal("one-call-per-index", len(log), len(removed))
    meta = yaml.safe_load(Path(path, "metadata.yml").read_text())
    m.equal("meta", {k: meta[k] for k in ("mode", "data_length", "train_func", "indices")}, dict(mode="loo", data_length=n, train_func="train_func", indices=removed))
    m.equal("meta-dirs", sorted(meta["map_index_dir"]), sorted(removed))
    for r, i in zip(log, removed):
        want = [p for j, p in enumerate(pool) if j != i]
        m.check("leaves-one-out", sorted(r["ids"]) == sorted(want), f"index {i} ({kind}): trained on {r['ids']}, want {want}")
        m.equal("seed", r["seed"], seed)
        m.equal("kwargs", r["kw"], kw)
        m.check("batching", max(r["sizes"], default=0) <= bs and len(r["sizes"]) == -(-(n - 1) // bs), f"{r['sizes']}")
        net = torch.load(Path(meta["map_index_dir"][i]) / "model_weights.pt", weights_only=False)
        m.check("saved-model", same(net, r["net"]), f"index {i}")
    m.equal("directories", sorted(os.listdir(path)), sorted(["metadata.yml"] + [f"index_{i}" for i in removed]))


def cli(m, rng):
    """The retraining script over stand-in datasets and training functions."""
    import contextlib
    import io
    from dattri.script import dattri_retrain as S
    from vmon.retraining import Ids
    m.ev("cli")
    n = rng.randint(6, 20)
    sub = rng.choice([-1, n, rng.randint(4, n)])
    mode = rng.choice(["lds", "loo"])
    setting = rng.choice(["mnist_lr", "cifar2_resnet9"])
    dset, model = setting.split("_")
    log = []
    ds = Ids(n)
    pool = list(range(n if sub < 0 else sub))
    train = recorder(m, log)
    S.SUPPORTED_SETTINGS = dict(S.SUPPORTED_SETTINGS, **{setting: train})
    S.SUPPORTED_DATASETS = dict(S.SUPPORTED_DATASETS, **{dset: lambda p: (ds, None)})
    old = sys.argv
    seed = rng.choice([0, 5])

    def go(path, part):
        sys.argv = ["dattri_retrain", "--dataset", dset, "--model", model, "--mode", mode, "--train_subset", str(sub), "--save_path", path,
                    "--data_path", "data", "--seed", str(seed), "--partition", part, "--extra_param", "lr=3"]
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                S.main()
        finally:
            sys.argv = old
    m.saw("cli", mode, setting, n, sub)
    if mode == "loo":
        a, b = sorted(rng.sample(range(len(pool) + 1), 2))
        go("o", f"{a},{b},none")
        m.equal("loo-range", [sorted(r["ids"]) for r in log], [[p for p in pool if p != i] for i in range(a, b)])
        m.check("loo-args", all(r["kw"] == dict(device="cpu", lr=3) and r["seed"] == seed for r in log), f"{log[:1]}")
        return
    k, per = rng.randint(1, 3), rng.randint(1, 2)
    for i in rng.sample(range(k), k):
        go("o", f"{i * per},{(i + 1) * per},{k * per}")
    check_lds(m, log, "o", k * per, 1, 0.5, pool, "cli", {"mnist_lr": 32, "cifar2_resnet9": 64}[setting], dict(device="cpu", lr=3))
    m.equal("cli-seeds", sorted(r["seed"] for r in log), [seed + i for i in range(k * per)])


def nanogpt(m, rng):
    """The nanoGPT launcher with the subprocess replaced by a stand-in that reads the configuration it would have run."""
    import dattri
    from dattri.script import dattri_retrain_nanogpt as S
    cwd = os.getcwd()
    data = Path(cwd, "data")
    data.mkdir()
    (data / "meta.pkl").write_bytes(b"x")
    name = rng.choice(["shakespeare_char", "tinystories"])
    cfg = Path(dattri.__file__).parent / f"benchmark/models/nanoGPT/config/train_{name}.py"
    base = {}
    exec(cfg.read_text(), base)  # noqa: S102
    runs = []

    def launch(command, shell=False, **kw):
        f = command.split("train.py", 1)[1].strip()
        ns = {}
        exec(Path(f).read_text(), ns)  # noqa: S102
        runs.append({k: v for k, v in ns.items() if not k.startswith("__")})
        m.ev("launched")
    S.subprocess = type("P", (), dict(run=staticmethod(launch)))
    total = rng.randint(2, 7)
    seed, ratio = rng.choice([0, 42, 1000]), rng.choice([0.25, 0.5, 1])
    cuts = [0, *sorted(rng.sample(range(1, total), rng.randint(0, min(2, total - 1)))), total]
    save = os.path.join(cwd, "models")
    m.saw("nanogpt", name, total, tuple(cuts), seed, ratio)
    try:
        S.retrain(seed, ratio, cfg, data, None, save, [0, total + rng.choice([0, 3]), total])
        whole, runs = runs, []
        for a, b in zip(cuts, cuts[1:]):
            S.retrain(seed, ratio, cfg, data, None, save, [a, b, total])
    finally:
        os.chdir(cwd)
    m.equal("launch-count", (len(whole), len(runs)), (total, total))
    m.equal("shards-equal-whole", runs, whole)
    m.equal("out-dirs", [r["out_dir"] for r in whole], [f"{save}/model_{i + 1}" for i in range(total)])
    sd = [r["seed"] for r in whole]
    m.check("seeds-distinct", len(set(sd)) == total, f"{sd}")
    for r in whole:
        m.equal("ratio", r["subset_ratio"], ratio)
        m.equal("data", r["dataset_path"], str(data))
        rest = {k: v for k, v in r.items() if k not in ("seed", "out_dir", "subset_ratio", "dataset_path")}
        m.equal("other-settings", rest, {k: v for k, v in base.items() if not k.startswith("__") and k not in ("seed", "out_dir", "subset_ratio", "dataset_path")})
    for bad in (0, -0.5, 1.5):
        try:
            S.retrain(seed, bad, cfg, data, None, save, [0, 1, 1])
            m.fail("accepts-bad-ratio", str(bad))
        except ValueError:
            m.ev("refused")
        finally:
            os.chdir(cwd)


def run(m, c):
    rng = random.Random(c["pick"])
    {"lds": lds, "loo": loo, "stopped": stopped, "shards": shards, "cli": cli, "nanogpt": nanogpt}[c["scenario"]](m, rng)
