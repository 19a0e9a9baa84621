"""P38  nanoGPT training: the script trains on exactly the recorded blocks with the advertised recipe.

`train.py` of the benchmark is run for real (copied with its siblings into the case's scratch directory, executed as
`__main__`), with tiny corpora.  Hooks: every forward of the model (inputs, targets, mode, gradient mode, loss),
every optimizer step (parameters, gradients, learning rate, before and after), every checkpoint write.
The recorded log is then checked offline:

* indices.txt holds distinct block numbers, as many as the subset ratio asks, all of them and in order for ratio 1
  (deterministic per seed, different subsets for different seeds);
* every training row is one recorded block of train.bin, its target the same block moved by one token; consecutive
  training batches walk the recorded order, starting again only when the next batch no longer fits;
* every validation row is a window of val.bin with its shifted target, evaluated in eval mode without gradients, and
  the reported losses are their means;
* every update uses the mean gradient of its micro batches, clipped to the limit, (own float64 recomputation), with
  the warmup + cosine learning rate of its iteration, decay on matrices only, and AdamW's update rule;
* exactly max_iters + 1 updates take place; evaluation happens every eval_interval;
* a checkpoint is written at each evaluation after the start (only on improvement unless always_save_checkpoint) and
  holds the live parameters, optimizer state, iteration, and architecture; resuming restores all of that.
"""
import contextlib
import copy
import io
import math
import os
import pickle
import random
import re
import runpy
import shutil
import sys
from pathlib import Path

import numpy as np
import torch

from vmon.core import REPO, Inconclusive

LEVEL = "exploration"
NOTE = "runs the real train.py end to end on CPU with tiny corpora; CUDA, DDP, torch.compile and GradScaler paths are out of reach here"
RULE = ("case seed picks corpus, vocabulary, architecture, batch and accumulation sizes, subset ratio, evaluation interval, learning-rate schedule, clipping, "
        "command-line or config-file overrides, fresh/resumed/evaluation-only runs")
MIN_EVENTS = {"steps": 300, "train_batches": 500, "rows": 1000, "checkpoints": 20}
CASE_LIMIT = 120


def gen(rng, tier):
    n = 1 if tier == "quick" else 8
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("fresh", 40), ("resume", 14), ("seeds", 10), ("eval_only", 6), ("lr", 8), ("whole", 5)) for _ in range(k * n)]


def prepare():
    torch.set_num_threads(1)


def corpus(rng, vocab, bs, batch, where, whole=False):
    os.makedirs(where, exist_ok=True)
    blocks = rng.randint(batch, batch + 14)
    n = blocks * bs + rng.choice([0, 1, 1, 2, bs // 2, bs - 1]) + (1 if blocks == batch else 0)
    n = n // bs * bs if whole else n + (n % bs == 0)  # a text of whole blocks has no target for its last token: scenario "whole"
    gen_ = np.random.default_rng(rng.randrange(2 ** 30))
    tr = gen_.integers(0, vocab, n).astype(np.uint16)
    va = gen_.integers(0, vocab, rng.randint(bs + 2, 6 * bs)).astype(np.uint16)
    tr.tofile(os.path.join(where, "train.bin"))
    va.tofile(os.path.join(where, "val.bin"))
    with open(os.path.join(where, "meta.pkl"), "wb") as f:
        pickle.dump({"vocab_size": vocab, "itos": {}, "stoi": {}}, f)
    return tr, va


def config(rng, **over):
    bs = rng.choice([4, 5, 8])
    batch = rng.randint(1, 4)
    heads = rng.choice([1, 2])
    iters = rng.randint(3, 9)
    warm = rng.choice([0, 1, 2, 3, 20])
    c = dict(eval_interval=rng.choice([2, 3, 4, 100]), eval_iters=rng.randint(1, 3), log_interval=rng.choice([1, 2]), always_save_checkpoint=rng.random() < .5,
             gradient_accumulation_steps=rng.choice([1, 1, 2, 3]), batch_size=batch, block_size=bs, n_layer=rng.choice([1, 2]), n_head=heads,
             n_embd=heads * rng.choice([4, 6]), dropout=0.0, bias=rng.random() < .5, learning_rate=rng.choice([1e-3, 3e-3, 1e-2]), max_iters=iters,
             weight_decay=rng.choice([0.0, 0.1, 0.5]), beta1=0.9, beta2=rng.choice([0.95, 0.99]), grad_clip=rng.choice([0.0, 0.3, 1.0, 100.0]),
             decay_lr=rng.random() < .75, warmup_iters=warm, lr_decay_iters=max(rng.choice([iters, iters - 2, iters + 5]), warm + 1), min_lr=rng.choice([1e-4, 0.0]),
             subset_ratio=rng.choice([1, 1, 1.0, 0.5, 0.75, 0.9]), seed=rng.randrange(1000), device="cpu", compile=False, dtype="float32", out_dir="out",
             wandb_log=False)
    if not c["min_lr"]:
        c["min_lr"] = 1e-5
    c.update(over)
    return c


def expected_lr(c, it):
    if not c["decay_lr"]:
        return c["learning_rate"]
    w, d = c["warmup_iters"], c["lr_decay_iters"]
    if it < w:
        return c["learning_rate"] * it / w
    if it > d:
        return c["min_lr"]
    return c["min_lr"] + 0.5 * (1 + math.cos(math.pi * (it - w) / (d - w))) * (c["learning_rate"] - c["min_lr"])


class Log:
    def __init__(self):
        self.events, self.text, self.saves, self.model, self.globals = [], "", [], None, None
        self.initial = None


def launch(rng, c, data_dir, argv_extra=()):
    """Run train.py under the hooks; returns the event log."""
    src = Path(REPO) / "dattri" / "benchmark" / "models" / "nanoGPT"
    if not os.path.exists("run"):
        os.makedirs("run")
        for f in src.iterdir():
            if f.is_file():
                shutil.copy(f, "run/" + f.name)
    log = Log()
    here = os.getcwd()
    old_argv, old_path = sys.argv, list(sys.path)
    for name in ("model", "configurator"):
        sys.modules.pop(name, None)
    # settings: floats and ints keep the type the script declares
    floats = {"dropout", "learning_rate", "weight_decay", "beta1", "beta2", "grad_clip", "min_lr"}
    argv, lines = ["train.py", "cfg.py"], [f"dataset_path = {data_dir!r}"]
    for k, v in c.items():
        v = float(v) if k in floats else v
        if rng.random() < .5 and k != "subset_ratio":     # subset_ratio is declared as an int: only a file can set a fraction
            argv.append(f"--{k}={v!r}" if not isinstance(v, str) else f"--{k}={v}")
        else:
            lines.append(f"{k} = {v!r}")
    argv += list(argv_extra)
    from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook

    def snap(opt):
        return [{"lr": g["lr"], "wd": g["weight_decay"], "betas": g.get("betas"), "eps": g.get("eps"), "ids": [id(p) for p in g["params"]],
                 "p": [p.detach().clone() for p in g["params"]], "g": [None if p.grad is None else p.grad.detach().clone() for p in g["params"]]}
                for g in opt.param_groups]

    handles = [register_optimizer_step_pre_hook(lambda o, a, k: log.events.append(("pre", o, snap(o)))),
               register_optimizer_step_post_hook(lambda o, a, k: log.events.append(("post", o, snap(o))))]
    real_save = torch.save

    def save(obj, f, *a, **k):
        out = real_save(obj, f, *a, **k)
        live = {n: p.detach().clone() for n, p in log.model.state_dict().items()}
        log.events.append(("save",))
        log.saves.append((str(f), torch.load(f, map_location="cpu"), live))
        return out

    buf = io.StringIO()
    try:
        os.chdir("run")
        with open("cfg.py", "w") as f:
            f.write("\n".join(lines) + "\n")
        sys.argv = argv
        sys.path.insert(0, os.getcwd())
        import model as mod
        real_init, real_forward = mod.GPT.__init__, mod.GPT.forward

        def init(self, *a, **k):
            real_init(self, *a, **k)
            log.model = self

        def forward(self, idx, targets=None, *a, **k):
            if log.initial is None:
                log.initial = {n: p.detach().clone() for n, p in self.named_parameters()}
            out = real_forward(self, idx, targets, *a, **k)
            log.events.append(("fwd", self.training, torch.is_grad_enabled(), idx.clone(), targets.clone(), float(out[1].detach())))
            return out

        mod.GPT.__init__, mod.GPT.forward = init, forward
        torch.save = save
        with contextlib.redirect_stdout(buf):
            log.globals = runpy.run_path("train.py", run_name="__main__")
    finally:
        torch.save = real_save
        for h in handles:
            h.remove()
        with contextlib.suppress(Exception):
            mod.GPT.__init__, mod.GPT.forward = real_init, real_forward
        log.mod = sys.modules.pop("model", None)
        os.chdir(here)
        sys.argv, sys.path[:] = old_argv, old_path
    log.text = buf.getvalue()
    return log


def lines_of(path):
    with open(path) as f:
        return [int(x) for x in f.read().split()]


def check_indices(m, c, tr, path, skip=0):
    got = lines_of(path)[skip:]
    usable = (len(tr) - 1) // c["block_size"]
    want = int(usable * c["subset_ratio"])
    m.equal("recorded-count", len(got), want, msg=f"{len(tr)} tokens, blocks of {c['block_size']}, ratio {c['subset_ratio']}")
    m.check("recorded-distinct", len(set(got)) == len(got) and all(0 <= i < usable for i in got), str(got))
    if c["subset_ratio"] >= 1:
        m.equal("recorded-order", got, list(range(usable)))
    return got


def check_log(m, c, log, tr, va, blocks, start=0, state=None):
    """The whole recorded history of one run."""
    bs, B = c["block_size"], c["batch_size"]
    tr64, va64 = torch.from_numpy(tr.astype(np.int64)), torch.from_numpy(va.astype(np.int64))
    where = {}
    for pos, b in enumerate(blocks):
        where[b] = pos
    rows = {}
    for b in blocks:
        rows.setdefault(tuple(tr64[b * bs:b * bs + bs + 1].tolist()), []).append(b)
    windows = {tuple(va64[i:i + bs + 1].tolist()) for i in range(len(va) - bs)}

    def block_of(x, y):
        row = tuple(x.tolist()) + (int(y[-1]),)
        m.check("target-shift", tuple(y.tolist()) == row[1:], f"{x.tolist()} {y.tolist()}")
        m.check("recorded-block", row in rows, f"a training row that is no recorded block: {row}")
        return rows.get(row, [None])

    it, micro, evals, train_losses, val_losses = start, [], 0, [], []
    last = None            # position after the previous training batch, when nothing fell in between
    steps = 0
    saved_at, evaluated, loose = [], [], 0
    for e in log.events:
        if e[0] == "fwd":
            _, training, grad, x, y, loss = e
            m.ev("rows", len(x))
            if training:
                m.ev("train_batches")
                m.check("training-grad", grad, "a training forward without gradients")
                if val_losses or train_losses:
                    evaluated.append((it, train_losses, val_losses))
                    train_losses, val_losses, loose = [], [], 2      # one batch was in flight, the evaluation moves the place in the order
                cand = [block_of(a, b) for a, b in zip(x, y)]
                m.equal("batch-rows", len(x), min(B, len(blocks)))
                loose -= 1
                if loose < 0 and last is not None and all(len(k) == 1 and k[0] is not None for k in cand):
                    pos = [where[k[0]] for k in cand]
                    begin = last if last + B <= len(blocks) else 0
                    m.equal("epoch-order", pos, list(range(begin, begin + len(pos))), msg=f"after position {last} of {len(blocks)}")
                if all(len(k) == 1 and k[0] is not None for k in cand):
                    pos = [where[k[0]] for k in cand]
                    m.equal("batch-order", pos, list(range(pos[0], pos[0] + len(pos))))
                    last = pos[-1] + 1
                else:
                    last = None
                micro.append((x, y, loss))
            else:
                m.ev("eval_batches")
                m.check("evaluation-no-grad", not grad, "an evaluation forward records gradients")
                if len(train_losses) < c["eval_iters"]:
                    for a, b in zip(x, y):
                        block_of(a, b)
                    train_losses.append(loss)
                else:
                    m.equal("evaluation-rows", len(x), B)
                    for a, b in zip(x, y):
                        row = tuple(a.tolist()) + (int(b[-1]),)
                        m.check("evaluation-window", row in windows and tuple(b.tolist()) == row[1:], f"{row}")
                    val_losses.append(loss)
        elif e[0] == "pre":
            steps += 1
            m.ev("steps")
            m.equal("micro-batches", len(micro), c["gradient_accumulation_steps"])
            check_step(m, c, log, e[2], micro, it)
            pending = e[2]
            micro = []
        elif e[0] == "post":
            check_update(m, c, pending, e[2], state)
            it += 1
        elif e[0] == "save":
            saved_at.append(it)
    if val_losses or train_losses:
        evaluated.append((it, train_losses, val_losses))
    return steps, evaluated, saved_at


def check_step(m, c, log, groups, micro, it):
    live = {id(p): n for n, p in log.model.named_parameters()}
    names = [live.get(i) for g in groups for i in g["ids"]]
    m.check("optimizer-covers", None not in names and sorted(names) == sorted(dict(log.model.named_parameters())), f"{names}")
    for g in groups:
        m.close("learning-rate", torch.tensor(float(g["lr"]), dtype=torch.float64), torch.tensor(expected_lr(c, it), dtype=torch.float64), 1e-9, scale=c["learning_rate"], msg=f"iteration {it}")
        for p in g["p"]:
            m.equal("decay-group", float(g["wd"]), float(c["weight_decay"]) if p.dim() >= 2 else 0.0, msg=f"{tuple(p.shape)}")
        m.equal("betas", tuple(g["betas"]), (c["beta1"], c["beta2"]))
    # own float64 gradient of the mean micro-batch loss
    twin = copy.deepcopy(log.model).double()
    flat = {n: p for g in groups for n, p in zip([live.get(i) for i in g["ids"]], g["p"])}
    got = {n: q for g in groups for n, q in zip([live.get(i) for i in g["ids"]], g["g"])}
    with torch.no_grad():
        for n, p in twin.named_parameters():
            p.copy_(flat[n].double())
            p.grad = None
    events, total = len(log.events), 0.0
    twin.train()
    for x, y, loss in micro:
        out = type(twin).forward(twin, x, y)[1] / len(micro)
        m.close("reported-loss", torch.tensor(loss, dtype=torch.float64), (out * len(micro)).detach(), 1e-4, scale=1.0)
        out.backward()
    del log.events[events:]
    grads = {n: p.grad for n, p in twin.named_parameters()}
    norm = math.sqrt(sum(float(g.pow(2).sum()) for g in grads.values()))
    k = min(1.0, c["grad_clip"] / (norm + 1e-6)) if c["grad_clip"] else 1.0
    m.saw("clipped", k < 1.0, c["gradient_accumulation_steps"])
    for n, g in grads.items():
        if got[n] is None:
            m.fail("gradient", f"no gradient for {n}")
            continue
        m.close("gradient", got[n], g * k, 2e-4, scale=norm * k, msg=f"iteration {it} {n} norm {norm:.3g} clip {c['grad_clip']}")


def check_update(m, c, before, after, state):
    """AdamW, own arithmetic, moments carried in `state` keyed by position."""
    i = 0
    for a, b in zip(before, after):
        for p, g, q in zip(a["p"], a["g"], b["p"]):
            st = state.setdefault(i, {"t": 0, "m": torch.zeros_like(p, dtype=torch.float64), "v": torch.zeros_like(p, dtype=torch.float64)})
            i += 1
            if g is None:
                continue
            b1, b2, g64 = c["beta1"], c["beta2"], g.double()
            st["t"] += 1
            st["m"] = b1 * st["m"] + (1 - b1) * g64
            st["v"] = b2 * st["v"] + (1 - b2) * g64 ** 2
            step = (st["m"] / (1 - b1 ** st["t"])) / ((st["v"] / (1 - b2 ** st["t"])).sqrt() + 1e-8)
            want = p.double() * (1 - a["lr"] * a["wd"]) - a["lr"] * step
            m.close("update", q, want, 1e-5, scale=float(p.abs().max()) + a["lr"], msg=f"{tuple(p.shape)} step {st['t']}")


def check_reports(m, c, log, evaluated, start):
    said = re.findall(r"step (\d+): train loss ([\d.naninf-]+), val loss ([\d.naninf-]+)", log.text)
    m.equal("evaluations", [int(s[0]) for s in said], [i for i in range(start, c["max_iters"] + 1) if i % c["eval_interval"] == 0] if start <= c["max_iters"]
            else [i for i in [start] if i % c["eval_interval"] == 0])
    m.equal("evaluations-run", [i for i, *_ in evaluated], [int(s[0]) for s in said])
    for (it, t, v), (_, a, b) in zip(evaluated, said):
        m.equal("evaluation-batches", (len(t), len(v)), (c["eval_iters"],) * 2)
        m.close("reported-train", torch.tensor(float(a), dtype=torch.float64), torch.tensor(t, dtype=torch.float64).mean(), 1.1e-4, scale=1.0)
        m.close("reported-val", torch.tensor(float(b), dtype=torch.float64), torch.tensor(v, dtype=torch.float64).mean(), 1.1e-4, scale=1.0)


def check_saves(m, c, log, evaluated, saved_at, best=1e9):
    want = []
    for it, t, v in evaluated:
        val = float(torch.tensor(v).mean())
        if val < best or c["always_save_checkpoint"]:
            best = val
            if it > 0:
                want.append((it, val))
    m.equal("saved-at", saved_at, [i for i, _ in want], msg=f"always={c['always_save_checkpoint']} {[(i, float(np.mean(v))) for i, _, v in evaluated]}")
    for (path, ck, live), (it, val) in zip(log.saves, want):
        m.ev("checkpoints")
        m.equal("checkpoint-iteration", ck["iter_num"], it)
        m.close("checkpoint-loss", torch.as_tensor(ck["best_val_loss"]), torch.tensor(val, dtype=torch.float64), 1e-5, scale=1.0)
        m.equal("checkpoint-keys", sorted(ck["model"]), sorted(live))
        for n in live:
            m.check("checkpoint-parameters", torch.equal(ck["model"][n], live[n]), n)
        for k in ("n_layer", "n_head", "n_embd", "block_size", "bias"):
            m.equal("checkpoint-architecture", ck["model_args"][k], c[k], msg=k)
        for k in ("seed", "batch_size", "learning_rate", "subset_ratio", "max_iters", "weight_decay", "grad_clip"):
            m.equal("checkpoint-config", float(ck["config"][k]), float(c[k]), msg=k)
        st = ck["optimizer"]["state"]
        m.check("checkpoint-optimizer", len(st) == len(list(log.model.parameters())), f"{len(st)}")


def one(m, rng, c, vocab, tr, va, start=0, state=None, extra=(), skip=0, best=1e9):
    state = {} if state is None else state
    log = launch(rng, c, os.path.abspath("data"), extra)
    m.ev("runs")
    blocks = check_indices(m, c, tr, "run/out/indices.txt", skip)
    steps, evaluated, saved = check_log(m, c, log, tr, va, blocks, start, state)
    m.equal("steps", steps, max(c["max_iters"] + 1 - start, 1))
    check_reports(m, c, log, evaluated, start)
    check_saves(m, c, log, evaluated, saved, best)
    return log, blocks, evaluated, state


def usable(c, tr):
    return int(((len(tr) - 1) // c["block_size"]) * c["subset_ratio"]) >= 1


def setup(rng, whole=False, **over):
    vocab = rng.choice([5, 11, 30])
    c = config(rng, **over)
    tr, va = corpus(rng, vocab, c["block_size"], c["batch_size"], "data", whole)
    if not usable(c, tr):
        c["subset_ratio"] = 1
    return c, vocab, tr, va


def fresh(m, rng, whole=False):
    c, vocab, tr, va = setup(rng, whole)
    m.tag = "training text of whole blocks" if whole else None
    m.saw("fresh", c["block_size"], c["batch_size"], c["gradient_accumulation_steps"], c["n_layer"], c["subset_ratio"], c["eval_interval"])
    one(m, rng, c, vocab, tr, va)


def resume(m, rng):
    first = rng.randint(2, 5)
    c, vocab, tr, va = setup(rng, eval_interval=first, always_save_checkpoint=True, max_iters=first + rng.randint(0, 1))
    log, blocks, evaluated, state = one(m, rng, c, vocab, tr, va)
    if not log.saves:
        m.fail("resume-source", "no checkpoint was written")
        return
    path, ck, live = log.saves[-1]
    it = ck["iter_num"]
    # moments at the checkpoint, from the recorded steps of the first run
    carry = {}
    done = 0
    pend = None
    for e in log.events:
        if e[0] == "pre":
            pend = e[2]
        if e[0] == "post":
            if done < it:
                check_update(m, c, pend, e[2], carry)
            done += 1
    more = dict(c, max_iters=it + rng.randint(0, 4), eval_interval=rng.choice([it, 2, 3, 100]), seed=rng.randrange(1000), init_from="resume",
                always_save_checkpoint=rng.random() < .5)
    if rng.random() < .3:     # the checkpoint's architecture wins over the command line
        more["n_layer"] = 3 - c["n_layer"]
        c2 = dict(more, n_layer=c["n_layer"])
    else:
        c2 = more
    m.saw("resume", it, more["max_iters"])
    old = len(lines_of("run/out/indices.txt"))
    run_cfg = more
    log2 = launch(rng, run_cfg, os.path.abspath("data"))
    m.ev("runs")
    blocks2 = check_indices(m, c2, tr, "run/out/indices.txt", old)
    for n, p in log2.initial.items():
        m.check("resumed-parameters", torch.equal(p, ck["model"][n]), n)
    steps, evaluated2, saved2 = check_log(m, c2, log2, tr, va, blocks2, it, carry)
    m.equal("steps", steps, max(c2["max_iters"] + 1 - it, 1))
    check_reports(m, c2, log2, evaluated2, it)
    check_saves(m, c2, log2, evaluated2, saved2, float(ck["best_val_loss"]))


def seeds(m, rng):
    c, vocab, tr, va = setup(rng, max_iters=rng.randint(2, 4), eval_interval=2, always_save_checkpoint=True, subset_ratio=rng.choice([0.5, 0.75]))
    ends, idx = [], []
    for s in (c["seed"], c["seed"], c["seed"] + 1):
        if os.path.exists("run/out"):
            shutil.rmtree("run/out")
        torch.manual_seed(rng.randrange(10 ** 6))
        np.random.seed(rng.randrange(10 ** 6))
        log, blocks, *_ = one(m, rng, dict(c, seed=s), vocab, tr, va)
        ends.append(torch.cat([p.detach().reshape(-1) for p in log.model.parameters()]))
        idx.append(blocks)
    m.saw("seeds", c["seed"])
    m.equal("same-seed-blocks", idx[0], idx[1])
    m.check("same-seed-model", torch.equal(ends[0], ends[1]), "two runs of one seed differ")
    m.check("other-seed-model", not torch.equal(ends[0], ends[2]), "two seeds gave one model")


def eval_only(m, rng):
    c, vocab, tr, va = setup(rng, eval_only=True)
    log = launch(rng, c, os.path.abspath("data"))
    m.ev("runs")
    m.saw("eval_only", c["eval_iters"])
    m.check("evaluation-only-steps", not any(e[0] in ("pre", "post", "save") for e in log.events), "an evaluation-only run updated or saved")
    blocks = check_indices(m, c, tr, "run/out/indices.txt")
    steps, evaluated, saved = check_log(m, c, log, tr, va, blocks, 0, {})
    m.equal("evaluations-run", [i for i, *_ in evaluated], [0])
    for n, p in log.model.named_parameters():
        m.check("evaluation-only-parameters", torch.equal(p, log.initial[n]), n)


def lr(m, rng):
    """The learning-rate schedule as a function of the iteration."""
    c, vocab, tr, va = setup(rng, eval_only=True, decay_lr=True)
    w = rng.choice([0, 1, 10, 500])
    c.update(warmup_iters=w, lr_decay_iters=w + rng.choice([1, 10, 1000]))
    log = launch(rng, c, os.path.abspath("data"))
    f = log.globals.get("get_lr")
    if f is None:
        raise Inconclusive("the schedule function is not accessible by its name; the recorded steps still check it")
    its = [0, 1, w - 1, w, w + 1, c["lr_decay_iters"] - 1, c["lr_decay_iters"], c["lr_decay_iters"] + 1, 10 * c["lr_decay_iters"]]
    its += [rng.randrange(2 * c["lr_decay_iters"] + 2) for _ in range(60)]
    for i in its:
        if i >= 0:
            m.close("schedule", torch.tensor(f(i), dtype=torch.float64), torch.tensor(expected_lr(c, i), dtype=torch.float64), 1e-9, scale=c["learning_rate"], msg=f"iteration {i}")
            m.ev("schedule_points")
    m.saw("lr", w, c["lr_decay_iters"])


def run(m, c):
    {"fresh": fresh, "whole": lambda m, r: fresh(m, r, True), "resume": resume, "seeds": seeds, "eval_only": eval_only, "lr": lr}[c["scenario"]](m, random.Random(c["pick"]))
