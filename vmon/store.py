"""Model-based histories for the gradient stores: a reference dictionary against the real manager."""
import os, random, sys, threading, time
import torch


def slow_files(root, rng_seed, p=0.25, top=0.03):
    """From now on, file operations below root made by other threads than this one are randomly delayed.

    Uses interpreter audit events, so it does not depend on how the store writes its files."""
    r = random.Random(rng_seed)
    main = threading.get_ident()
    seen = {"events": 0, "delays": 0}

    def hook(ev, args):
        if ev in ("open", "os.rename", "os.remove") and args and isinstance(args[0], str) and args[0].startswith(root):
            seen["events"] += 1
            if threading.get_ident() != main and r.random() < p:
                seen["delays"] += 1
                time.sleep(r.random() * top)
    sys.addaudithook(hook)
    return seen


def batch(rng, gen, dims, rows, dtype=torch.float32, missing=False):
    out = []
    for d in dims:
        t = torch.randn(rows, d, generator=gen).to(dtype)
        out.append(t)
    if missing and len(dims) > 1:
        for i in rng.sample(range(len(dims)), rng.randint(1, len(dims) - 1)):
            out[i] = torch.tensor([])
    return out


def stored_form(ts, dims, rows):
    """What must come back: float32 values, a layer without data as zeros."""
    return [t.to(torch.float32).clone() if t.numel() else torch.zeros(rows, d) for t, d in zip(ts, dims)]


def same(m, key, got, want, info):
    if want is None:
        return m.check(key + "-absent", all(g.numel() == 0 for g in got), f"data returned for a batch that was never stored {info}")
    ok = len(got) == len(want) and all(g.shape == w.shape and g.dtype == w.dtype and torch.equal(g, w) for g, w in zip(got, want))
    if ok:
        m.ev("compared")
        return True
    return m.check(key, False, f"shapes {[tuple(g.shape) for g in got]} want {[tuple(w.shape) for w in want]}, "
                               f"maxdiff {[float((g - w).abs().max()) if g.shape == w.shape and g.numel() else None for g, w in zip(got, want)]} {info}")


def iterate(m, key, loader, want, dims, info):
    """One full iteration yields every stored batch exactly once, under its own number, and nothing else."""
    seen = set()
    if loader is None:
        m.check(key + "-loader", not want, f"no loader although data were stored {info}")
        return
    for tensor, mapping in loader:
        covered = 0
        spans = sorted(mapping.values())
        for (a, b), (c, d) in zip(spans, spans[1:]):
            m.check(key + "-overlap", b <= c, f"overlapping row ranges {mapping} {info}")
        for b, (s, e) in mapping.items():
            covered += e - s
            m.check(key + "-once", b not in seen, f"batch {b} yielded twice {info}")
            seen.add(b)
            w = want.get(b)
            if m.check(key + "-known", w is not None, f"batch {b} was never stored {info}"):
                m.ev("iterated")
                same(m, key + "-rows", [tensor[s:e]], [torch.cat(w, 1)], f"batch {b} {info}")
        m.check(key + "-cover", covered == tensor.shape[0], f"{tensor.shape[0]} rows, {covered} accounted for {info}")
    m.check(key + "-all", seen == set(want), f"missing batches {sorted(set(want) - seen)[:8]} {info}")
