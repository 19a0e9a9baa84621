"""The benchmark sequence models against per-sequence definitions written with plain tensor operations."""
import contextlib
import io
import math
import random
import torch
import torch.nn.functional as F
from torch import nn

LEVEL = "exploration"
RULE = ("real nanoGPT (fast and manual attention, biases on/off, cropped context, loaded from a Hugging Face state) and MusicTransformer (absolute and "
        "relative attention) of random sizes on random token batches, compared with definitions evaluated one sequence and one position at a time; "
        "suffixes rewritten and batch members exchanged; next-token losses with ignored targets; sampling, top-k, greedy and beam generation replayed "
        "with the definition; smoothed cross entropy, accuracy and learning-rate schedule against their formulas; distinct by (model, sizes, mode)")
MIN_EVENTS = {"forwards": 300, "perturbed": 250, "generated_tokens": 300, "losses": 300, "sequences": 500}
TOL = 2e-4


def gen(rng, tier):
    q = tier == "quick"
    return [dict(scenario=s, pick=rng.randrange(10**9)) for s, k in (("gpt", 150), ("gptgen", 70), ("music", 150), ("musicgen", 60), ("loss", 200), ("misc", 80),
                                                                     ("hf", 8)) for _ in range(k if q else 10 * k)]


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def shake(model, g, dtype=None, scale=0.5):
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(torch.randn(p.shape, generator=g) * scale + (1.0 if p.dim() == 1 else 0.0) * 0.3)
    return model.to(dtype) if dtype else model


def make_gpt(rng, g, dtype=torch.float64, scale=0.5):
    from dattri.benchmark.models.nanoGPT.model import GPT, GPTConfig
    heads = rng.randint(1, 4)
    cfg = dict(block_size=rng.randint(2, 12), vocab_size=rng.randint(2, 17), n_layer=rng.randint(1, 3), n_head=heads, n_embd=heads * rng.randint(1, 4),
               dropout=rng.choice([0.0, 0.2]), bias=rng.random() < 0.6)
    manual = rng.random() < 0.4
    fast = F.scaled_dot_product_attention
    with quiet():
        if manual:
            del F.scaled_dot_product_attention
        try:
            net = GPT(GPTConfig(**cfg))
        finally:
            F.scaled_dot_product_attention = fast
    shake(net, g, dtype, scale)
    return net.eval(), cfg, manual


def norm(x, w, b):
    mu = x.mean(-1, keepdim=True)
    v = ((x - mu) ** 2).mean(-1, keepdim=True)
    y = (x - mu) / torch.sqrt(v + 1e-5) * w
    return y if b is None else y + b


def gpt_ref(net, cfg, seq):
    """Logits of one sequence, [T, V]; attention written position by position."""
    sd = dict(net.state_dict())

    def lin(x, name):
        y = x @ sd[name + ".weight"].T
        return y + sd[name + ".bias"] if name + ".bias" in sd else y
    h, d = cfg["n_head"], cfg["n_embd"] // cfg["n_head"]
    T = len(seq)
    x = sd["lm_head.weight"][seq] + sd["transformer.wpe.weight"][:T]
    for i in range(cfg["n_layer"]):
        p = f"transformer.h.{i}."
        z = norm(x, sd[p + "ln_1.weight"], sd.get(p + "ln_1.bias"))
        qkv = lin(z, p + "attn.c_attn")
        rows = []
        for t in range(T):
            heads = []
            for a in range(h):
                q = qkv[t, a * d:(a + 1) * d]
                k = qkv[:t + 1, (h + a) * d:(h + a + 1) * d]
                v = qkv[:t + 1, (2 * h + a) * d:(2 * h + a + 1) * d]
                w = torch.softmax(k @ q / math.sqrt(d), 0)
                heads.append(w @ v)
            rows.append(torch.cat(heads))
        x = x + lin(torch.stack(rows), p + "attn.c_proj")
        z = norm(x, sd[p + "ln_2.weight"], sd.get(p + "ln_2.bias"))
        x = x + lin(F.gelu(lin(z, p + "mlp.c_fc")), p + "mlp.c_proj")
    x = norm(x, sd["transformer.ln_f.weight"], sd.get("transformer.ln_f.bias"))
    return x @ sd["lm_head.weight"].T


def tokens(rng, g, b, t, v):
    return torch.randint(0, v, (b, t), generator=g)


def xent(logits, targets, ignore):
    """Mean negative log probability over the positions that count."""
    tot, cnt = torch.zeros((), dtype=torch.float64), 0
    for lo, t in zip(logits.double().reshape(-1, logits.shape[-1]), targets.reshape(-1).tolist()):
        if t != ignore:
            tot = tot - (lo[t] - torch.logsumexp(lo, 0))
            cnt += 1
    return tot / cnt if cnt else None


def gpt(m, rng):
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net, cfg, manual = make_gpt(rng, g)
    what = f"{cfg} {'manual' if manual else 'fast'}"
    if rng.random() < 0.3 and cfg["block_size"] > 2:
        nb = rng.randint(1, cfg["block_size"])
        net.crop_block_size(nb)
        cfg["block_size"] = nb
        m.equal("cropped-config", net.config.block_size, nb)
        what += f" cropped {nb}"
    b, t = rng.randint(1, 4), rng.randint(1, cfg["block_size"])
    x = tokens(rng, g, b, t, cfg["vocab_size"])
    ign = rng.choice([0.0, 0.3, 0.8])
    y = tokens(rng, g, b, t, cfg["vocab_size"])
    y[torch.rand(b, t, generator=g) < ign] = -1
    m.saw("gpt", b, t, cfg["n_layer"], cfg["n_head"], cfg["n_embd"], cfg["bias"], manual)
    x0, y0 = x.clone(), y.clone()
    with torch.no_grad():
        logits, loss = net(x, y)
        last, none = net(x)
        want = torch.stack([gpt_ref(net, cfg, s) for s in x])
    m.ev("forwards", 2)
    m.ev("sequences", b)
    m.check("input-unchanged", torch.equal(x, x0) and torch.equal(y, y0), "")
    m.close("gpt-logits", logits, want, tol=1e-8, scale=1, msg=what)
    m.check("last-only", tuple(last.shape) == (b, 1, cfg["vocab_size"]) and none is None, str(tuple(last.shape)))
    m.close("gpt-last-logits", last[:, 0], want[:, -1], tol=1e-8, scale=1, msg=what)
    ref = xent(want, y, -1)
    if ref is not None:
        m.ev("losses")
        m.close("gpt-loss", loss, ref, tol=1e-7, scale=1, msg=what)
    # rewriting the future, and exchanging the other members, changes nothing
    k = rng.randint(0, t - 1)
    x2 = x.clone()
    x2[:, k + 1:] = (x2[:, k + 1:] + 1) % cfg["vocab_size"]
    with torch.no_grad():
        l2 = net(x2, y)[0]
        l3 = net(x[:1], y[:1])[0]
        l4 = net(x[:, :k + 1], y[:, :k + 1].contiguous())[0]
    m.ev("perturbed", 2)
    m.close("gpt-causal", l2[:, :k + 1], logits[:, :k + 1], tol=1e-9, scale=1, msg=f"suffix after {k} rewritten, {what}")
    m.close("gpt-prefix", l4, logits[:, :k + 1], tol=1e-9, scale=1, msg=f"prefix {k + 1}, {what}")
    m.close("gpt-batch", l3[0], logits[0], tol=1e-9, scale=1, msg=what)
    with torch.no_grad():
        m.close("gpt-repeat", net(x, y)[0], logits, tol=1e-12, scale=1, msg="evaluation is deterministic")


def gptgen(m, rng):
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net, cfg, manual = make_gpt(rng, g, scale=0.7)
    v = cfg["vocab_size"]
    b, t = rng.randint(1, 3), rng.randint(1, cfg["block_size"] + 3)
    x = tokens(rng, g, b, t, v)
    x0 = x.clone()
    new = rng.randint(0, 8)
    mode = rng.choice(["greedy", "cold", "topk", "plain"])
    k = {"greedy": 1, "topk": rng.randint(1, v + 2)}.get(mode)
    temp = 1e-6 if mode == "cold" else rng.choice([1.0, 0.7, 2.0])
    m.saw("gptgen", mode, b, t, new, v)
    torch.manual_seed(rng.randrange(10**6))
    kw = dict(temperature=temp, top_k=k) if rng.random() < 0.8 or temp != 1.0 else dict(top_k=k)
    out = net.generate(x, new, **kw)
    m.ev("generated_tokens", b * new)
    m.check("gen-shape", tuple(out.shape) == (b, t + new) and out.dtype == x.dtype, str(tuple(out.shape)))
    m.check("gen-prompt", torch.equal(out[:, :t], x0) and torch.equal(x, x0), "prompt altered")
    m.check("gen-range", bool(((out >= 0) & (out < v)).all()), "")
    m.ev("sequences", b)
    m.ev("forwards", new)
    for i in range(new):
        for r in range(b):
            ctx = out[r, :t + i][-cfg["block_size"]:]
            lo = gpt_ref(net, cfg, ctx)[-1]
            got = lo[int(out[r, t + i])]
            if mode in ("greedy", "cold"):
                m.check("gen-argmax", bool(got >= lo.max() - (1e-4 if mode == "cold" else 1e-9)), f"{mode} step {i}: {float(got)} < {float(lo.max())}")
            elif mode == "topk":
                kth = lo.sort(descending=True)[0][min(k, v) - 1]
                m.check("gen-topk", bool(got >= kth - 1e-9), f"k={k} step {i}: {float(got)} < {float(kth)}")
    if mode == "plain" and v <= 6:  # the first token follows the softmax at the temperature
        reps = 3000
        o = net.generate(x[:1].repeat(reps, 1), 1, temperature=temp)[:, -1]
        freq = torch.bincount(o, minlength=v).double() / reps
        ctx = x[0][-cfg["block_size"]:]
        want = torch.softmax(gpt_ref(net, cfg, ctx)[-1] / temp, 0)
        m.check("gen-distribution", float((freq - want).abs().max()) < 0.06, f"{freq.tolist()} want {want.tolist()}")
        m.ev("generated_tokens", reps)


def make_music(rng, g, scale=0.3):
    from dattri.benchmark.models.MusicTransformer.music_transformer import MusicTransformer
    heads = rng.choice([1, 2, 4])
    cfg = dict(n_layers=rng.randint(1, 3), num_heads=heads, d_model=heads * rng.choice([2, 4]), dim_feedforward=rng.randint(3, 12),
               dropout=rng.choice([0.0, 0.3]), max_sequence=rng.randint(3, 14), rpr=rng.random() < 0.6)
    net = MusicTransformer(device="cpu", **cfg)
    shake(net, g, None, scale)
    return net.eval(), cfg


def music_ref(net, cfg, seq, mask=True):
    sd = {k: v.double() for k, v in net.state_dict().items()}
    D, h = cfg["d_model"], cfg["num_heads"]
    d, T = D // h, len(seq)
    x = sd["embedding.weight"][seq]
    pe = torch.zeros(T, D, dtype=torch.float64)
    for t in range(T):
        for c in range(D):
            w = t / 10000 ** ((c - c % 2) / D)
            pe[t, c] = math.cos(w) if c % 2 else math.sin(w)
    x = x + pe
    for i in range(cfg["n_layers"]):
        p = f"transformer.encoder.layers.{i}."
        qkv = x @ sd[p + "self_attn.in_proj_weight"].T + sd[p + "self_attn.in_proj_bias"]
        er = sd.get(p + "self_attn.Er")
        rows = []
        for t in range(T):
            upto = t + 1 if mask else T
            heads = []
            for a in range(h):
                q = qkv[t, a * d:(a + 1) * d] / math.sqrt(d)
                k = qkv[:upto, D + a * d:D + (a + 1) * d]
                v = qkv[:upto, 2 * D + a * d:2 * D + (a + 1) * d]
                s = k @ q
                if er is not None:
                    M = er.shape[0]
                    s = s + torch.stack([q @ er[M - 1 - (t - j)] for j in range(upto)])
                heads.append(torch.softmax(s, 0) @ v)
            rows.append(torch.cat(heads))
        a = torch.stack(rows) @ sd[p + "self_attn.out_proj.weight"].T + sd[p + "self_attn.out_proj.bias"]
        x = norm(x + a, sd[p + "norm1.weight"], sd[p + "norm1.bias"])
        f = torch.relu(x @ sd[p + "linear1.weight"].T + sd[p + "linear1.bias"]) @ sd[p + "linear2.weight"].T + sd[p + "linear2.bias"]
        x = norm(x + f, sd[p + "norm2.weight"], sd[p + "norm2.bias"])
    x = norm(x, sd["transformer.encoder.norm.weight"], sd["transformer.encoder.norm.bias"])
    return x @ sd["Wout.weight"].T + sd["Wout.bias"]


def vocab():
    from dattri.benchmark.models.MusicTransformer.utilities.constants import TOKEN_END, TOKEN_PAD, VOCAB_SIZE
    return VOCAB_SIZE, TOKEN_END, TOKEN_PAD


def music(m, rng):
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net, cfg = make_music(rng, g)
    V, _, _ = vocab()
    b, t = rng.randint(1, 3), rng.randint(1, cfg["max_sequence"])
    x = tokens(rng, g, b, t, V)
    grad = rng.random() < 0.4  # the fused inference path is only taken without gradients
    m.saw("music", b, t, cfg["rpr"], cfg["n_layers"], cfg["num_heads"], cfg["d_model"], grad)
    what = f"{cfg} b={b} t={t}"
    with torch.set_grad_enabled(grad):
        y = net(x) if rng.random() < 0.7 else net(x, mask=True)
    y = y.detach()
    m.ev("forwards")
    m.ev("sequences", b)
    want = torch.stack([music_ref(net, cfg, s) for s in x])
    m.close("music-logits", y, want, tol=TOL, scale=1, msg=what)
    if not cfg["rpr"] and rng.random() < 0.4:
        with torch.no_grad():
            full = net(x, mask=False)
        m.ev("forwards")
        m.close("music-unmasked", full, torch.stack([music_ref(net, cfg, s, False) for s in x]), tol=TOL, scale=1, msg=what)
    k = rng.randint(0, t - 1)
    x2 = x.clone()
    x2[:, k + 1:] = (x2[:, k + 1:] + 7) % V
    with torch.no_grad():
        m.close("music-causal", net(x2)[:, :k + 1], y[:, :k + 1], tol=TOL, scale=1, msg=f"suffix after {k}, {what}")
        m.close("music-prefix", net(x[:, :k + 1]), y[:, :k + 1], tol=TOL, scale=1, msg=f"prefix {k + 1}, {what}")
        m.close("music-batch", net(x[-1:])[0], y[-1], tol=TOL, scale=1, msg=what)
    m.ev("perturbed", 2)


def musicgen(m, rng):
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net, cfg = make_music(rng, g, scale=0.6)
    V, END, _ = vocab()
    T = rng.randint(2, cfg["max_sequence"])
    n0 = rng.randint(1, T)
    primer = tokens(rng, g, 1, n0, V)[0]
    p0 = primer.clone()
    mode = rng.choice(["sample", "sharp", "beam1", "beam", "beam", "mixed", "mixed", "never"])
    if mode == "mixed":
        T = cfg["max_sequence"]
        n0 = 1 + n0 // 3
        primer, p0 = primer[:n0].clone(), p0[:n0]
    if mode == "sharp":
        with torch.no_grad():
            net.Wout.weight.mul_(3000)
            net.Wout.bias.mul_(3000)
            net.Wout.bias[END:] = -1e6  # the end and pad symbols are never drawn: without mass elsewhere nothing can be
    beam = {"sample": 0, "sharp": 0, "beam1": 1, "never": 2}.get(mode, rng.randint(2, 5))
    chance = {"mixed": 0.5, "never": 0.0}.get(mode, 1.0)
    random.seed(rng.randrange(10**6))
    torch.manual_seed(rng.randrange(10**6))
    m.saw("musicgen", mode, T, n0, beam, cfg["rpr"])
    m.tag = "sampling with several sequences" if mode == "mixed" else None
    with quiet(), torch.no_grad():
        out = net.generate(primer.to(torch.int32) if rng.random() < 0.2 else primer, T, beam=beam, beam_chance=chance)
    m.tag = None
    m.check("music-gen-primer-kept", torch.equal(primer, p0), "")
    m.check("music-gen-length", out.dim() == 2 and out.shape[1] == T, f"{tuple(out.shape)} target {T} ({mode})")
    m.check("music-gen-prompt", bool((out[:, :n0] == p0).all()), mode)
    m.check("music-gen-range", bool(((out[:, n0:] >= 0) & (out[:, n0:] < V)).all()), mode)
    m.tag = "beam over several rows" if beam > 1 and mode in ("beam", "mixed") else None
    m.check("music-gen-range", bool((out[:, n0:] < END).all()), mode)
    m.tag = None
    m.ev("generated_tokens", int(out[:, n0:].numel()))
    m.ev("forwards", T - n0)
    if mode in ("sharp", "beam1"):
        m.equal("music-gen-rows", out.shape[0], 1)
        for i in range(n0, T):
            pr = torch.softmax(music_ref(net, cfg, out[0, :i])[-1], 0)[:END]
            top, sec = pr.topk(2)[0].tolist()
            if mode == "sharp" and top / max(top + sec, 1e-300) < 1 - 1e-9:
                continue
            m.check("music-gen-argmax", float(pr[out[0, i]]) > top * (1 - 1e-3), f"{mode} step {i}: {float(pr[out[0, i]])} of {top}")
        m.ev("sequences")
    elif mode == "beam":
        def search(width):
            """Rows kept by a beam search whose flat choices are split by `width`; None where choices nearly tie."""
            rows = [tuple(p0.tolist())]
            for i in range(n0, T):
                pr = torch.stack([torch.softmax(music_ref(net, cfg, torch.tensor(r))[-1], 0)[:END] for r in rows])
                flat = sorted(((float(p), r * END + c) for r, row in enumerate(pr) for c, p in enumerate(row.tolist())), reverse=True)
                for b in range(0 if width != END else beam - 1, beam):  # a wrong split depends on the order of the rows too
                    if flat[b][0] - flat[b + 1][0] < 1e-3 * flat[b][0]:
                        return None
                rows = [rows[f // width] + (f % width,) for _, f in flat[:beam]]
            return sorted(rows)
        rows, have = search(END), sorted(tuple(r) for r in out.tolist())
        if rows is not None:
            if have != rows:
                alt = search(V)  # the recorded finding: choices among END tokens split by the full vocabulary size
                if alt is None:
                    return
                m.tag = "beam over several rows" if have == alt else None
            m.equal("music-gen-beam", have, rows, msg=f"beam {beam} from {n0} to {T}")
            m.tag = None
            m.ev("sequences", beam)
        if T > n0:
            m.equal("music-gen-rows", out.shape[0], beam)
    # training mode is refused
    net.train()
    try:
        with quiet():
            net.generate(primer, T)
        m.fail("music-gen-training", "generated in training mode")
    except AssertionError:
        pass


def loss(m, rng):
    from dattri.benchmark.models.MusicTransformer.dataset.e_piano import compute_epiano_accuracy
    from dattri.benchmark.models.MusicTransformer.loss import SmoothCrossEntropyLoss
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    v = rng.randint(2, 30)
    n = rng.randint(1, 25)
    red = rng.choice(["mean", "mean", "sum"])
    s = rng.choice([0.0, 0.1, 0.5, 1.0])
    ign = rng.choice([-100, v - 1, 0, v + 5, -1])
    x = torch.randn(n, v, generator=g) * rng.choice([1, 5, 30])
    t = torch.randint(0, v, (n,), generator=g)
    r = rng.choice([0, 0.3, 0.8])
    t[torch.rand(n, generator=g) < r] = ign
    if rng.random() < 0.3:
        t = t.to(torch.int32)
    x0 = x.clone()
    x.requires_grad_(True)
    m.saw("loss", v, n, red, s, ign)
    kw = dict(ignore_index=ign) if ign != -100 or rng.random() < 0.5 else {}
    m.tag = "ignored target outside the vocabulary" if not 0 <= ign < v and bool((t == ign).any()) else None
    got = SmoothCrossEntropyLoss(s, v, reduction=red, **kw)(x, t)
    m.tag = None
    want, cnt = torch.zeros((), dtype=torch.float64), 0
    xd = x.double()
    for row, y in zip(xd, t.tolist()):
        if y != ign:
            lp = row - torch.logsumexp(row, 0)
            want = want - (1 - s) * lp[y] - s * lp.mean()
            cnt += 1
    m.ev("losses")
    if cnt:
        if red == "mean":
            want = want / cnt
        m.close("smooth-ce", got.detach(), want.detach(), tol=1e-4 if red == "mean" else 1e-5, scale=max(1, n * float(x.detach().abs().max()) if red == "sum" else 1), msg=f"v={v} n={n} s={s} ignore={ign} {red}")
        a, = torch.autograd.grad(got, x)
        b, = torch.autograd.grad(want, x)
        m.close("smooth-ce-grad", a, b, tol=1e-4, scale=1, msg=f"v={v} n={n} s={s} ignore={ign} {red}")
    m.check("loss-input-unchanged", torch.equal(x.detach(), x0), "")
    V, _, PAD = vocab()
    b = rng.randint(1, 6)
    T = rng.randint(1, 4)
    o = torch.randn(b, T, V, generator=g)
    tt = o.argmax(-1)
    wrong = torch.rand(b, T, generator=g) < rng.choice([0, 0.4, 1])
    tt[wrong] = (tt[wrong] + 1) % PAD
    tt[torch.rand(b, T, generator=g) < rng.choice([0, 0.4, 1])] = PAD
    live = [(bool(p == q)) for p, q in zip(o.argmax(-1).flatten(), tt.flatten()) if q != PAD]
    acc = float(compute_epiano_accuracy(o, tt))
    m.check("accuracy", abs(acc - (sum(live) / len(live) if live else 1.0)) < 1e-6, f"{acc} of {live}")


def misc(m, rng):
    g = torch.Generator().manual_seed(rng.randrange(10**6))
    net, cfg, _ = make_gpt(rng, g)
    names = dict(net.named_parameters())
    frozen = rng.sample(sorted(names), rng.randint(0, 2))
    for n in frozen:
        names[n].requires_grad_(False)
    with quiet():
        opt = net.configure_optimizers(0.3, 0.01, (0.8, 0.9), "cpu")
    m.saw("misc", cfg["n_layer"], cfg["bias"], len(frozen))
    ids = {id(p): n for n, p in names.items()}
    seen = {}
    for gr in opt.param_groups:
        for p in gr["params"]:
            m.check("optimizer-once", id(p) not in seen, ids.get(id(p), "?"))
            seen[id(p)] = gr["weight_decay"]
            m.check("optimizer-settings", gr["lr"] == 0.01 and tuple(gr["betas"]) == (0.8, 0.9), str(gr["lr"]))
    m.equal("optimizer-covers", sorted(ids[i] for i in seen), sorted(n for n in names if n not in frozen))
    for i, w in seen.items():
        n = ids[i]
        bias = n.endswith("bias") or ".ln_" in n
        m.check("optimizer-decay", w == (0.0 if bias else 0.3), f"{n} decays {w}")
    tot = sum(p.numel() for p in names.values())
    m.equal("num-params", net.get_num_params(non_embedding=False), tot)
    m.equal("num-params-non-embedding", net.get_num_params(), tot - cfg["block_size"] * cfg["n_embd"])
    it, dt = rng.randint(1, 50), rng.uniform(0.01, 3)
    L, H, Q, T = cfg["n_layer"], cfg["n_head"], cfg["n_embd"] // cfg["n_head"], cfg["block_size"]
    N = tot - cfg["block_size"] * cfg["n_embd"]
    want = (6 * N + 12 * L * H * Q * T) * T * it / dt / 312e12
    m.check("mfu", abs(net.estimate_mfu(it, dt) - want) < 1e-9 * want, "")
    x = tokens(rng, g, 1, cfg["block_size"] + 1, cfg["vocab_size"])
    try:
        net(x)
        m.fail("too-long-accepted", "")
    except AssertionError:
        m.ev("perturbed")
    # learning-rate schedule and evaluation loop
    from dattri.benchmark.models.MusicTransformer.utilities.lr_scheduling import LrStepTracker, get_lr
    d, w, i0 = rng.choice([4, 64, 512]), rng.randint(1, 4000), rng.choice([0, 0, 17])
    tr = LrStepTracker(d, w, i0)
    prm = nn.Parameter(torch.zeros(1))
    o = torch.optim.SGD([prm], lr=1.0)
    sch = torch.optim.lr_scheduler.LambdaLR(o, tr.step)
    for s in range(rng.randint(1, 12)):
        k = s + i0
        want = d ** -0.5 * (min(k ** -0.5, k * w ** -1.5) if k else 0.0)
        m.check("lr-schedule", abs(get_lr(o) - want) < 1e-9, f"step {k} d={d} warmup={w}: {get_lr(o)} want {want}")
        o.step()
        sch.step()
    for s in (w - i0, w - i0 + 1, 5 * w):
        k = s + i0
        if k > 0:
            m.check("lr-schedule", abs(tr.step(s) - d ** -0.5 * min(k ** -0.5, k * w ** -1.5)) < 1e-9, f"step {k} d={d} warmup={w}")
    from dattri.benchmark.models.MusicTransformer.utilities.run_model import eval_model
    from dattri.benchmark.models.MusicTransformer.loss import SmoothCrossEntropyLoss
    from torch.utils.data import DataLoader, TensorDataset
    V, _, PAD = vocab()
    mus, mc = make_music(rng, g)
    n, t = rng.randint(1, 7), mc["max_sequence"]
    a, y = tokens(rng, g, n, t, V), tokens(rng, g, n, t, PAD)
    mus.train()
    bs = rng.randint(1, 4)
    with torch.no_grad():
        l, acc = eval_model(mus, DataLoader(TensorDataset(a, y), batch_size=bs), SmoothCrossEntropyLoss(0.0, V, ignore_index=PAD), "cpu")
    lo = torch.stack([music_ref(mus, mc, s)[-1] for s in a])
    per = -(lo.log_softmax(-1)[torch.arange(n), y[:, -1]])
    hit = (lo.argmax(-1) == y[:, -1]).double()
    wl = torch.stack([per[i:i + bs].mean() for i in range(0, n, bs)]).mean()
    wa = torch.stack([hit[i:i + bs].mean() for i in range(0, n, bs)]).mean()
    m.ev("losses")
    m.ev("sequences", n)
    m.close("eval-loss", torch.tensor(float(l), dtype=torch.float64), wl, tol=TOL, scale=1)
    m.check("eval-accuracy", abs(float(acc) - float(wa)) < 1e-6 + 1.0 * (lo.topk(2)[0].diff().abs().min() < 1e-3), f"{acc} want {float(wa)}")


def hf(m, rng):
    """Weights of a (tiny, random) Hugging Face GPT-2 give the same function."""
    import transformers
    import dattri.benchmark.models.nanoGPT.model as mod
    heads = rng.randint(1, 3)
    small = dict(n_layer=rng.randint(1, 2), n_head=heads, n_embd=heads * rng.randint(1, 3))
    torch.manual_seed(rng.randrange(10**6))
    name = rng.choice(["gpt2", "gpt2-medium", "gpt2-large", "gpt2-xl"])
    ref = transformers.GPT2LMHeadModel(transformers.GPT2Config(vocab_size=50257, n_positions=1024, activation_function="gelu", **small)).eval()
    shake(ref, torch.Generator().manual_seed(3), None, 0.4)
    real_cfg, real_load = mod.GPTConfig, transformers.GPT2LMHeadModel.from_pretrained
    full = []
    mod.GPTConfig = lambda **kw: (full.append(dict(kw)), real_cfg(**{**kw, **small}))[1]
    transformers.GPT2LMHeadModel.from_pretrained = classmethod(lambda cls, n, *a, **k: (m.equal("hf-name", n, name), ref)[1])
    drop = rng.choice([None, {}, dict(dropout=0.25)])
    try:
        with quiet():
            net = mod.GPT.from_pretrained(name, drop) if drop is not None else mod.GPT.from_pretrained(name)
    finally:
        mod.GPTConfig, transformers.GPT2LMHeadModel.from_pretrained = real_cfg, real_load
    m.saw("hf", name, str(drop), str(small))
    sizes = {"gpt2": (12, 12, 768), "gpt2-medium": (24, 16, 1024), "gpt2-large": (36, 20, 1280), "gpt2-xl": (48, 25, 1600)}[name]
    m.equal("hf-size", (full[0]["n_layer"], full[0]["n_head"], full[0]["n_embd"], full[0]["vocab_size"], full[0]["block_size"]), (*sizes, 50257, 1024))
    m.equal("hf-dropout", net.config.dropout, (drop or {}).get("dropout", 0.0))
    net.eval()
    x = torch.randint(0, 50257, (2, rng.randint(1, 9)))
    with torch.no_grad():
        a = net(x, x)[0]
        b = ref(x).logits
    m.ev("forwards")
    m.ev("sequences", 2)
    m.close("hf-logits", a, b, tol=1e-3, scale=1, msg=name)


def run(m, c):
    torch.set_num_threads(1)
    {"gpt": gpt, "gptgen": gptgen, "music": music, "musicgen": musicgen, "loss": loss, "misc": misc, "hf": hf}[c["scenario"]](m, random.Random(c["pick"]))
