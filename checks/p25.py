"""What a task hands out belongs to the requested checkpoint and layers, whatever was requested before."""
import os, random
import torch
from vmon.workloads import Problem, rand_spec, KINDS

LEVEL = "exploration"
RULE = ("random request histories on one task (parameters flat / per layer, loss and target values, per-sample gradients in both batch layouts, "
        "held-over functions and parameters evaluated after other checkpoints were loaded), checkpoints as dictionaries, paths or through a "
        "custom loader, random layer selections; every answer recomputed by plain autograd on a model freshly loaded with that checkpoint; "
        "distinct by request history")
MIN_EVENTS = {"requests": 500, "held": 40, "compared": 500}


def gen(rng, tier):
    out = []
    for _ in range(260 if tier == "quick" else 1500):
        s = rand_spec(rng, kinds=KINDS, maxcheck=4)
        s["n"] = rng.randint(1, 6)
        s["ncheck"] = rng.choice([1, 2, 3, 4])
        out.append(dict(scenario="task", spec=s, pick=rng.randrange(10**9), how=rng.choice(["dict", "dict", "path", "loader", "posix"]),
                        ops=rng.randint(8, 22)))
    return out


def run(m, c):
    import pathlib
    P = Problem(c["spec"])
    rng = random.Random(c["pick"])
    cks = P.checkpoints()
    kw = {}
    if c["how"] in ("path", "posix"):
        paths = []
        for i, sd in enumerate(cks):
            f = os.path.abspath(f"ck{i}.pt")
            torch.save(sd, f)
            paths.append(f if c["how"] == "path" else pathlib.Path(f))
        given = paths
    else:
        given = cks
    if c["how"] == "loader":
        def load(model, ck):
            model.load_state_dict({k: v for k, v in ck.items()})
            return model.eval()
        kw["checkpoints_load_func"] = load
    one = len(given) == 1 and rng.random() < 0.5
    task = P.task(checkpoints=given, **kw) if not one else P.task(checkpoints=given, aslist=False, **kw)
    data = {}
    for which in ("train", "test"):
        data[which] = next(iter(P.loader(which, 99)))

    def lift(b):
        if isinstance(b, dict):
            return {k: v.unsqueeze(0) for k, v in b.items()}
        return tuple(v.unsqueeze(0) for v in b)

    oracle = {}

    def G(k, which, target, layers):
        key = (k, which, target, str(layers))
        if key not in oracle:
            oracle[key] = P.grads(k, which, target, layers)
        return oracle[key]

    def param(k, layers):
        return torch.cat([P.states[k][n].reshape(-1) for n in P.sel(layers)])

    def value(k, which, target):
        x, y = (P.x, P.y) if which == "train" else (P.xt, P.yt)
        return P.value(P._plain(k), P.cast(x), P.cast(y), target).detach()

    held = []
    hist = []
    arg = layers = None
    layout = target = 0
    for step in range(c["ops"]):
        k = rng.randrange(len(cks))
        if rng.random() < 0.45:  # otherwise: the same question as before, possibly about another checkpoint
            layers = P.pick_layers(rng)
            arg = layers
            if layers and len(layers) == 1 and rng.random() < 0.5:
                arg = layers[0]
            layout = rng.choice([0, 1])
            target = rng.random() < 0.5
        elif rng.random() < 0.2:
            target = not target
        which = rng.choice(["train", "test"])
        # buffers live in the model: a held function sees those of the checkpoint loaded last
        op = rng.choice(["param", "split", "value", "grad", "grad"] if P.spec["kind"] == "buf" else ["param", "split", "value", "grad", "grad", "grad", "hold", "release"])
        hist.append((op, k, str(layers), target))
        m.ev("requests")
        info = f"step {step} {op} ckpt={k} layers={layers} target={target} how={c['how']}"
        if op == "param":
            got, none = task.get_param(k, layer_name=arg)
            m.equal("param", got.detach(), param(k, layers), msg=info)
        elif op == "split":
            got, lm = task.get_param(k, layer_name=arg, layer_split=True)
            m.check("split-len", len(got) == len(P.sel(layers)) == len(lm), info)
            for t, n in zip(got, P.sel(layers)):
                m.equal("split", t.detach(), P.states[k][n].reshape(-1), msg=info + n)
            # consecutive parameters of one module share a layer number, numbering starts at 0 and grows by one
            mods = [n.rsplit(".", 1)[0] for n in P.sel(layers)]
            want, cur = [], -1
            for a, b in zip([None] + mods, mods):
                cur += a != b
                want.append(cur)
            m.check("layer-map", list(lm) == want, f"{lm} want {want} {info}")
        elif op == "value":
            f = (task.get_target_func if target else task.get_loss_func)(layer_name=arg, ckpt_idx=k)
            p, _ = task.get_param(k, layer_name=arg)
            m.close("value", f(p, data[which]).detach(), value(k, which, target), tol=1e-9, msg=info)
        elif op == "grad":
            gf = (task.get_grad_target_func if target else task.get_grad_loss_func)(in_dims=(None, layout), layer_name=arg, ckpt_idx=k)
            p, _ = task.get_param(k, layer_name=arg)
            got = gf(p, lift(data[which]) if layout else data[which])
            w = G(k, which, target, layers)
            m.close("grad", got, w, tol=1e-8, scale=float(w.abs().max()) + 1e-3, msg=info)
        elif op == "hold":
            p, _ = task.get_param(k, layer_name=arg)
            gf = (task.get_grad_target_func if target else task.get_grad_loss_func)(in_dims=(None, layout), layer_name=arg, ckpt_idx=k)
            vf = (task.get_target_func if target else task.get_loss_func)(layer_name=arg, ckpt_idx=k)
            held.append((gf, vf, p, layout, k, which, target, layers))
        elif op == "release" and held:
            gf, vf, p, hl, k, which, ht, hs = held.pop(rng.randrange(len(held)))
            m.ev("held")
            info += f" held ckpt={k} layers={hs}"
            m.equal("held-param", p.detach(), param(k, hs), msg=info)
            w = G(k, which, ht, hs)
            m.close("held-grad", gf(p, lift(data[which]) if hl else data[which]), w, tol=1e-8, scale=float(w.abs().max()) + 1e-3, msg=info)
            m.close("held-value", vf(p, data[which]).detach(), value(k, which, ht), tol=1e-9, msg=info)
    m.saw(hist)
    for a, b in zip(cks, P.states):
        for n in b:
            m.equal("checkpoint", a[n], b[n], msg="caller's checkpoint changed " + n)
