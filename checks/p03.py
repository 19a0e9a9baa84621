"""LiSSA attributor follows the documented recursion."""
import itertools, random
import torch
from vmon.workloads import Problem, rand_spec

LEVEL = "exploration"
RULE = ("random networks; (a) full-batch sampling vs the recursion evaluated with the dense Hessian in float64, (b) long runs "
        "vs (H+scaling*damping*I)^-1, (c) one/two sampled steps: the result must be one of the enumerated outcomes of "
        "sampling batch_size training samples without replacement; distinct by (scenario, architecture, sizes, layers, settings)")
MIN_EVENTS = {"compared": 20}


def gen(rng, tier):
    q = tier == "quick"
    out = []
    for _ in range(50 if q else 400):
        s = rand_spec(rng, maxcheck=2, dtypes=("float32", "float64"), frozen=True)
        out.append(dict(scenario="recursion", spec=s, lay=rng.randrange(10**6), mode=rng.choice(["rev-rev", "rev-fwd"]),
                        depth=rng.choice([1, 2, 3, 7, 15]), damping=rng.choice([0.0, 0.1, 0.5]), sc=rng.choice([0.7, 1.0, 2.0, 5.0]),
                        rep=rng.choice([1, 1, 2, 3]), extra=rng.choice([0, 3]), bs=rng.randint(2, 8),
                        rel=rng.choice([None, None, None, "theta", "l"])))
    for _ in range(10 if q else 80):
        s = rand_spec(rng, maxcheck=1, dtypes=("float32", "float64"), kinds=["linear", "mlp"], frozen=False)
        s["fmt"] = "list"
        out.append(dict(scenario="converge", spec=s, lay=rng.randrange(10**6), mode="rev-rev", depth=120, damping=0.2, sc=1.0,
                        rep=1, extra=0, bs=rng.randint(3, 8), rel=None))
    for _ in range(16 if q else 120):
        s = rand_spec(rng, maxcheck=1, dtypes=("float32", "float64"))
        s["n"] = rng.randint(3, 5)
        s["m"] = rng.randint(1, 3)
        rep = rng.choice([1, 2])
        out.append(dict(scenario="sampled", spec=s, lay=rng.randrange(10**6), mode="rev-rev", depth=1 if rep == 2 else rng.choice([1, 2]),
                        damping=rng.choice([0.0, 0.1]), sc=rng.choice([0.7, 2.0]), rep=rep, b=rng.randint(1, 2), bs=9, rel=None))
    return out


def recursion(H, V, depth, damping, scaling):
    cur = V.clone()
    for _ in range(depth):
        cur = V + (1 - damping) * cur - (cur @ H) / scaling
    return cur / scaling


def run(m, c):
    from dattri.algorithm.influence_function import IFAttributorLiSSA
    P = Problem(c["spec"])
    n = P.spec["n"]
    layers = P.pick_layers(random.Random(c["lay"]))
    Hs = [P.hessian(k, layers) for k in range(len(P.states))]
    top = max(float(torch.linalg.eigvalsh(H).abs().max()) for H in Hs) + 1e-3
    scaling = c["sc"] * top
    scen = c["scenario"]
    b = c.get("b", n + c.get("extra", 0))
    att = IFAttributorLiSSA(P.task(), layer_name=layers, batch_size=b, num_repeat=c["rep"], recursion_depth=c["depth"],
                            damping=c["damping"], scaling=scaling, mode=c["mode"])
    att.cache(P.loader("train"))
    m.saw(P.spec["kind"], n, P.spec["m"], len(Hs), str(layers), c["mode"], c["depth"], c["damping"], c["rep"], b, c["bs"])
    rel = c["rel"]
    if scen == "sampled":
        # one parameter batch; recover the transformed test vectors through the scores
        got = att.attribute(P.loader("train"), P.loader("test"))
        g, t = P.grads(0, "train", False, layers), P.grads(0, "test", True, layers)
        subs = [list(x) for x in itertools.combinations(range(n), min(b, n))]
        Hb = [P.hessian(0, layers, idx=x) for x in subs]
        one = []
        if c["depth"] == 1:
            one = [recursion(h, t, 1, c["damping"], scaling) for h in Hb]
        else:
            for h1 in Hb:
                cur = t + (1 - c["damping"]) * t - (t @ h1) / scaling
                for h2 in Hb:
                    one.append((t + (1 - c["damping"]) * cur - (cur @ h2) / scaling) / scaling)
        cand = one if c["rep"] == 1 else [(a + d) / 2 for a in one for d in one]
        sc = torch.stack([g @ u.T for u in cand])  # (cands, n, m)
        if got.shape != sc.shape[1:]:
            m.fail("sampled", f"shape {got.shape}")
            return
        for j in range(sc.shape[2]):
            # judge each column relative to how far candidates are apart
            col = got[:, j].double()
            d = (sc[:, :, j] - col[None]).abs().amax(1)
            i = int(d.argmin())
            m.close("sampled", got[:, j], sc[i, :, j], tol=3e-4, scale=float(sc[:, :, j].abs().max()),
                    msg=f"col {j}: not an outcome of sampling {b} of {n} without replacement")
            m.saw("pick", i)
        return
    got = att.attribute(P.loader("train", c["bs"]), P.loader("test", max(1, c["bs"] - 1)), relatif_method=rel)
    tot, mask, mag = 0, torch.ones(n, dtype=torch.bool), 0.0
    for k, H in enumerate(Hs):
        g, t = P.grads(k, "train", False, layers), P.grads(k, "test", True, layers)
        if scen == "converge":
            A = H + scaling * c["damping"] * torch.eye(len(H), dtype=H.dtype)
            ev = torch.linalg.eigvalsh(H) / scaling
            if float((1 - c["damping"] - ev).abs().max()) > 0.9:
                m.ev("not_contracting")
                m.ev("compared", 0)
                return
            tr = torch.linalg.solve(A, t.T).T
        else:
            tr = recursion(H, t, c["depth"], c["damping"], scaling)
        sc = g @ tr.T
        mag = max(mag, float((g.norm(dim=1).max() * tr.norm(dim=1).max())))
        if rel:
            hg = recursion(H, g, c["depth"], c["damping"], scaling)
            if rel == "theta":
                den = hg.norm(dim=1)
                mask &= den > 1e-3 * den.max()
            else:
                tt = P.grads(k, "train", True, layers)
                val = (tt * hg).sum(1)
                mask &= val > 1e-2 * (tt.norm(dim=1) * hg.norm(dim=1)) + 1e-7
                den = val.clamp_min(1e-12).sqrt()
            sc = sc / den.clamp_min(1e-12)[:, None]
        tot = tot + sc
    want = tot / len(Hs)
    if rel and got.shape == want.shape:
        got, want = got[mask], want[mask]
        mag = float(want.abs().max()) if want.numel() else 1.0
    m.close(scen, got, want, tol=5e-4 if not rel else 5e-3, scale=mag, msg=f"mode={c['mode']} depth={c['depth']} rep={c['rep']} rel={rel}")
