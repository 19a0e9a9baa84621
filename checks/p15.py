"""Scores do not depend on what the attributors (or the shared task) were asked before."""
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
no_compile()

LEVEL = "exploration"
RULE = ("random histories of cache, attribute, self-attribute and task calls over one to three attributors sharing a task; every result compared with that "
        "of a fresh attributor on a fresh task that was only told to cache the same training set; distinct by (attributors, history)")
MIN_EVENTS = {"compared": 300, "recached": 60, "foreign": 60}
CASE_LIMIT = 200


def gen(rng, tier):
    out = []
    for i in range(170 if tier == "quick" else 1800):
        kind = A.ALL[i % len(A.ALL)]
        sp = A.spec(rng, kind)
        kinds = [kind]
        # companions sharing the task (they need the same kind of loss function)
        pool = [k for k in (A.BLOCK if kind in A.BLOCK else A.GRAD) if sp["kind"] in A.net_kinds(k)]
        if kind not in ("rps", "knn", "dvemb"):
            pool = [k for k in pool if (sp["loss"] == "ce" or k != "trak") and (k != "ekfac" or sp["ncheck"] == 1) and k not in ("arnoldi",)]
            kinds += [rng.choice(pool) for _ in range(rng.choice([0, 1, 2]))] if pool else []
        elif kind == "rps":
            kinds += ["rps"] * rng.choice([0, 1])
        out.append(dict(scenario=kind, spec=sp, kinds=kinds, cfgs=[A.config(rng, k) for k in kinds], pick=rng.randrange(10**6),
                        steps=rng.randint(4, 7) if tier == "quick" else rng.randint(5, 14)))
    return out


def meddle(rng, P, task, kind):
    """Use the shared task directly in between."""
    if kind in ("knn",):
        return
    k = rng.randrange(len(P.states))
    if kind in A.GRAD:
        lay = P.pick_layers(rng)
        what = rng.choice(["param", "grad", "target", "loss"])
        if what == "param":
            task.get_param(ckpt_idx=k, layer_name=lay)
        elif what == "grad":
            task.get_grad_loss_func(layer_name=lay, ckpt_idx=k)
        elif what == "target":
            task.get_grad_target_func(layer_name=lay, ckpt_idx=k)
        else:
            task.get_loss_func(layer_name=lay, ckpt_idx=k)
    else:
        task.get_param(ckpt_idx=k)


def run(m, c):
    rng = random.Random(c["pick"])
    kinds, cfgs = c["kinds"], c["cfgs"]
    P = A.problem(kinds[0], c["spec"])
    if kinds[0] == "dvemb":
        P.eloss = cfgs[0]["fact"] is not None
    n, mm = P.spec["n"], P.spec["m"]
    task = P.task()
    live = [A.Adapter(k, P, g, task=task) for k, g in zip(kinds, cfgs)]
    tfull = list(range(mm))
    refs = {}

    def ref(i):
        """Scores and self-scores of the cached set by an attributor without a past."""
        key = (i, tuple(live[i].cached))
        if key not in refs:
            Q = A.problem(kinds[0], c["spec"])
            f = A.Adapter(kinds[i], Q, cfgs[i])
            f.cache(live[i].cached)
            s = f.scores(live[i].cached, n, tfull, mm)
            g = A.Adapter(kinds[i], A.problem(kinds[0], c["spec"]), cfgs[i])
            g.cache(live[i].cached)
            refs[key] = (s, g.selfs(live[i].cached, n))
        return refs[key]
    hist = []
    for step in range(c["steps"]):
        i = rng.randrange(len(live))
        a = live[i]
        if a.cached is None or rng.random() < 0.25:
            if a.cached is not None:
                m.ev("recached")
            idx = rng.sample(range(n), n if rng.random() < 0.4 else rng.randint(max(2, n - 3), n))
            if kinds[i] == "knn" or kinds[i] == "dvemb":
                idx = list(range(n))
            a.cache(idx)
            hist.append(("cache", i, tuple(idx)))
        if rng.random() < 0.4:
            meddle(rng, P, task, kinds[0])
            m.ev("foreign")
            hist.append(("task",))
        full, selfs = ref(i)
        op = rng.choice(["scores", "scores", "scores", "self"])
        tr = [rng.choice(a.cached) for _ in range(rng.randint(1, n))] if rng.random() < 0.5 else list(a.cached)
        if kinds[i] == "knn":
            tr = list(range(n))
        rows = [a.cached.index(t) for t in tr]
        bs = rng.randint(1, len(tr) + 1)
        hist.append((op, i, tuple(tr), bs))
        scale = float(full.abs().max())
        if op == "self":
            if selfs is None:
                continue
            got = a.selfs(tr, bs)
            m.close(f"self {kinds[i]}", got, selfs[rows], tol=10 * A.tol(kinds[i]), scale=max(scale, float(selfs.abs().max())),
                    msg=f"after {hist}")
        else:
            te = rng.sample(tfull, rng.randint(1, mm))
            got = a.scores(tr, bs, te, rng.randint(1, mm))
            m.close(f"scores {kinds[i]}", got, full[rows][:, te], tol=0.03 if kinds[i] == "rps" else 10 * A.tol(kinds[i]), scale=scale, msg=f"after {hist}")
    m.saw(str(kinds), str(hist))
