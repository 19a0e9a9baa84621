"""Attribution leaves the caller's checkpoints, data, loaders' batches, model and process state as they were."""
import copy
import random
import torch
from vmon import attributors as A
from vmon.block import no_compile
from vmon.watch import Watch
no_compile()

LEVEL = "exploration"
RULE = ("every attributor on random problems, formats, layer selections and call sequences; everything the caller owns (checkpoint dictionaries, datasets, "
        "each yielded batch object, argument lists, model modules, parameters, gradients, flags, hooks, instance attributes, torch globals, working "
        "directory) is snapshotted before and compared after every call; distinct by (attributor, architecture, formats, calls)")
MIN_EVENTS = {"snapshots": 150, "batches": 800, "hooks_checked": 3000}

def gen(rng, tier):
    out = []
    for i in range(240 if tier == "quick" else 1800):
        kind = A.ALL[i % len(A.ALL)]
        sp = A.spec(rng, kind)
        if kind in A.GRAD and kind not in ("ekfac", "arnoldi"):
            sp["frozen"] = rng.random() < 0.3
        out.append(dict(scenario=kind, spec=sp, cfg=A.config(rng, kind), pick=rng.randrange(10**6), train=rng.random() < 0.4, ograd=rng.random() < 0.4,
                        cached=kind in A.NO_CACHE or kind not in A.UNCACHED or rng.random() < 0.6))
    return out


def run(m, c):
    kind, cfg = c["scenario"], c["cfg"]
    rng = random.Random(c["pick"])
    P = A.problem(kind, c["spec"])
    n, mm = P.spec["n"], P.spec["m"]
    if kind == "dvemb":
        P.eloss = cfg["fact"] is not None
    if c["train"]:
        P.model.train()
    for p in P.model.parameters():
        if c["ograd"] and p.requires_grad:
            p.grad = torch.randn_like(p)
    P.model.load_state_dict(P.states[0])
    cks = P.checkpoints()
    cfg0 = copy.deepcopy(cfg)
    w = Watch(m, P, cks)
    task = P.task(checkpoints=cks)
    keep = []
    a = A.Adapter(kind, P, cfg, task=task, keep=keep)
    layers0 = copy.deepcopy(getattr(a, "layers", None))
    w.check(f"{kind} constructor", keep)
    full, te = list(range(n)), list(range(mm))
    if c["cached"]:
        a.cache(full, rng.randint(1, n))
        w.check(f"{kind} cache", keep)
    bs = rng.randint(1, n)
    if not c["cached"] and kind in A.FULL_BATCH:
        bs = n
    for step in range(2):
        a.scores(full, bs, te, rng.randint(1, mm))
        w.check(f"{kind} attribute", keep)
    if a.selfs(full, bs) is not None:
        w.check(f"{kind} self_attribute", keep)
    m.check("arguments", cfg == cfg0 and getattr(a, "layers", None) == layers0, "an argument list was changed")
    m.saw(kind, P.spec["kind"], P.spec["fmt"], n, mm, bs, c["cached"], c["train"], c["ograd"], str(layers0))
