"""Every attributor of the repository behind one interface, so that cross-cutting properties can be checked on all of them.

An adapter works on the samples of a Problem addressed by index:
  cache(idx, bs)                   cache these training samples (no-op where the attributor has no cache)
  scores(tr, bs, te, tbs, via)     (len(tr), len(te)) scores; `via` says how the loader presents the samples
  selfs(tr, bs)                    self-attribution of these training samples, or None when not offered
"""
import os
import random
import torch
import torch.nn.functional as F
from torch import nn
from torch.utils.data import DataLoader
from vmon import block
from vmon.workloads import COLLATE, Data, FixedSampler, Problem

GRAD = ["explicit", "cg", "lissa", "arnoldi", "datainf", "ekfac", "tracin", "graddot", "gradcos", "trak"]
BLOCK = ["blockid", "logra", "factgrass", "blockgen"]
OTHER = ["rps", "knn", "dvemb"]
ALL = GRAD + BLOCK + OTHER
# the Hessian-like statistics of these come from one batch holding the whole cached data
FULL_BATCH = {"explicit", "cg", "lissa", "arnoldi"}
NO_CACHE = {"tracin", "graddot", "gradcos", "knn"}
RELATIF = {"explicit", "cg", "lissa"}
DICT = set(GRAD) | set(BLOCK)
UNCACHED = {"explicit", "cg", "lissa", "trak", "rps"} | NO_CACHE | set(BLOCK)


def net_kinds(kind):
    if kind in BLOCK:
        return ["linear", "mlp", "mlp3", "conv", "seq", "seq3", "par"]
    if kind == "ekfac":
        return ["linear", "mlp", "mlp3", "seq", "par"]
    if kind in ("explicit", "cg", "lissa"):
        return ["linear", "mlp", "conv", "buf", "emb"]
    if kind == "arnoldi":
        return ["linear"]
    if kind in ("datainf",):
        return ["linear", "mlp", "mlp3", "conv", "emb"]
    if kind == "rps":
        return ["mlp", "mlp3"]
    if kind == "dvemb":
        return ["linear", "mlp"]
    return ["linear", "mlp", "mlp3", "norm", "conv", "buf", "par"] + (["emb"] if kind != "knn" else [])


def spec(rng, kind, maxcheck=2, fmts=("tuple", "list", "dict")):
    if kind in ("ekfac", "dvemb", "rps"):
        maxcheck = 1 if kind != "rps" else maxcheck
    loss = rng.choice(["ce", "mse"])
    if kind in ("trak",):
        loss = "ce"
    if kind in ("rps", "knn"):
        loss = "ce"
    if kind == "arnoldi":
        loss = "mse"
    tgt = None
    if kind not in ("rps", "knn", "dvemb") and rng.random() < 0.4:
        tgt = rng.choice(["margin", "logit"]) if loss == "ce" else "outsum"
    fm = [f for f in fmts if f != "dict" or kind in DICT]
    if kind in ("rps", "dvemb"):
        fm = [f for f in fm if f != "dict"]
    return dict(kind=rng.choice(net_kinds(kind)), d=rng.randint(2, 4), h=rng.randint(2, 3), k=rng.randint(2, 3), n=rng.randint(4, 11),
                m=rng.randint(2, 6), ncheck=rng.randint(1, maxcheck) if kind not in ("ekfac", "dvemb") else 1, bias=rng.random() < 0.7,
                frozen=False, loss=loss, target=tgt, fmt=rng.choice(fm or ["tuple"]), dtype="float64", seed=rng.randrange(2**31))


def config(rng, kind):
    return dict(reg=rng.choice([0.05, 0.3, 1.0]), mode=rng.choice(["rev-rev", "rev-fwd"]), iters=rng.choice([2, 40]), depth=rng.choice([1, 3]),
                rep=rng.choice([1, 2]), pd=rng.randint(2, 8), ptype=rng.choice(["normal", "rademacher", "identity"]), pseed=rng.choice([0, 7]),
                lay=rng.randrange(10**6), w=[round(rng.uniform(0.2, 2), 2) for _ in range(4)], hess=rng.choice(["eFIM", "Identity"]),
                offload=rng.choice(["none", "cpu", "disk"]), chunk=rng.choice([1, 2, 16]), comp=kind, k=rng.choice([4, 9]), blow=rng.choice([1, 4]),
                t1="normal", relatif=rng.choice([None, None, "l", "theta"]) if kind in RELATIF else None, knn=rng.randint(1, 5),
                epoch=2000, normp=rng.random() < 0.4, fact=rng.choice([None, "kronecker", "elementwise"]))


class RPSProblem(Problem):
    def loss_func(self):
        return lambda a, b: F.cross_entropy(a, b)

    def target_func(self):
        return None

    def linear(self):
        return [n for n, mod in self.model.named_modules() if isinstance(mod, nn.Linear)][-1]


class DVProblem(Problem):
    eloss = False

    def loss_func(self):
        if not self.eloss:
            return super().loss_func()

        def f(model, data, device):
            x, y = self._unpack(data)
            return self._loss(self.spec["loss"], model(x.to(device)), y.to(device))
        return f


def problem(kind, sp):
    if kind in BLOCK:
        return block.BProblem(sp)
    if kind == "rps":
        return RPSProblem(sp)
    if kind == "dvemb":
        return DVProblem(sp)
    return Problem(sp)


def loader(P, which, idx, bs, via="sampler", fmt=None, keep=None, collate=None):
    """Loader yielding exactly the samples idx in that order; via: 'sampler' over the whole set or a 'dataset' of just these."""
    fmt = fmt or P.spec["fmt"]
    fn = collate or COLLATE.get(fmt)
    if fmt == "dictr":      # keys in another order
        fmt, fn = "dict", lambda b: dict(reversed(COLLATE["dict"](b).items()))
    elif fmt == "dictx":    # a key the loss does not look at
        fmt, fn = "dict", lambda b: dict(id=torch.arange(len(b)), **COLLATE["dict"](b))
    if keep is not None:
        base = fn

        def fn(b):
            out = base(b)
            keep.append((out, [(k, v, v.clone()) for k, v in (out.items() if isinstance(out, dict) else enumerate(out))], type(out)))
            return out
    if via == "sampler":
        return DataLoader(P.dataset(which, fmt=fmt), batch_size=bs, sampler=FixedSampler(idx), collate_fn=fn)
    return DataLoader(P.dataset(which, idx=list(idx), fmt=fmt), batch_size=bs, shuffle=False, collate_fn=fn)


class Adapter:
    def __init__(self, kind, P, cfg, task=None, fmt=None, keep=None):
        self.kind, self.P, self.cfg, self.keep, self.fmt = kind, P, cfg, keep, fmt or P.spec["fmt"]
        self.task = task if task is not None else P.task()
        rng = random.Random(cfg["lay"])
        c = cfg
        self.cached = None
        nck = len(P.states)
        if kind in GRAD:
            layers = P.pick_layers(rng)
            if kind in ("datainf",) and layers:
                layers = [n for n in P.pnames if n in layers]
            self.layers = layers
        if kind in ("explicit", "cg", "lissa", "arnoldi", "datainf", "ekfac"):
            import dattri.algorithm.influence_function as IF
        if kind == "explicit":
            # damped so that the (possibly indefinite) Hessian is safely invertible
            self.att = IF.IFAttributorExplicit(self.task, layer_name=layers, regularization=self._reg(layers))
        elif kind == "cg":
            self.att = IF.IFAttributorCG(self.task, layer_name=layers, max_iter=c["iters"], tol=1e-9, mode=c["mode"], regularization=self._reg(layers))
        elif kind == "lissa":
            top = max(float(torch.linalg.eigvalsh(P.hessian(k, layers)).abs().max()) for k in range(nck)) + 1e-3
            self.att = IF.IFAttributorLiSSA(self.task, layer_name=layers, batch_size=P.spec["n"] + 3, num_repeat=c["rep"], recursion_depth=c["depth"],
                                            damping=0.1, scaling=4.0 * top, mode=c["mode"])
        elif kind == "arnoldi":
            npar = P.grads(0, layers=layers).shape[1]
            self.att = IF.IFAttributorArnoldi(self.task, layer_name=layers, proj_dim=npar, max_iter=npar + 2, regularization=self._reg(layers), seed=c["pseed"])
        elif kind == "datainf":
            self.att = IF.IFAttributorDataInf(self.task, layer_name=layers, regularization=c["reg"])
        elif kind == "ekfac":
            self.att = IF.IFAttributorEKFAC(self.task, damping=c["reg"])
        elif kind in ("tracin", "graddot", "gradcos"):
            from dattri.algorithm.tracin import TracInAttributor
            from dattri.params.projection import TracInProjectionParams
            pp = TracInProjectionParams(proj_dim=c["pd"], proj_type=c["ptype"], proj_seed=c["pseed"]) if kind == "tracin" else \
                TracInProjectionParams(proj_dim=8, proj_type="identity")
            self.att = TracInAttributor(self.task, weight_list=c["w"][:nck], normalized_grad=kind == "gradcos" or c["normp"], proj_params=pp,
                                        layer_name=layers)
        elif kind == "trak":
            from dattri.algorithm.trak import TRAKAttributor
            from dattri.params.projection import TRAKProjectionParams
            from checks.p08 import prob_func
            self.att = TRAKAttributor(self.task, prob_func(P), proj_params=TRAKProjectionParams(proj_dim=c["pd"], proj_type=c["ptype"], proj_seed=c["pseed"]),
                                      layer_name=layers, regularization=c["reg"])
        elif kind in BLOCK:
            from checks.p12 import build
            cc = dict(c, comp={"blockid": "identity", "blockgen": "generic"}.get(kind, kind), damping=c["reg"])
            real, P.task = P.task, lambda: self.task
            cdir = os.path.abspath(f"store{random.randrange(10**9)}") if c["offload"] == "disk" else None
            try:
                self.att, _ = build(P, cc, rng, cache_dir=cdir)
            finally:
                P.task = real
        elif kind == "rps":
            from dattri.algorithm.rps import RPSAttributor
            self.att = RPSAttributor(self.task, final_linear_layer_name=P.linear(), normalize_preactivate=c["normp"], l2_strength=0.05, epoch=c["epoch"])
        elif kind == "knn":
            from dattri.algorithm.data_shapley import KNNShapleyAttributor
            self.att = KNNShapleyAttributor(c["knn"])
        elif kind == "dvemb":
            from dattri.algorithm.dvemb import DVEmbAttributor
            self.P.eloss = c["fact"] is not None
            self.task = task if task is not None else P.task()
            kw = {} if c["fact"] is None else dict(factorization_type=c["fact"])
            self.att = DVEmbAttributor(self.task, **kw)
            self.task.get_param(ckpt_idx=0)
            self._train()
        else:
            raise ValueError(kind)

    def _reg(self, layers):
        lam = max(0.0, -min(float(torch.linalg.eigvalsh(self.P.hessian(k, layers)).min()) for k in range(len(self.P.states))))
        return 1.5 * lam + self.cfg["reg"]

    def _train(self):
        """DVEmb observes a short SGD run; its per-sample results are fixed from then on."""
        P = self.P
        rng = random.Random(self.cfg["lay"] + 1)
        for e in range(2):
            order = list(range(P.spec["n"]))
            rng.shuffle(order)
            for s in range(0, len(order), 3):
                idx = torch.tensor(order[s:s + 3])
                self.att.cache_gradients(e, (P.x[idx], P.y[idx]), idx, 0.1)
        self.att.cache()

    def _ld(self, which, idx, bs, via="sampler"):
        return loader(self.P, which, idx, bs, via, self.fmt, self.keep)

    def cache(self, idx, bs=None, via="sampler"):
        """cache; attributors whose statistics come from single batches get one full batch."""
        self.cached = list(idx)
        if self.kind in NO_CACHE or self.kind == "dvemb":
            return
        if self.kind in FULL_BATCH or bs is None:
            bs = len(idx)
        self.att.cache(self._ld("train", idx, bs, via))

    def scores(self, tr, bs, te, tbs, via="sampler", test="test"):
        k = self.kind
        lte = self._ld(test, te, tbs, via)
        if k == "trak" and self.cached is not None:
            return self.att.attribute(lte)[[self.cached.index(i) for i in tr]]
        if k == "trak":
            return self.att.attribute(lte, self._ld("train", tr, bs, via))
        if k == "dvemb":
            out = self.att.attribute(lte)
            return out[list(tr)]
        ltr = self._ld("train", tr, bs, via)
        if k == "knn":
            return self.att.attribute(ltr, lte).T
        if k in RELATIF and self.cfg["relatif"]:
            return self.att.attribute(ltr, lte, relatif_method=self.cfg["relatif"])
        return self.att.attribute(ltr, lte)

    def selfs(self, tr, bs, via="sampler"):
        k = self.kind
        if k in ("rps", "knn", "dvemb"):
            return None
        if k in BLOCK:
            return self.att.compute_self_attribution()[[self.cached.index(i) for i in tr]] if self.cached is not None else None
        if k == "trak" and self.cached is not None:
            return self.att.self_attribute()[[self.cached.index(i) for i in tr]]
        ltr = self._ld("train", tr, bs, via)
        if k in RELATIF and self.cfg["relatif"]:
            return self.att.self_attribute(ltr, relatif_method=self.cfg["relatif"])
        return self.att.self_attribute(ltr)


TOL = {"knn": 1e-6, "rps": 1e-5, "blockid": 1e-3, "logra": 1e-3, "factgrass": 1e-3, "blockgen": 1e-3, "arnoldi": 1e-4, "cg": 1e-5}


def tol(kind):
    return TOL.get(kind, 2e-5)
