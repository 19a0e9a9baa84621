"""Snapshot of everything the caller of an attributor owns, compared after every call."""
import os
import torch

HOOKS = ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks", "_backward_pre_hooks", "_state_dict_hooks", "_load_state_dict_pre_hooks")


def tensors(sd):
    return [(k, id(v), v.clone(), v.requires_grad) for k, v in sd.items()]


class Watch:
    def __init__(self, m, P, cks):
        self.m, self.P, self.cks, self.model = m, P, cks, P.model
        self.ck = [tensors(c) for c in cks]
        self.data = [t.clone() for t in (P.x, P.y, P.xt, P.yt)]
        self.mods = [(n, id(x), type(x), set(x.__dict__), x.__dict__.get("forward"), [len(getattr(x, h)) for h in HOOKS]) for n, x in P.model.named_modules()]
        self.flags = [(n, x.training) for n, x in P.model.named_modules()]
        self.par = [(n, id(p), p.requires_grad, tuple(p.shape), p.dtype, None if p.grad is None else p.grad.clone()) for n, p in P.model.named_parameters()]
        self.buf = [n for n, _ in P.model.named_buffers()]
        self.glob = self.globals()
        self.files = set(os.listdir("."))
        m.ev("snapshots")

    @staticmethod
    def globals():
        return (torch.is_grad_enabled(), torch.get_default_dtype(), torch.are_deterministic_algorithms_enabled(), torch.is_inference_mode_enabled(),
                os.getcwd(), torch.get_num_threads(), torch.is_anomaly_enabled())

    def check(self, what, keep, weights=True, grads=True):
        m, P = self.m, self.P
        for i, (c, old) in enumerate(zip(self.cks, self.ck)):
            m.check("checkpoint keys", [k for k in c] == [o[0] for o in old], f"{what}: checkpoint {i} keys {list(c)}")
            for (k, ident, v, rg), w in zip(old, c.values()):
                m.check("checkpoint tensor", id(w) == ident and w.requires_grad == rg and torch.equal(w, v), f"{what}: checkpoint {i} entry {k}")
        for nm, a, b in zip(("x", "y", "xt", "yt"), (P.x, P.y, P.xt, P.yt), self.data):
            m.check("dataset", torch.equal(a, b), f"{what}: dataset {nm} changed")
        for out, old, ty in keep:
            m.ev("batches")
            items = list(out.items()) if isinstance(out, dict) else list(enumerate(out))
            m.check("batch", type(out) is ty and len(items) == len(old) and all(k == k2 and v is v2 and torch.equal(v, vc)
                                                                              for (k, v), (k2, v2, vc) in zip(items, old)),
                    f"{what}: a batch the loader yielded was changed ({ty.__name__})")
        del keep[:]
        now = [(n, id(x), type(x), set(x.__dict__), x.__dict__.get("forward"), [len(getattr(x, h)) for h in HOOKS]) for n, x in self.model.named_modules()]
        for a, b in zip(self.mods, now):
            m.ev("hooks_checked", len(HOOKS))
            m.check("modules", a[:3] == b[:3], f"{what}: module {a[0]} became {b[:3]}")
            m.check("instance attributes", a[3] == b[3], f"{what}: module {a[0]!r} has attributes {sorted(a[3] ^ b[3])} more or less")
            m.check("forward patched", a[4] == b[4], f"{what}: forward of {a[0]!r} is still patched")
            m.check("hooks", a[5] == b[5], f"{what}: hooks on {a[0]!r} {dict(zip(HOOKS, b[5]))}")
        m.check("module count", len(self.mods) == len(now), what)
        par = list(self.model.named_parameters())
        m.check("parameter names", [p[0] for p in par] == [p[0] for p in self.par], f"{what}: {[p[0] for p in par]}")
        for (n, p), (_, ident, rg, sh, dt, g) in zip(par, self.par):
            m.check("parameter object", id(p) == ident and tuple(p.shape) == sh and p.dtype == dt, f"{what}: {n}")
            m.check("requires_grad", p.requires_grad == rg, f"{what}: {n} requires_grad={p.requires_grad}")
            # gradients the caller had accumulated may be cleared, foreign ones must not be left behind
            m.check("grad", not grads or p.grad is None or not p.grad.any() or (g is not None and torch.equal(p.grad, g)), f"{what}: .grad of {n} changed")
        m.check("buffers", [n for n, _ in self.model.named_buffers()] == self.buf, what)
        m.check("globals", self.globals() == self.glob, f"{what}: {self.globals()} was {self.glob}")
        new = {f for f in os.listdir(".") if f not in self.files and not f.startswith("store")}
        m.check("files", not new, f"{what}: left {sorted(new)} in the working directory")
        if weights:
            sd = self.model.state_dict()
            ok = any(all(torch.equal(sd[k], s[k]) for k in s) for s in P.states)
            m.check("weights", ok, f"{what}: the model holds none of the checkpoints")
        # loading a checkpoint may put the whole model into eval mode, nothing else
        fl = [(n, x.training) for n, x in self.model.named_modules()]
        m.check("training flags", fl == self.flags or not any(f for _, f in fl), f"{what}: training flags {fl}")
