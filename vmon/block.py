"""Workloads and oracle for the block-projected attributors (hook based gradient capture)."""
import os
import torch
from torch import nn
from vmon.workloads import Net, Problem

KINDS_B = ["linear", "mlp", "mlp3", "norm", "conv", "seq", "seq3", "par"]


def no_compile():
    """Compressor.forward is torch.compile'd; the bulk of the workload runs it eagerly (must precede dattri imports)."""
    os.environ["TORCHDYNAMO_DISABLE"] = "1"


def with_compile():
    """Undo no_compile in this process, with fresh dattri modules."""
    import sys
    os.environ.pop("TORCHDYNAMO_DISABLE", None)
    import torch._dynamo
    torch._dynamo.config.disable = False
    for n in [n for n in sys.modules if n.split(".")[0] == "dattri"]:
        del sys.modules[n]


class HookNet(Net):
    """Net that also accepts dictionary batches the way HF models do, plus a net whose hidden linears see sequences."""

    def __init__(self, kind, d, h, k, bias=True, frozen=False):
        kind, _, extra = kind.partition("+")
        self.extra = extra
        if kind != "seq3":
            super().__init__(kind, d, h, k, bias, frozen)
            self.extra = extra
            if extra:  # "+aux": a layer no forward pass runs; "+gate": one that only some inputs go through
                self.side = nn.Linear(d, k, bias=bias)
            return
        nn.Module.__init__(self)
        self.kind, self.scale = kind, None
        self.emb = nn.Linear(2, h, bias=bias)
        self.mix = nn.Linear(d, d, bias=False)  # sees a transposed (non-contiguous) sequence
        self.out = nn.Linear(h, k)

    def forward(self, x, y=None):
        if self.kind != "seq3":
            out = super().forward(x)
            return out + self.side(x) if self.extra == "gate" and float(x[0, 0]) > 0 else out
        z = torch.tanh(self.emb(torch.stack([x, x.cos()], -1)))      # (b, d, h)
        z = self.mix(z.transpose(1, 2)).transpose(1, 2)              # (b, d, h)
        return self.out(torch.tanh(z)).mean(1)


class BProblem(Problem):
    """Problem whose model is a HookNet and whose loss has the f(model, batch, device) signature."""

    def __init__(self, spec):
        import vmon.workloads as W
        orig = W.Net
        W.Net = HookNet
        try:
            super().__init__(spec)
        finally:
            W.Net = orig
        if spec["kind"].endswith("+gate"):  # open on the first sample, from which the attributors set up their compression
            self.x[0, 0] = self.x[0, 0].abs() + 0.1

    def _plain(self, ckpt, dtype=torch.float64):
        s = self.spec
        net = HookNet(s["kind"], s["d"], s["h"], s["k"], s["bias"], s["frozen"]).to(dtype)
        net.load_state_dict({k: v.to(dtype) for k, v in self.states[ckpt].items()})
        return net.eval()

    def _f(self, kind):
        def f(model, batch, device):
            x, y = self._unpack(batch)
            x, y = x.to(device), y.to(device)
            out = model(x=x, y=y) if isinstance(batch, dict) else model(x)
            return self._loss(kind, out, y)
        return f

    def loss_func(self):
        return self._f(self.spec["loss"])

    def target_func(self):
        return None if self.spec["target"] is None else self._f(self.spec["target"])

    def linears(self):
        return [n for n, mod in self.model.named_modules() if isinstance(mod, nn.Linear)]

    def layer_grads(self, name, which="train", target=False, ckpt=0):
        """(n, out, in[+1]) per-sample gradient matrix of one linear layer, bias as last column."""
        net = self._plain(ckpt)
        mod = net.get_submodule(name)
        names = [name + ".weight"] + ([name + ".bias"] if mod.bias is not None else [])
        g = self.grads(ckpt, which, target, names)
        w = mod.weight.shape
        W = g[:, :w.numel()].reshape(-1, *w)
        if mod.bias is not None:
            W = torch.cat([W, g[:, w.numel():].unsqueeze(-1)], -1)
        return W


def probe(compressor, out_dim, in_dim, dtype=torch.float32, seq=False):
    """The compressor as a matrix (k, out*in), read by compressing every unit gradient e_a x e_b (as one 2-D or 3-D batch)."""
    b = out_dim * in_dim
    v1 = torch.eye(out_dim, dtype=dtype).repeat_interleave(in_dim, 0)
    v2 = torch.eye(in_dim, dtype=dtype).repeat(out_dim, 1)
    if seq:
        v1, v2 = v1.unsqueeze(1), v2.unsqueeze(1)
    with torch.no_grad():
        return (compressor.forward(v1, v2) / b).double().T


def oracle(P, mats, layers, hessian, damping, train="train", test="test", test_target=True, tidx=None, full=None):
    """Scores (n, m), self-influence (n,) and a magnitude scale from per-sample plain-autograd gradients.

    Also returns the worst condition number of the inverted (stored in float32) Fisher matrices.
    mats: per layer matrix C (k, out*in) or None (no compression); full: rows of the training data that were cached."""
    tot, mag, selfi, cond = 0, 0.0, 0, 1.0
    for n, C in zip(layers, mats):
        def comp(G):
            G = G.flatten(1)
            return G if C is None else G @ C.T
        gall = comp(P.layer_grads(n, "train"))
        g = gall if full is None else gall[full]
        t = comp(P.layer_grads(n, "test", test_target)) if test == "test" else gall
        if hessian == "eFIM":
            H = g.T @ g / len(g)
            dim = len(H)
            lam = (1e-5 if damping is None else damping) * torch.trace(H) / dim
            raw = P.layer_grads(n, "train").flatten(1).norm() * (1.0 if C is None else C.norm())
            if float(lam) <= 0 or float(torch.trace(H)) ** 0.5 * len(g) ** 0.5 <= 1e-6 * float(raw):
                # the compression cancels these gradients: what is left is rounding, amplified by a damping relative to it
                return None, None, None, None
            cond = max(cond, float(torch.linalg.matrix_norm(H, 2)) / float(lam))
            Hi = torch.linalg.inv(H + lam * torch.eye(dim, dtype=H.dtype))
        else:
            Hi = torch.eye(g.shape[1], dtype=g.dtype)
        tr = gall if tidx is None else gall[tidx]
        tot = tot + tr @ Hi @ t.T
        selfi = selfi + ((g @ Hi) * g).sum(1)
        mag = mag + float((gall @ Hi).norm(dim=1).max() * max(t.norm(dim=1).max(), gall.norm(dim=1).max()))
    return tot, selfi, mag, cond
