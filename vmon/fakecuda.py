"""Run the CUDA branches on a machine without a GPU: inside `fake_cuda()` every request for a
cuda tensor or generator yields a CPU one, and the optional `sjlt` kernel package is replaced
by a reference implementation of its documented map.  The code under test is unchanged."""
import contextlib, sys, types
import torch
from torch.overrides import TorchFunctionMode


def _cpu(d):
    if isinstance(d, torch.device) and d.type == "cuda":
        return torch.device("cpu")
    if isinstance(d, str) and d.startswith("cuda"):
        return "cpu"
    return d


class _Redirect(TorchFunctionMode):
    def __init__(self, log):
        super().__init__()
        self.log = log

    def __torch_function__(self, func, types_, args=(), kwargs=None):
        kwargs = dict(kwargs or {})
        if func is torch.device:
            return func(*args, **kwargs)
        if "device" in kwargs:
            d = _cpu(kwargs["device"])
            if d is not kwargs["device"]:
                self.log["redirected"] = self.log.get("redirected", 0) + 1
            kwargs["device"] = d
        args = tuple(_cpu(a) if isinstance(a, (torch.device, str)) else a for a in args)
        return func(*args, **kwargs)


class _Generator(torch.Generator):
    def __new__(cls, device="cpu"):
        return super().__new__(cls, device=_cpu(device))


class SJLTProjection(torch.nn.Module):
    """y[idx[i,j]] += sign[i,j] * x[i] / sqrt(c)"""

    def __init__(self, original_dim, proj_dim, c=1, threads=1024, fixed_blocks=84, device="cuda"):
        super().__init__()
        self.original_dim, self.proj_dim, self.c = original_dim, proj_dim, c
        self.register_buffer("rand_indices", torch.randint(proj_dim, (original_dim, c)))
        self.register_buffer("rand_signs", (torch.randint(0, 2, (original_dim, c)) * 2 - 1).to(torch.int8))

    def forward(self, x):
        if x.shape[1] != self.original_dim:
            raise ValueError("sjlt: wrong input dimension")
        y = torch.zeros(x.shape[0], self.proj_dim, dtype=x.dtype)
        for j in range(self.c):
            y.index_add_(1, self.rand_indices[:, j], x * self.rand_signs[:, j].to(x.dtype))
        return y / self.c ** 0.5


@contextlib.contextmanager
def fake_cuda():
    log = {}
    gen, mod = torch.Generator, sys.modules.get("sjlt")
    fake = types.ModuleType("sjlt")
    fake.SJLTProjection = SJLTProjection
    sys.modules["sjlt"] = fake
    torch.Generator = _Generator
    try:
        with _Redirect(log):
            yield log
    finally:
        torch.Generator = gen
        if mod is None:
            del sys.modules["sjlt"]
        else:
            sys.modules["sjlt"] = mod
