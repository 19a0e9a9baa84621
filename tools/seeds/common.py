import sys; sys.path.insert(0, "/verif/tools")
from seed import new
COMMON = '''
import torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
import torch.nn.functional as F
torch.manual_seed(0)
def close(a, b, tol=1e-3):
    assert a.shape == b.shape, (a.shape, b.shape)
    e = float((a - b).abs().max() / b.abs().max())
    assert e < tol, e
def net():
    return nn.Sequential(nn.Linear(4, 3), nn.Tanh(), nn.Linear(3, 3))
def ce(model):
    def f(params, data):
        x, y = data
        return F.cross_entropy(torch.func.functional_call(model, params, (x,)), y)
    return f
def data(n, bs, seed=0):
    g = torch.Generator().manual_seed(seed)
    ds = TensorDataset(torch.randn(n, 4, generator=g), torch.randint(0, 3, (n,), generator=g))
    return DataLoader(ds, batch_size=bs)
def ckpts(k):
    out = []
    for i in range(k):
        torch.manual_seed(i + 1)
        out.append(net().state_dict())
    return out
def grads(sd, ld, names=None):
    m = net(); m.load_state_dict(sd)
    out = []
    for x, y in zip(*ld.dataset.tensors):
        ps = [p for n, p in m.named_parameters() if names is None or n in names]
        g = torch.autograd.grad(F.cross_entropy(m(x[None]), y[None]), ps)
        out.append(torch.cat([t.flatten() for t in g]))
    return torch.stack(out)
'''
