from common import *
import os
R = os.environ.get("SEED_BASE", "/repo")
def src(f): return open(f"{R}/{f}").read()
H = "dattri/func/hessian.py"
T = "from dattri.task import AttributionTask\n"
t = src("dattri/task.py")
a = t.index("            self.model = self.checkpoints_load_func("); b = t.index("            self.current_checkpoint_idx = ckpt_idx\n")
load = t[a:b]
line = "            self.current_checkpoint_idx = ckpt_idx\n"
new("checkpoint-marked-loaded-early", "P39",
    [("dattri/task.py", load + line, line + load)],
    "a checkpoint whose loading fails once (a storage hiccup), and is asked for again",
    "the failed checkpoint is taken for loaded: its gradients are those of the checkpoint loaded before",
    COMMON + T + '''
m = net()
cs = ckpts(2)
fail = [True]
def load(model, c):
    if c is cs[1] and fail.pop() if fail else False:
        raise OSError("storage hiccup")
    model.load_state_dict(c)
    return model
task = AttributionTask(loss_func=ce(m), model=m, checkpoints=cs, checkpoints_load_func=load)
task.get_param(0)
try:
    task.get_param(1)
except OSError:
    pass
else:
    raise AssertionError("no fault")
got, _ = task.get_param(1)
assert torch.equal(got, torch.cat([cs[1][k].flatten() for k in cs[1]])), "parameters of the wrong checkpoint"
''')
new("truncated-chunk-wraps-around", "P27",
    [("dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py", "                data = data.reshape(shape)\n", "                data = np.resize(data, shape)\n")],
    "a chunk file cut short on disk (full disk, interrupted copy)",
    "the missing rows are filled with copies of the first ones instead of an error",
    '''
import os, tempfile, torch
from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import ChunkedMemoryMapHandler as H
with tempfile.TemporaryDirectory() as d:
    t = torch.arange(24.).reshape(6, 4)
    name = H.write_chunk(d, "gradients", t, [dict(batch_idx=i, start_row=2 * i, end_row=2 * i + 2) for i in range(3)], [4])
    p = os.path.join(d, name + ".mmap")
    assert torch.equal(H.load_chunk_tensor(d, name)[0], t)
    os.truncate(p, os.path.getsize(p) // 2)
    try:
        got = H.load_chunk_tensor(d, name)[0]
    except Exception:
        pass
    else:
        raise AssertionError(got)
''')
new("arnoldi-signed-eigenvalue-order", "P20",
    [(H, "        idx = torch.argsort(torch.abs(eigvals))\n", "        idx = torch.argsort(eigvals)\n")],
    "an indefinite Hessian (a model that is not at a minimum) with a dominant negative eigenvalue, and fewer eigenpairs than Krylov dimensions",
    "the eigenpairs kept are not those of the largest magnitude",
    '''
import torch
from dattri.func.hessian import ihvp_at_x_arnoldi
torch.manual_seed(0)
d = torch.tensor([-9.0, -0.1, 0.2, 0.3, 4.0], dtype=torch.float64)
x = torch.randn(5, dtype=torch.float64)
f = lambda t: 0.5 * (d * t * t).sum()
v = torch.ones(5, dtype=torch.float64)
got = ihvp_at_x_arnoldi(f, x, max_iter=20, top_k=2, regularization=0.0)(v)
want = torch.zeros(1, 5, dtype=torch.float64); want[0, 0] = -1 / 9; want[0, 4] = 1 / 4
assert torch.allclose(got, want, atol=1e-4), (got, want)
''')
new("cg-stops-at-dimension", "P02",
    [(H, "            for _ in range(max_iter):\n                # vmap", "            for _ in range(min(max_iter, v_i.shape[0])):\n                # vmap")],
    "an ill-conditioned Hessian in single precision, on which the method needs more iterations than it has dimensions",
    "the solver returns far from the solution although more iterations were allowed",
    '''
import torch
from dattri.func.hessian import ihvp_at_x_cg
n = 8
i = torch.arange(n, dtype=torch.float64)
Hm = 1 / (i[:, None] + i[None, :] + 1)
Hm = Hm + 1e-4 * torch.eye(n)
H32 = Hm.float()
x = torch.zeros(n)
f = lambda t: 0.5 * t @ H32 @ t
v = torch.tensor([1., -1., 1., -1., 1., -1., 1., -1.])
got = ihvp_at_x_cg(f, x, max_iter=200, tol=1e-9)(v)[0].double()
res = (Hm @ got - v.double()).norm() / v.double().norm()
assert res < 2e-2, res
''')
new("lissa-repeats-warm-started", "P03",
    [(H, "            for _ in range(num_repeat):\n                curr_estimate = vec.detach().clone()  # No gradient on v\n                for _ in range(recursion_depth):\n                    sampled_input = _sample_random_batch(\n                        *x,\n                        batch_size=batch_size,\n                        num_samples=num_samples,\n                        in_dims=in_dims,\n                    )\n                    if collate_fn",
      "            curr_estimate = vec.detach().clone()  # No gradient on v\n            for _ in range(num_repeat):\n                for _ in range(recursion_depth):\n                    sampled_input = _sample_random_batch(\n                        *x,\n                        batch_size=batch_size,\n                        num_samples=num_samples,\n                        in_dims=in_dims,\n                    )\n                    if collate_fn")],
    "more than one repetition, with a recursion too short to have converged",
    "the repetitions are not independent estimates of the given depth",
    '''
import torch
from dattri.func.hessian import ihvp_lissa
h = torch.tensor([0.5, 2.0, 1.0], dtype=torch.float64)
x = torch.ones(3, dtype=torch.float64)
f = lambda t, s: 0.5 * (h * t * t).sum() + 0 * s.sum()
v = torch.tensor([1.0, -2.0, 3.0], dtype=torch.float64)
args = dict(argnums=0, num_repeat=4, recursion_depth=3, scaling=10.0, batch_size=1)
fn = ihvp_lissa(f, **args)
got = fn((x, torch.ones(5, 1, dtype=torch.float64)), v, in_dims=(None, 0))
e = v.clone()
for _ in range(3):
    e = v + e - h * e / 10.0
assert torch.allclose(got[0], e / 10.0), (got, e / 10.0)
''')
new("chunk-range-assumes-contiguous", "P26",
    [("dattri/algorithm/block_projected_if/offload/disk_io/memory_map.py", "                filtered_tensor = tensor[valid_rows]\n", "                filtered_tensor = tensor[valid_rows[0] : valid_rows[0] + new_offset]\n")],
    "batches stored in an order other than their index, read back by a range that leaves out one between two others",
    "rows of the batch left out are returned as those of a batch asked for",
    '''
import tempfile, torch
from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import ChunkedMemoryMapHandler as H
with tempfile.TemporaryDirectory() as d:
    order = [2, 0, 1, 3]
    t = torch.tensor([[float(b)] * 4 for b in order for _ in range(2)])
    name = H.write_chunk(d, "gradients", t, [dict(batch_idx=b, start_row=2 * i, end_row=2 * i + 2) for i, b in enumerate(order)], [4])
    got, mp = H.load_chunk_batch_range(d, name, (1, 3))
    for b, (s, e) in mp.items():
        assert (got[s:e] == b).all(), (b, got, mp)
''')
new("scores-sized-by-dataset", "P14",
    [("dattri/algorithm/base.py", "            size=(len(train_dataloader.sampler), len(test_dataloader.sampler)),\n            device=self.device,\n        )\n\n        # TODO: sometimes",
      "            size=(len(train_dataloader.dataset), len(test_dataloader.dataset)),\n            device=self.device,\n        )\n\n        # TODO: sometimes")],
    "a loader that visits part of its dataset through a sampler",
    "the score matrix has rows or columns of zeros that belong to no sample of the loader",
    COMMON + T + '''
from dattri.algorithm.influence_function import IFAttributorExplicit
from torch.utils.data import SubsetRandomSampler, Sampler
class Take(Sampler):
    def __init__(self, idx): self.idx = idx
    def __iter__(self): return iter(self.idx)
    def __len__(self): return len(self.idx)
m = net()
task = AttributionTask(loss_func=ce(m), model=m, checkpoints=ckpts(1)[0])
full = data(8, 8)
a = IFAttributorExplicit(task, regularization=1e-2)
a.cache(full)
part = DataLoader(full.dataset, batch_size=2, sampler=Take([5, 1, 2]))
s = a.attribute(part, data(4, 2, 1))
assert tuple(s.shape) == (3, 4), s.shape
''')
new("arnoldi-norm-constant-once", "P20",
    [(H, "torch.dot(h_vec, proj_vec) / norm_constant**2", "torch.dot(h_vec, proj_vec) / norm_constant")],
    "a norm constant other than one, as is advised for models with many parameters",
    "the basis is not orthogonal and the eigenvalues are off by the constant",
    '''
import torch
from dattri.func.hessian import ihvp_at_x_arnoldi
torch.manual_seed(0)
d = torch.tensor([1.0, 2.0, 3.0, 4.0], dtype=torch.float64)
f = lambda t: 0.5 * (d * t * t).sum()
v = torch.ones(4, dtype=torch.float64)
got = ihvp_at_x_arnoldi(f, torch.zeros(4, dtype=torch.float64), max_iter=20, top_k=4, norm_constant=3.0)(v)
assert torch.allclose(got[0], v / d, atol=1e-4), got
''')
