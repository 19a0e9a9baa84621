from common import *
import re
def src(f): return open('/repo/' + f).read()
F = "dattri/algorithm/influence_function.py"
s = src(F)
a = s.index('        if relatif_method == "l":'); b = s.index("class IFAttributorCG")
blk = s[a:b + 20]
new("relatif-l-floor", "P01",
    [(F, blk, blk.replace(".clamp_min(1e-12).sqrt()", ".clamp_min(1e-6).sqrt()", 1))],
    "well-fitted training samples, whose self-influence g^T H^-1 g is below 1e-6",
    "RelatIF (l) divides by the floor instead of the sample's self-influence",
    COMMON + '''
import warnings; warnings.simplefilter("ignore")
from dattri.algorithm.influence_function import IFAttributorExplicit
from dattri.task import AttributionTask
m = nn.Linear(4, 1, bias=False).double()
sd = m.state_dict()
g = torch.Generator().manual_seed(0)
x = torch.randn(12, 4, generator=g).double()
xt = torch.randn(3, 4, generator=g).double()
noise = torch.randn(12, 1, generator=g).double()
def loss(params, data):
    x, y = data
    return F.mse_loss(torch.func.functional_call(m, params, (x,)), y)
def rel(eps):
    y = x @ sd["weight"].T + eps * noise
    yt = xt @ sd["weight"].T + 1
    task = AttributionTask(loss_func=loss, model=m, checkpoints=sd)
    tr = DataLoader(TensorDataset(x, y), batch_size=12)
    te = DataLoader(TensorDataset(xt, yt), batch_size=3)
    a = IFAttributorExplicit(task, regularization=1e-3)
    a.cache(tr)
    return a.attribute(tr, te, relatif_method="l")
# the normalised score of a residual eps * r does not depend on eps
a, b = rel(1.0), rel(1e-4)
close(b.double(), a.double(), 1e-2)
''')
T = "from dattri.task import AttributionTask\n"
t = src("dattri/algorithm/tracin.py")
new("tracin-cosine-floor", "P07",
    [("dattri/algorithm/tracin.py", "@ normalize(test_batch_grad).T\n", "@ normalize(test_batch_grad, eps=1e-3).T\n")],
    "test samples whose gradient norm is below 1e-3 (confidently predicted ones)",
    "the normalised (Grad-Cos) score of these samples is not a cosine any more",
    COMMON + T + '''
from dattri.algorithm.tracin import TracInAttributor
m = net()
def f(params, data):
    x, y = data
    return 1e-5 * F.cross_entropy(torch.func.functional_call(m, params, (x.unsqueeze(0) if x.dim() == 1 else x,)), y.unsqueeze(0) if y.dim() == 0 else y)
task = AttributionTask(loss_func=f, model=m, checkpoints=ckpts(1)[0])
a = TracInAttributor(task, weight_list=torch.ones(1), normalized_grad=True)
d = data(6, 3)
s = a.attribute(d, d)
assert torch.allclose(s.diagonal(), torch.ones(6), atol=1e-3), s.diagonal()
''')
new("chunks-lose-single-parameter", "P24",
    [("dattri/func/utils.py", "    # Add the final chunk if it has any params\n    if chunk_sum > 0:", "    # Add the final chunk if it has any params\n    if chunk_sum > 1:")],
    "a parameter list whose last chunk holds exactly one scalar",
    "the last parameter is in no chunk; the chunks do not add up to the total",
    '''
from dattri.func.utils import get_parameter_chunk_sizes
bs = 2**20
limit, _ = get_parameter_chunk_sizes([1], bs)
_, chunks = get_parameter_chunk_sizes([limit - 2, 1, 1], bs)
assert sum(chunks) == limit, (limit, chunks)
''')
new("projector-repeats-blocks", "P23",
    [("dattri/func/projection.py", "            s = self.seed + int(1e3) * i + int(1e5) * self.ensemble_id", "            s = self.seed + int(1e3) * (i % 4) + int(1e5) * self.ensemble_id")],
    "a projection dimension of more than four blocks (400 columns)",
    "columns repeat, so the coordinates of a projected vector are not uncorrelated",
    '''
import torch
from dattri.func.projection import BasicProjector, ProjectionType
p = BasicProjector(30, 450, 0, ProjectionType.normal, torch.device("cpu"))
out = p.project(torch.randn(5, 30), 0)
assert not torch.equal(out[:, :50], out[:, 400:450])
''')
new("projector-forgets-earlier-ensemble", "P22",
    [("dattri/func/projection.py", "        if ensemble_id != self.ensemble_id:\n            self.ensemble_id = ensemble_id\n            self.get_generator_states()",
      "        if ensemble_id > self.ensemble_id:\n            self.ensemble_id = ensemble_id\n            self.get_generator_states()")],
    "a projector used for a later ensemble member and then again for an earlier one",
    "the map of an ensemble member depends on the order in which members are used",
    '''
import torch
from dattri.func.projection import BasicProjector, ProjectionType
x = torch.randn(3, 20)
p = BasicProjector(20, 6, 0, ProjectionType.normal, torch.device("cpu"))
a = p.project(x, 0)
p.project(x, 2)
assert torch.equal(p.project(x, 0), a)
''')
new("cpu-loader-range-inclusive", "P13",
    [("dattri/algorithm/block_projected_if/offload/cpu.py", "if start_batch <= idx < end_batch", "if start_batch <= idx <= end_batch")],
    "host-memory offloading with a batch range that ends before the last batch",
    "a worker's share of the batches overlaps the next worker's; disk and memory offloading do not agree with it",
    '''
import torch
from dattri.algorithm.block_projected_if.offload import create_offload_manager
ms = {}
for kind in ("none", "cpu"):
    m = create_offload_manager(offload_type=kind, device="cpu", layer_names=["a"], cache_dir=None)
    for i in range(4):
        m.store_gradients(i, [torch.full((2, 3), float(i))])
    dl = m.create_gradient_dataloader("gradients", batch_size=1, pin_memory=False, batch_range=(1, 3))
    ms[kind] = sorted(k for _, mp in dl for k in mp)
assert ms["cpu"] == ms["none"] == [1, 2], ms
''')
new("ifvp-regularization-floor", "P21",
    [("dattri/func/fisher.py", "            fim + torch.eye(grad_tensor.shape[0]).to(v.device) * regularization,", "            fim\n            + torch.eye(grad_tensor.shape[0]).to(v.device) * max(regularization, 1e-6),")],
    "a regularization below 1e-6",
    "the inverse-Fisher product at a point uses a larger regularization than the one given",
    '''
import torch
from dattri.func.fisher import ifvp_at_x_explicit
w = torch.tensor([0.3, -0.2, 0.5], dtype=torch.float64)
f = lambda t: (t ** 3).sum() * 1e-4
g = 3e-4 * w ** 2
v = torch.tensor([1.0, 2.0, -1.0], dtype=torch.float64)
got = ifvp_at_x_explicit(f, w, regularization=1e-8)(v)
want = torch.linalg.solve(torch.outer(g, g) + 1e-8 * torch.eye(3).double(), v)
assert torch.allclose(got, want, rtol=1e-4), (got, want)
''')
