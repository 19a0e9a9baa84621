from common import *
IF = "dattri/algorithm/influence_function.py"
T = '''
from dattri.task import AttributionTask
'''
new("self-attribution-third-checkpoint", "P16",
    [("dattri/algorithm/base.py", "            # Multiply by current index to prepare for running average\n            tda_output *= checkpoint_idx\n",
      "            # Multiply by current index to prepare for running average\n            tda_output *= min(checkpoint_idx, 1)\n")],
    "self-attribution with an ensemble of three or more checkpoints",
    "the running average of self-influence loses weight of the earlier checkpoints from the third one on",
    COMMON + T + '''
from dattri.algorithm.influence_function import IFAttributorExplicit
m = net()
task = AttributionTask(ce(m), m, ckpts(3))
tr = data(7, 3)
a = IFAttributorExplicit(task, regularization=2.0); a.cache(data(7, 7))
b = IFAttributorExplicit(task, regularization=2.0); b.cache(data(7, 7))
close(a.self_attribute(tr), b.attribute(tr, tr).diagonal())
''')
new("knn-labels-by-dataset-position", "P10",
    [("dattri/algorithm/data_shapley.py", "                    train_labels.extend(train_batch_data[-1])\n",
      "                    train_labels.extend(\n                        train_dataloader.dataset[i][-1] for i in range(col_st, col_ed)\n                    )\n")],
    "a train loader that iterates over a subset of its dataset (sampler) while labels come from the batches",
    "training labels are taken by position in the dataset instead of from the yielded samples",
    COMMON + '''
from dattri.algorithm.data_shapley import KNNShapleyAttributor
from dattri.benchmark.utils import SubsetSampler
ds = data(12, 4).dataset
idx = [11, 3, 7, 5, 0, 9, 2]
te = data(4, 3, 1)
sub = TensorDataset(*[t[idx] for t in ds.tensors])
dist = lambda a, b: torch.cdist(a[0], b[0])
x = KNNShapleyAttributor(3, distance_func=dist).attribute(DataLoader(ds, batch_size=3, sampler=SubsetSampler(idx)), te)
y = KNNShapleyAttributor(3, distance_func=dist).attribute(DataLoader(sub, batch_size=3), te)
close(x, y)
''')
new("rps-line-search-gives-up-early", "P09",
    [("dattri/algorithm/utils.py", "    min_t = 1e-10\n", "    min_t = 1e-1\n")],
    "last-layer inputs of large magnitude (the step the line search needs is small)",
    "the last layer is re-fit with steps that overshoot, and the representer values are those of a non-optimal layer",
    COMMON + '''
from dattri.algorithm.utils import rps_finetune_theta
g = torch.Generator().manual_seed(0)
x = 10 * torch.randn(20, 3, generator=g)
y = torch.randn(20, 3, generator=g)
init = torch.randn(3, 3, generator=g)
soft = torch.softmax(y, 1)
def obj(t):
    return F.cross_entropy(x @ t.T, soft) + 0.05 * (t ** 2).sum()
t = rps_finetune_theta(x, y, init.clone(), F.cross_entropy, 0.05, 3000)
a, b = torch.func.grad(obj)(t).abs().mean(), torch.func.grad(obj)(init).abs().mean()
assert a < b / 50, (a, b)
''')
new("ekfac-long-sequences-skip-first-step", "P06",
    [("dattri/func/fisher.py", "            for ts in range(timesteps):\n", "            for ts in range(1, timesteps):\n")],
    "sequence inputs with more than ten steps (the memory-efficient branch)",
    "the corrected eigenvalues miss the gradient of the first step",
    '''
import torch
from dattri.func.fisher import _update_lambda
g = torch.Generator().manual_seed(0)
a, ds = torch.randn(3, 12, 4, generator=g), torch.randn(3, 12, 2, generator=g)
s = torch.zeros(3, 12, 2, requires_grad=True); s.grad = ds
q = {"l": (torch.eye(4), torch.eye(2))}
got = _update_lambda({}, {"l": (a, s)}, q, 0, torch.ones(3, 12))["l"]
want = torch.einsum("bts,bta->bsa", ds, a).square().mean(0)
assert torch.allclose(got, want, atol=1e-4), (got, want)
''')
new("mislabel-auc-single-precision", "P30",
    [("dattri/metric/metrics.py", "torch.argsort(score).flip(0)", "torch.argsort(score.float()).flip(0)")],
    "double-precision self-influence values that differ by less than single precision resolves",
    "samples are inspected in the order of rounded scores",
    '''
import torch
from dattri.metric import mislabel_detection_auc
n = 60
g = torch.Generator().manual_seed(0)
rank = torch.randperm(n, generator=g).double()
score = 1.0 + 1e-10 * rank
noise = (rank >= n - 12).long()
auc, _ = mislabel_detection_auc(score, noise)
assert float(auc) < 1e-6 or abs(float(auc) - 1) < 1e-6, auc
''')
new("loo-truth-indices-by-name", "P31",
    [("dattri/metric/ground_truth.py", "        index = _dir_to_index(model_file)\n", "        index = _dir_to_index(sorted(model_dirs)[dir_cnt])\n")],
    "leave-one-out directories whose indices have different numbers of digits",
    "removed indices are listed alphabetically while the truth rows are in numerical order",
    '''
import os, torch
from torch import nn
from torch.utils.data import DataLoader, TensorDataset
from dattri.metric import calculate_loo_ground_truth
for i in (2, 10, 9, 100):
    os.makedirs(f"r/index_{i}")
    m = nn.Linear(1, 1, bias=False); m.weight.data.fill_(float(i))
    torch.save(m, f"r/index_{i}/model_weights.pt")
x = torch.ones(3, 1)
def target(model, loader):
    return torch.cat([model(b[0]).detach()[:, 0] for b in loader])
v, idx = calculate_loo_ground_truth(target, "r", DataLoader(TensorDataset(x), batch_size=2))
assert torch.equal(v[:, 0].abs(), idx.float()), (v, idx)
''')
new("lds-run-seeds-collide", "P32",
    [("dattri/model_util/retrain.py", "                train_seed = seed + i * num_runs_per_subset + j\n", "                train_seed = seed + i + j\n")],
    "several runs per subset",
    "runs of neighbouring subsets reuse the same training seed",
    COMMON + '''
from dattri.model_util.retrain import retrain_lds
seen = []
def train(loader, seed=None):
    seen.append(seed)
    return nn.Linear(1, 1)
retrain_lds(train, data(8, 4), "out", num_subsets=4, num_runs_per_subset=3, seed=5)
assert len(set(seen)) == 12, seen
''')
new("block-scores-drop-test-tail", "P12",
    [("dattri/algorithm/block_projected_if/block_projected_if.py", "            for test_start in range(0, test_sample_count, test_batch_size):\n",
      "            for test_start in range(\n                0,\n                test_sample_count - test_sample_count % test_batch_size,\n                test_batch_size,\n            ):\n")],
    "more than 32 test samples, not a multiple of 32",
    "the scores of the last test samples stay zero",
    COMMON + T + '''
from dattri.algorithm.logra import LoGraAttributor
def loss(model, batch, device):
    x, y = batch
    return F.cross_entropy(model(x.to(device)), y.to(device))
m = net()
task = AttributionTask(loss_func=loss, model=m, checkpoints=ckpts(1)[0])
from dattri.algorithm.block_projected_if.block_projected_if import BlockProjectedIFAttributor
a = BlockProjectedIFAttributor(task=task, layer_names=["0", "2"], hessian="Identity", offload="none")
tr = data(6, 3)
a.cache(tr)
s = a.attribute(tr, data(40, 8, 1))
assert s.shape == (6, 40) and (s.abs().sum(0) > 0).all(), s.abs().sum(0)
''')
new("arnoldi-keeps-first-projectors", "P15",
    [(IF, "        self.full_train_dataloader = full_train_dataloader\n        self.arnoldi_projectors = []\n",
      "        self.full_train_dataloader = full_train_dataloader\n        self.arnoldi_projectors = getattr(self, \"arnoldi_projectors\", [])\n")],
    "one attributor caching a second training set",
    "scores keep using the curvature of the first training set",
    COMMON + T + '''
from dattri.algorithm.influence_function import IFAttributorArnoldi
m = net()
def score(first):
    task = AttributionTask(ce(m), m, ckpts(1)[0])
    a = IFAttributorArnoldi(task, proj_dim=5, max_iter=20, regularization=1.0, seed=3)
    if first:
        a.cache(data(5, 5, 7))
    a.cache(data(8, 8))
    return a.attribute(data(8, 3), data(3, 2, 1))
close(score(True), score(False))
''')
