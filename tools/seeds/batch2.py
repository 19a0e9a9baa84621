from common import *
B = "dattri/algorithm/block_projected_if/offload/disk_io/manager.py"
new("store-buffer-shared-with-writer", "P26",
    [(B, "        filled_tensor = buffer.tensor[: buffer.current_row].clone().contiguous()\n        batch_info_copy",
      "        filled_tensor = buffer.tensor[: buffer.current_row].contiguous()\n        batch_info_copy")],
    "a disk slower than the producer, so that a buffer of the pool is filled again before its chunk was written",
    "a chunk waiting to be written shares memory with the pooled buffer, and is written with the rows of a later chunk",
    '''
import threading, time
import torch
from dattri.algorithm.block_projected_if.offload.disk_io.manager import ChunkedDiskIOManager
from dattri.algorithm.block_projected_if.offload.disk_io.memory_map import ChunkedMemoryMapHandler as H
real = H.write_chunk
def slow(*a, **k):
    time.sleep(0.3)
    return real(*a, **k)
H.write_chunk = staticmethod(slow)
m = ChunkedDiskIOManager("cache", "s", chunk_size=2, max_samples_per_chunk=8)
g = torch.Generator().manual_seed(0)
data = {i: [torch.randn(3, 4, generator=g)] for i in range(40)}
m.start_batch_range(0, 40)
for i, v in data.items():
    m.store_gradients(i, v)
m.finalize_batch_range()
for i, v in data.items():
    assert torch.equal(m.retrieve_gradients(i)[0], v[0]), i
''')
new("dvemb-epochs-in-call-order", "P11",
    [("dattri/algorithm/dvemb.py", "        sorted_epochs = sorted(self.learning_rates.keys(), reverse=True)\n", "        sorted_epochs = list(self.learning_rates.keys())[::-1]\n")],
    "gradients of a later epoch recorded before those of an earlier one (for example a resumed log, or externally given learning rates)",
    "the unrolling visits epochs in the order they were recorded rather than in training order",
    COMMON + '''
from dattri.task import AttributionTask
from dattri.algorithm.dvemb import DVEmbAttributor
m = net(); m.load_state_dict(ckpts(1)[0])
def loss(params, d):
    x, y = d
    return F.cross_entropy(torch.func.functional_call(m, params, (x.unsqueeze(0),)), y.unsqueeze(0))
tr, te = data(12, 4), data(3, 3, 1)
batches = list(tr)
def score(order):
    a = DVEmbAttributor(task=AttributionTask(loss, m, m.state_dict()))
    for e in order:
        b = batches[e]
        a.cache_gradients(e, b, torch.arange(4) + 4 * e, 0.5 + 0.1 * e)
    a.cache()
    return a.attribute(te)
close(score([2, 0, 1]), score([0, 1, 2]), 1e-5)
''')
new("lds-single-precision-sums", "P29",
    [("dattri/metric/metrics.py", "        [score[:, indices[i]].sum(dim=1) for i in range(num_subsets)],\n", "        [score[:, indices[i]].float().sum(dim=1) for i in range(num_subsets)],\n")],
    "double-precision scores whose subset sums differ by less than single precision resolves",
    "subset sums are ranked after rounding to single precision, so close sums become ties",
    '''
import torch
from scipy.stats import spearmanr
from dattri.metric import lds
g = torch.Generator().manual_seed(0)
score = 1000 + 1e-5 * torch.randn(30, 2, generator=g, dtype=torch.float64)
idx = torch.stack([torch.randperm(30, generator=g)[:10] for _ in range(12)])
gt = torch.randn(12, 2, generator=g, dtype=torch.float64)
want = [spearmanr(torch.stack([score[i, j].sum() for i in idx]), gt[:, j]).correlation for j in range(2)]
got = lds(score, (gt, idx))[0]
assert max(abs(float(a) - b) for a, b in zip(got, want)) < 1e-6, (got, want)
''')
new("lds-shards-repeat-subsets", "P32",
    [("dattri/model_util/retrain.py", "            rng = np.random.default_rng(seed + i)\n", "            rng = np.random.default_rng(seed + i - start_id)\n")],
    "a retraining split over several calls with start_id",
    "every shard draws the same subsets again",
    COMMON + '''
from dattri.model_util.retrain import retrain_lds
def train(loader, seed=None):
    return nn.Linear(2, 2)
ld = data(20, 4)
retrain_lds(train, ld, "whole", num_subsets=4, subset_ratio=0.5, seed=3)
for s in (0, 2):
    retrain_lds(train, ld, "parts", num_subsets=2, subset_ratio=0.5, seed=3, start_id=s, total_num_subsets=4)
for i in range(4):
    assert open(f"whole/{i}/indices.txt").read() == open(f"parts/{i}/indices.txt").read(), i
''')
new("dropout-position-prefix-only", "P34",
    [("dattri/model_util/dropout.py", "                if layer_name in name:\n", "                if name.startswith(layer_name):\n")],
    "a dropout layer selected by a part of its name that is not a prefix, in a nested module",
    "the selected layer is not activated",
    '''
import torch
from torch import nn
from dattri.model_util.dropout import activate_dropout
class B(nn.Module):
    def __init__(self):
        super().__init__()
        self.lin = nn.Linear(2, 2)
        self.dropout_a = nn.Dropout(0.1)
m = nn.Sequential(B(), B())
activate_dropout(m, ["dropout_a"], dropout_prob=0.3)
assert m[0].dropout_a.training and m[1].dropout_a.training and m[1].dropout_a.p == 0.3
''')
