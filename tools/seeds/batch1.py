from common import *
new("trak-three-checkpoints", "P08",
    [("dattri/algorithm/trak.py", """                running_xinv_XTX_XT = (
                    running_xinv_XTX_XT * running_count
                    + test_projected_grad @ self.inv_XTX_XT_list[ckpt_idx]
                )

            if train""", """                running_xinv_XTX_XT = (
                    running_xinv_XTX_XT * min(running_count, 1)
                    + test_projected_grad @ self.inv_XTX_XT_list[ckpt_idx]
                )

            if train""")],
    "three or more checkpoints together with a cached training set",
    "the ensemble average of the cached TRAK scores weights checkpoints wrongly from the third on",
    COMMON + '''
from dattri.task import AttributionTask
from dattri.algorithm.trak import TRAKAttributor
def prob(params, data):
    x, y = data
    o = torch.func.functional_call(m, params, (x.unsqueeze(0),))
    return torch.softmax(o, -1)[0].gather(-1, y.unsqueeze(-1)).squeeze(-1)
m = net(); cs = ckpts(3); tr, te = data(12, 5), data(4, 3, 1)
def loss(params, d):
    x, y = d
    return F.cross_entropy(torch.func.functional_call(m, params, (x.unsqueeze(0),)), y.unsqueeze(0))
def build():
    return TRAKAttributor(task=AttributionTask(loss, m, cs), correct_probability_func=prob, regularization=0.1)
a = build(); a.cache(tr); cached = a.attribute(test_dataloader=te)
b = build(); fresh = b.attribute(test_dataloader=te, train_dataloader=tr)
close(cached, fresh)
''')
new("task-stale-layer-gradient", "P25",
    [("dattri/task.py", "        if self.grad_loss_func_kwargs != loss_target_func_kwargs:\n", """        reuse = all(
            self.grad_loss_func_kwargs[key] == loss_target_func_kwargs[key]
            for key in ("in_dims", "layer_name")
        )
        if not reuse:
""")],
    "several checkpoints together with a layer selection, requested one after another with the same layers",
    "the loss gradient of a later checkpoint is taken with the other layers fixed at an earlier checkpoint",
    COMMON + '''
from dattri.task import AttributionTask
from dattri.algorithm.tracin import TracInAttributor
from dattri.params.projection import TracInProjectionParams
m = net(); cs = ckpts(2); tr, te = data(6, 4), data(3, 3, 1)
def loss(params, d):
    x, y = d
    return F.cross_entropy(torch.func.functional_call(m, params, (x.unsqueeze(0),)), y.unsqueeze(0))
names = ["2.weight", "2.bias"]
a = TracInAttributor(task=AttributionTask(loss, m, cs), weight_list=torch.ones(2), normalized_grad=False, proj_params=TracInProjectionParams(proj_type="identity"), layer_name=names)
got = a.attribute(tr, te)
want = sum(grads(c, tr, names) @ grads(c, te, names).T for c in cs)
close(got, want)
''')

new("datainf-short-last-block", "P05",
    [("dattri/algorithm/influence_function.py", "                running_transformation += contribution.sum(dim=0)\n            running_transformation /= length\n",
      "                running_transformation += contribution.mean(dim=0)\n            running_transformation /= len(grad_batches)\n")],
    "a test batch size that does not divide the number of cached training gradients",
    "the mean over the cached gradients overweights the last, shorter block of gradients",
    COMMON + """
from dattri.task import AttributionTask
from dattri.algorithm.influence_function import IFAttributorDataInf
m = net(); cs = ckpts(1); tr, te = data(7, 7), data(4, 4, 1)
a = IFAttributorDataInf(task=AttributionTask(ce(m), m, cs), regularization=0.1)
a.cache(tr)
whole = a.attribute(tr, te)
a = IFAttributorDataInf(task=AttributionTask(ce(m), m, cs), regularization=0.1)
a.cache(tr)
single = a.attribute(tr, data(4, 1, 1))
close(whole, single)
""")
