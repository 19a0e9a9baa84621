"""Writes properties.jsonl (one place to keep the property list)."""
import json, os
A='dattri/algorithm/'; F='dattri/func/'; M='dattri/metric/'; U='dattri/model_util/'; B='dattri/algorithm/block_projected_if/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)
    if state: anchors['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=anchors))
ALL="every model, loss, target, data, checkpoint list, layer selection and hyper-parameter value"

p("P01","Explicit influence scores equal the closed form",
 "With the full training set given as one batch, the explicit influence attributor's score for training sample i and test sample j is the gradient of the loss at i times the inverse of (Hessian of the full-batch loss + regularization*I) times the gradient of the target at j, averaged over all checkpoints and restricted to the selected parameters. With RelatIF normalization each row is divided per checkpoint by the square root of target-gradient(i).H^-1.loss-gradient(i) ('l') or by the norm of H^-1.loss-gradient(i) ('theta'). Train and test loaders may be batched in any way.",
 ["inputs","configurations"],ALL+"; every train/test batch size",
 "Tests compare shapes or one fixed random model with one configuration; none has an independent closed-form oracle over layer selections, ensembles, separate targets and RelatIF.",
 [A+"influence_function.py",A+"base.py","dattri/task.py",F+"hessian.py"],
 [("explicit test transformation",A+"influence_function.py:IFAttributorExplicit"),("inner product loop and checkpoint running average",A+"base.py:BaseInnerProductAttributor.attribute")],
 ["return value of IFAttributorExplicit.attribute"])
p("P02","Conjugate-gradient influence converges to the exact inverse-Hessian score",
 "On problems whose regularized full-batch Hessian is positive definite, the CG influence attributor with at least as many iterations as parameters returns, in either differentiation mode, the same scores as the exact inverse of the regularized Hessian, for every checkpoint ensemble, layer selection, target function and batching. Stopping early by tolerance never produces non-finite values.",
 ["inputs","configurations"],"every positive-definite problem, both autodiff modes, any batching, layer selection and ensemble",
 "Tests run CG with a few iterations and check only shape or closeness on one fixed model.",
 [A+"influence_function.py",F+"hessian.py"],[("CG recursion",F+"hessian.py:ihvp_cg"),("per-checkpoint parameter load",A+"influence_function.py:IFAttributorCG")],["return value of IFAttributorCG.attribute"])
p("P03","LiSSA influence follows its stochastic-recursion contract",
 "When the recursion samples the whole training set, the LiSSA attributor returns exactly what the documented recursion cur <- v + (1-damping)*cur - (H cur)/scaling, started at v, run for the given depth, divided by scaling and averaged over repeats, returns; with scaling above half the largest eigenvalue it converges to (H + scaling*damping*I)^-1 v. Averaging over checkpoints, layer selection and batching behave as for the exact attributor.",
 ["inputs","configurations","histories"],"every convex problem, scaling, damping, depth, number of repeats and batching",
 "Tests only check shapes and one convergence case.",
 [A+"influence_function.py",F+"hessian.py"],[("LiSSA recursion",F+"hessian.py:ihvp_lissa")],["return value of IFAttributorLiSSA.attribute"])
p("P04","Arnoldi influence is the rank-k spectral approximation",
 "With a Krylov dimension covering the whole space and all eigenpairs kept, the Arnoldi attributor's scores equal the exact inverse-Hessian scores of the cached training set on every positive-definite problem; keeping the k largest-magnitude eigenpairs yields the scores of the corresponding rank-k pseudo-inverse, kept eigenvalues that are not positive contributing nothing; the norm constant changes no score. Results depend only on the configured seed and the cached data.",
 ["inputs","configurations","histories"],"every positive-definite problem, kept rank k, seed, batching",
 "Tests check one fixed quadratic with loose tolerance.",
 [A+"influence_function.py",F+"projection.py",F+"hessian.py"],[("Arnoldi projector",F+"projection.py:ArnoldiProjector"),("Lanczos iteration",F+"hessian.py:ihvp_arnoldi")],["return value of IFAttributorArnoldi.attribute"])
p("P05","DataInf scores equal the layer-wise closed form",
 "For every checkpoint the DataInf attributor's score is the sum over layers of train-gradient(i) times the mean, over the cached training gradients g, of (v - (v.g)/(r+|g|^2) g)/r with v the layer's part of the test target gradient and r the regularization; a layer is the group of parameters of one module. Checkpoints are averaged, and the cached fraction of batches is the first ceil(ratio * number of batches).",
 ["inputs","configurations"],ALL+"; cache ratio and batching of the cached set",
 "Tests check shape or one fixed network.",
 [A+"influence_function.py",F+"fisher.py","dattri/task.py"],[("layer-wise rank-one inverse average",F+"fisher.py:ifvp_datainf"),("gradient cache",A+"influence_function.py:IFAttributorDataInf")],["return value of IFAttributorDataInf.attribute"])
p("P06","EK-FAC scores equal the eigenvalue-corrected Kronecker closed form",
 "For linear layers and a mean-reduced loss, the EK-FAC score is, summed over the selected layers, train-gradient(i) times Q_S^T[(Q_S V Q_A^T)/(Lambda+damping)]Q_A for the test gradient matrix V with bias appended as the last column, where Q_A and Q_S hold the eigenvectors (as rows) of the input and output-gradient covariances over the cached training set and Lambda is the mean squared rotated per-sample gradient. The scores do not depend on how the cached data are batched; max_iter limits the caching to that many batches. Caching leaves no hooks on the model, also when it fails, and can be repeated.",
 ["inputs","configurations"],"every linear-layer network with or without bias, module selection, damping, batching",
 "Tests only check that the output has a shape and one correlation.",
 [A+"influence_function.py",F+"fisher.py"],[("covariance/eigenvalue estimation",F+"fisher.py"),("EK-FAC inverse",F+"fisher.py:ifvp_at_x_ekfac")],["return value of IFAttributorEKFAC.attribute"])
p("P07","TracIn-family scores are weighted gradient inner products",
 "TracIn returns the sum over checkpoints of checkpoint weight times the inner product of train-loss and test-target gradients; Grad-Dot is TracIn with unit weight at the final checkpoints given, and Grad-Cos divides each inner product by both gradient norms. With random projection configured, gradients are first mapped by the same linear projection for train and test, seeded per checkpoint; layer selection restricts gradients to the named parameters.",
 ["inputs","configurations"],ALL+"; weights, projection settings, batching",
 "Tests compare only one model/configuration and mostly shapes.",
 [A+"tracin.py","dattri/task.py",F+"projection.py"],[("weighted accumulation",A+"tracin.py:TracInAttributor.attribute")],["return value of TracInAttributor.attribute"])
p("P08","TRAK scores equal the ensemble formula",
 "For each checkpoint let Phi be the projected train gradients of the target, phi the projected test gradients and Q the diagonal of one minus the correct-probability of each training sample; the TRAK score is the ensemble mean of Phi (Phi^T Phi + reg I)^-1 phi^T, row-wise multiplied by the ensemble mean of Q. The result is the same whether the training features are cached first or recomputed, and whichever way train and test data are batched.",
 ["inputs","configurations","histories"],ALL+"; projection dimension, regularization, cached/uncached, batching",
 "Tests check cached vs uncached on one fixed configuration.",
 [A+"trak.py",A+"utils.py",F+"projection.py"],[("feature cache and running averages",A+"trak.py:TRAKAttributor")],["return value of TRAKAttributor.attribute"])
p("P09","Representer-point scores equal their closed form",
 "The representer-point attributor fits the last layer by minimizing mean loss plus L2 penalty and returns, for training sample i and test sample j, the inner product of their last-layer inputs (each with appended bias feature when configured so by the implementation) times the negated loss gradient of i at the predicted test class divided by twice the regularization and the sample count. Refitting with the same data gives the same scores, never changes the caller's model and the score matrix is aligned with the loaders.",
 ["inputs","configurations"],"every linear-head model, class count, regularization, batching",
 "Tests check one shape.",
 [A+"rps.py",U+"hook.py"],[("last-layer refit",A+"rps.py:RPSAttributor.cache"),("representer value",A+"rps.py:RPSAttributor.attribute")],["return value of RPSAttributor.attribute"])
p("P10","KNN-Shapley values are exact Shapley values",
 "For every k, training set, test set, distance and label set the KNN-Shapley attributor's column for a test point is exactly the Shapley value of the K-nearest-neighbour utility (fraction of matching labels among the K nearest, divided by K), so each column sums to the utility of the full training set minus the empty utility, and equal-label symmetric points get equal value. Values do not depend on how loaders are batched.",
 ["inputs","configurations"],"every k (also larger than the training set), labels, ties-free distances, batching",
 "Tests use one tiny example; the defining sum over all subsets is never evaluated.",
 [A+"data_shapley.py"],[("recursive closed form",A+"data_shapley.py:KNNShapleyAttributor")],["return value of KNNShapleyAttributor.attribute"])
p("P11","DVEmb embeddings follow the SGD-unrolling recursion",
 "For a recorded SGD run of per-step samples, learning rates and gradients, the embedding of a training sample used at step t is the learning rate times its gradient propagated through every later step by subtracting the learning rate times the per-step gradient outer-product sum, and the attribution is its inner product with the test gradient, summed over the epochs (or taken for the requested epoch). Factorized and projected modes compute the same recursion on the same (projected) gradients, and sample indices, not positions in a batch, decide which training row receives a value. Epoch numbers, not the order of recording calls, order the epochs; steps of one epoch follow in recorded order. Layers that are added, skipped by a step or not used at all contribute exactly their gradient, and what is recorded does not change when the caller reuses the memory of its batch. A step or a caching call that fails raises its own error and leaves no record and no hooks.",
 ["inputs","histories","configurations"],"every training history (epochs, batches, orders, learning rates), mode and projection",
 "Tests drive only one two-step history.",
 [A+"dvemb.py"],[("gradient cache",A+"dvemb.py:cache_gradients"),("backward recursion",A+"dvemb.py:compute_embeddings")],["return value of DVEmbAttributor.attribute"])
p("P12","Block-projected influence computes its advertised algebra",
 "The LoGra/FactGraSS-style attributors return, for each train/test pair, the sum over the hooked layers of the compressed test gradient times the damped inverse of the empirical Fisher matrix of the compressed training gradients times the compressed training gradient, all at the first checkpoint and within the float32 accuracy of the damped inverse. With compression disabled the scores therefore equal the layer-block empirical-Fisher influence computed from plain autograd gradients, and self-influence equals the diagonal of the train-versus-train score matrix.",
 ["inputs","configurations"],"every linear-layer network (2-D and sequence inputs), layer selection, damping, preconditioner kind, batching",
 "Tests only check that the calls run and return shapes.",
 [B+"block_projected_if.py",B+"core/hook.py",B+"core/compressor.py",B+"core/utils.py",A+"logra.py",A+"factgrass.py"],[("per-layer gradient capture",B+"core/hook.py"),("Fisher accumulation and inverse",B+"block_projected_if.py:compute_preconditioners")],["return values of cache/attribute/compute_self_attribution"])
p("P13","Gradient offloading is transparent",
 "For the same task, data, configuration and seeds, block-projected attributors give the same scores, self-influence and inverse-Fisher products whether intermediate data are kept in memory, offloaded to host memory or stored on disk, and whatever the chunk size and batch size. This holds on machines without a GPU.",
 ["configurations","schedules","inputs"],"every offload mode, chunk size, batch size, thread timing of background writers and prefetchers",
 "Tests never run the disk back end and never compare back ends.",
 [B+"offload/disk.py",B+"offload/cpu.py",B+"offload/memory.py",B+"offload/disk_io/manager.py"],[("offload abstraction",B+"offload/offload.py")],["scores for offload none/cpu/disk"])
p("P14","Score cells belong to their samples under any batching",
 "For every attributor, score[i,j] concerns the i-th sample yielded by the train loader and the j-th yielded by the test loader, the matrix has exactly one row/column per yielded sample, and the values do not depend on batch sizes, a short last batch, or whether the loader uses a sampler over a subset (loaders that yield every sample of their sampler in batches of a fixed size). Permuting the train or test set permutes rows or columns and changes nothing else.",
 ["inputs","configurations"],"every attributor, batch size, ragged tail, sampler subset and permutation",
 "Tests use one batch size per attributor, never compare partitions or permutations.",
 [A+"base.py",A+"tracin.py",A+"trak.py",A+"data_shapley.py",A+"rps.py"],[("row/column offset bookkeeping",A+"base.py:attribute")],["return value of attribute for paired runs"])
p("P15","Scores do not depend on attributor call history",
 "After the full training set is cached, scoring any subset of train or test data gives the corresponding rows/columns of the full score matrix; repeating a call returns the same result; and re-caching a different training set gives exactly what a fresh attributor would. Interleaving calls of several attributors on one shared task changes no result.",
 ["histories"],"every sequence of cache, attribute and self-attribute calls over one or several attributors sharing a task",
 "Tests call each attributor once on a fresh task.",
 [A+"base.py",A+"trak.py",A+"influence_function.py","dattri/task.py",B+"block_projected_if.py"],[("cached loaders/features",A+"base.py"),("memoized gradient functions and loaded checkpoint","dattri/task.py")],["attribute results along a call history"],
 [("current checkpoint / memoized grad function","which checkpoint and layer selection the task is set to","dattri/task.py:AttributionTask")])
p("P16","Self-attribution is the diagonal of train-versus-train attribution",
 "For every attributor that offers self-attribution, the returned vector has one entry per training sample and equals the diagonal of attributing the training set against itself under the same configuration, cache and normalization, for any batch size and any number of checkpoints. (TracIn-family, TRAK and block-projected self-attribution use the training loss on both sides, so there the target function is the loss.)",
 ["inputs","configurations"],"every attributor with self-attribution, normalization, batching, ensemble size",
 "Tests only call it with a single full batch and look at shapes.",
 [A+"base.py",A+"tracin.py",A+"trak.py"],[("self_attribute loops",A+"base.py:self_attribute")],["return value of self_attribute"])
p("P17","Attribution leaves caller state untouched",
 "Running any attributor leaves the caller's checkpoint dictionaries, datasets, batch objects yielded by the loaders and the model's parameter set (objects, names, requires-grad flags, hooks) as they were, leaves no foreign gradients, no files outside its cache directory and no changed torch globals, and does not leave forward hooks or patched modules behind once the attributor's work is done. (Loading a checkpoint may put the model into eval mode.) Model weights after a run are always those of one of the given checkpoints.",
 ["inputs","histories"],"every attributor, model and loader; data passed as tuples, lists or dictionaries",
 "No test compares caller state before and after.",
 ["dattri/task.py",A+"base.py",A+"influence_function.py",A+"rps.py",U+"hook.py",F+"utils.py",B+"core/hook.py"],[("checkpoint loading","dattri/task.py:_load_checkpoints")],["snapshots of caller objects before/after"])
p("P18","Tuple, list and dictionary batches are interchangeable",
 "For every attributor that documents support for dictionary batches, feeding the same samples as a tuple, as a list or as a dictionary of tensors (with a correspondingly written loss) gives the same scores.",
 ["inputs","configurations"],"every such attributor, batch format and batching",
 "Tests cover dictionary batches for single attributors by shape only.",
 [A+"base.py",A+"tracin.py",A+"trak.py",A+"influence_function.py"],[("batch format dispatch",A+"base.py:attribute")],["attribute results for paired formats"])
p("P19","Hessian-vector products equal the exact product",
 "For every twice-differentiable scalar function, argument position, extra arguments and batch of vectors, the Hessian-vector product (both autodiff modes, lazily built or prepared at a point) equals the dense Hessian plus regularization times the identity, applied to the vector; it is linear and symmetric in the vectors.",
 ["inputs","configurations"],"every smooth function, argnums, mode, regularization, vector",
 "Tests use a fixed quadratic/sine function in one dtype.",
 [F+"hessian.py"],[("hvp",F+"hessian.py:hvp"),("hvp_at_x",F+"hessian.py:hvp_at_x")],["return values of hvp/hvp_at_x"])
p("P20","Inverse-Hessian solvers agree with the dense solve",
 "For positive-definite regularized Hessians, every solver (explicit, conjugate gradient, Arnoldi with full Krylov space, LiSSA with contracting scaling), in both lazy and prepared-at-a-point form, returns one row per input vector equal to the dense inverse applied to that vector, within its documented accuracy, and each row depends only on its own vector; the vectors and arguments it was given are left as they were. Documented hyper-parameters (regularization, tolerance, iteration count, recursion depth, scaling, repeats) have the documented effect in both forms; Arnoldi limited to fewer eigenpairs keeps those of the largest magnitude, whatever their sign.",
 ["inputs","configurations"],"every positive-definite function, vector batch (also 1-D, zero and eigenvectors), solver and setting",
 "Tests use one 2-4 dimensional function per solver.",
 [F+"hessian.py"],[("solvers",F+"hessian.py")],["return values of ihvp_* and ihvp_at_x_*"])
p("P21","Fisher-inverse products equal their dense definitions",
 "The explicit inverse-Fisher product equals solving with the gradient outer product plus regularization, the DataInf product equals the layer-wise mean of rank-one inverses over the supplied gradients, and the EK-FAC product equals the Kronecker-rotated division, for every batch of vectors and both the lazy and prepared forms. Products are linear in the vectors.",
 ["inputs","configurations"],"every gradient set, regularization, layer shape and vector batch",
 "Tests check a correlation threshold or one fixed value.",
 [F+"fisher.py"],[("ifvp functions",F+"fisher.py")],["return values of ifvp_*"])
p("P22","Random projections are fixed linear maps",
 "For every projection type, dimension, seed, dtype and feature layout (flat or dictionary of tensors), projecting is a deterministic linear map: the same seed gives the same map across calls, instances and batch sizes, a row's projection does not depend on the other rows, dictionary input equals the flattened concatenation, distinct ensemble members and seeds give different maps, and output has the requested dimension.",
 ["inputs","configurations","histories"],"every projector type, feature size and layout (also split into several chunks), projection size, seed, ensemble id, batch size, call order",
 "Tests check shapes and one isometry case.",
 [F+"projection.py","dattri/params/projection.py"],[("projectors",F+"projection.py"),("random_project dispatch",F+"projection.py:random_project")],["return value of random_project(...)"])
p("P23","Random projections preserve inner products in expectation",
 "Dense random projections (Gaussian and Rademacher, in any projector implementation and when the feature or projection dimension is processed in blocks) are unbiased for inner products: averaged over ensemble members or seeds, the inner product of two projected vectors equals that of the originals up to statistical error, entries are uncorrelated across coordinates, and squared norms are preserved.",
 ["inputs","configurations"],"every feature dimension, block structure, projection dimension and seed",
 "Tests check one single-seed tolerance.",
 [F+"projection.py"],[("block seeds and scaling",F+"projection.py:BasicProjector")],["Gram matrices of projections of the identity"])
p("P24","Parameter flattening and partitioning loses nothing",
 "Flattening and unflattening parameters are mutual inverses in the model's parameter order, a function wrapped to take flat (or per-layer, or partial) parameters evaluates the original function on exactly the intended full parameter set for every selection of layers, and partitions of parameters into size-limited chunks never exceed the limit, split only a parameter that reaches the limit by itself, and add up to the total.",
 ["inputs","configurations"],"every model structure, layer selection (single name or list, any order) and chunk limit",
 "Tests cover one two-layer model.",
 [F+"utils.py"],[("flatten/unflatten/partial decorators",F+"utils.py"),("chunk sizes",F+"utils.py:get_parameter_chunk_sizes")],["round-trip values"])
p("P25","Task gradients belong to the requested checkpoint and layers",
 "Whatever sequence of requests is made on one task, the parameters, loss/target values and per-sample gradients it hands out are those of the requested checkpoint (dictionary, or file path) and the requested layers in the requested order, equal to per-sample autograd on a model loaded with that checkpoint. Checkpoints given by the caller are never modified and results never depend on earlier requests.",
 ["histories","inputs"],"every sequence of requests over checkpoints, layer selections, loss/target, flatten modes",
 "Tests make one request per task.",
 ["dattri/task.py",F+"utils.py"],[("checkpoint loading and memoization","dattri/task.py")],["get_param/get_*_func/get_grad_*_func results along random histories"],
 [("memoized gradient function keyed by request","must never serve a stale layer/checkpoint","dattri/task.py")])
p("P26","The disk chunk store returns exactly what was stored",
 "For every order of storing, finalizing, reading and iterating batches, every chunk size, batch size and layer layout and every timing of the background writer, each stored batch is read back exactly once by a full iteration and exactly by an individual read, bit-identical, under its own batch number, data type and layer, with sizes and boundaries preserved across chunk boundaries, overflow flushes and process restarts. Nothing not stored is ever returned.",
 ["schedules","histories","inputs"],"every interleaving of producer, background writers and readers, chunk geometry and data layout",
 "No test touches the disk store.",
 [B+"offload/disk.py",B+"offload/disk_io/manager.py",B+"offload/disk_io/memory_map.py",B+"offload/disk_io/prefetch_dataset.py"],[("chunk buffering and async writes",B+"offload/disk_io/manager.py:ChunkedDiskIOManager"),("memory-mapped chunk format",B+"offload/disk_io/memory_map.py")],["store/retrieve API results vs an in-memory model"],
 [("pending write set / chunk buffers","which data are in flight","manager.py")])
p("P27","Disk-store faults surface and never corrupt",
 "If a chunk write fails, or a process dies while chunks are being written, a later read never returns wrong or partially written data as if it were valid: every batch is either returned exactly as stored or reported missing/erroneous. Waiting for outstanding writes after a failed write terminates and reports the failure instead of blocking forever.",
 ["fault_sequences","crash_points","schedules"],"every write that may fail and every point at which the process may be killed",
 "No test injects a fault.",
 [B+"offload/disk_io/manager.py",B+"offload/disk_io/memory_map.py"],[("chunk write + metadata publication",B+"offload/disk_io/memory_map.py:write_chunk"),("pending-write accounting",B+"offload/disk_io/manager.py")],["reads after injected faults or SIGKILL"])
p("P28","Compressed gradients equal compressing the true per-sample gradient",
 "For every supported layer and input rank, the captured per-sample compressed gradient equals applying the configured sparsifier and projector to the true per-sample weight (and bias) gradient obtained by plain autograd; factorized compression equals compressing both factors and forming their outer product. Capturing leaves the model's forward results unchanged and is removed cleanly.",
 ["inputs","configurations"],"every linear layer shape, batch size, sequence length, bias setting, compression configuration",
 "Tests only check output shapes.",
 [B+"core/hook.py",B+"core/compressor.py"],[("hook manager",B+"core/hook.py"),("compressors",B+"core/compressor.py")],["captured gradients per layer"])
p("P29","LDS and LOO correlations equal the rank correlation of prediction and truth",
 "For every score matrix and ground truth, the linear datamodeling score of a test sample is the Spearman correlation over the subsets between the summed scores of the subset's members and the mean retrained outputs, and the leave-one-out correlation is the Pearson correlation between the scores of the removed samples (matched by removed index, in any order and for any subset of removed samples) and the observed outputs; p-values and per-test alignment match, and values are invariant to subset or test reordering.",
 ["inputs"],"every score matrix, subset family, ground-truth matrix",
 "Tests check one tiny example.",
 [M+"metrics.py"],[("metrics",M+"metrics.py")],["return values of lds/loo_corr"])
p("P30","Mislabel-detection and brittleness metrics match their definitions",
 "The mislabel-detection AUC equals the probability that a random mislabeled sample ranks above a random clean one under the inspection order (ties broken in some order) with true/false positive rates after each inspected sample, for any score and index set; the brittleness metric returns the smallest tested number of top-scored training samples, for a search space in any order, whose removal flips the test prediction by retraining, or none, always retraining on exactly the remaining samples.",
 ["inputs","configurations"],"every score vector, noise set, search space, retraining and evaluation function",
 "Tests check one small example each.",
 [M+"metrics.py",M+"britteness.py"],[("AUC",M+"metrics.py:mislabel_detection_auc"),("binary search / sweep",M+"britteness.py")],["return values; sets passed to the retraining function"])
p("P31","Ground truth is read back from the right retrained models",
 "Leave-one-out and subset ground truths returned from a retraining directory pair each recorded subset or left-out sample with the target values of exactly the models retrained for it (for subsets: the negated mean over their repeats), in the directory metadata's order and the test loader's order, for any number of models, repeats, test samples and batching.",
 ["inputs","histories"],"every retraining directory layout, repeats, loader batching, directory creation order",
 "Tests check shapes on one small directory.",
 [M+"ground_truth.py",U+"retrain.py"],[("ground-truth extraction",M+"ground_truth.py")],["return values vs direct model evaluation"])
p("P32","Retraining visits exactly the intended subsets",
 "Leave-one-out retraining calls the training function once per requested index with exactly the other samples, and subset retraining calls it for each subset and repeat with exactly the recorded subset of the requested size, seeds included; recorded indices are positions in the training loader and the loader's own sampler, batch size and collation are respected; the models and metadata written describe what was trained, sharded runs (and the command-line and nanoGPT launchers) partition the same overall work as an unsharded run, and identical seeds reproduce identical subsets. A retraining whose training function fails raises that error, writes no metadata that would present it as finished, and repeating it gives what an uninterrupted one gives.",
 ["inputs","configurations","histories"],"every dataset size, ratio, subset count, repeat count, sharding, seed",
 "Tests check file counts for one setting.",
 [U+"retrain.py","dattri/script/dattri_retrain.py"],[("retrain_loo/retrain_lds",U+"retrain.py")],["training-function calls, files and metadata written"])
p("P33","Noise injection and subset sampling do exactly what they report",
 "Label corruption changes exactly the reported number of distinct samples at exactly the reported indices to a different class of the given (or inferred) label space and nothing else, for every data container, dtype and noise ratio, reaching every position and every other class, leaving the input untouched; subset samplers yield exactly the given indices in the given order and report the right length.",
 ["inputs","configurations"],"every dataset, ratio, label set, seed; every index list",
 "Tests check one dataset.",
 ["dattri/datasets.py" if False else "dattri/benchmark/utils.py"],[("flip_label, SubsetSampler","dattri/benchmark/utils.py")],["returned label arrays/indices and sampler order"])
p("P34","Dropout activation and layer capture touch exactly the requested modules",
 "Activating dropout sets training mode on exactly the dropout modules (all, or those whose qualified name contains a given name, other matches being rejected) with the requested probability and leaves every other module in evaluation mode; capturing the final layer's input and output returns exactly the tensors seen and produced by that module over the whole loader and removes its hook, also when a forward pass fails.",
 ["inputs","configurations"],"every module tree, name list and probability",
 "Tests use one two-layer network.",
 [U+"dropout.py",U+"hook.py"],[("activate_dropout",U+"dropout.py"),("get_final_layer_io",U+"hook.py")],["module modes, captured tensors"])
p("P35","Benchmark sequence models compute their definition, are causal, and their losses are exact",
 "For every token sequence the benchmark sequence models' logits equal their architecture's definition (fast and manual attention, relative positions, cropped context, weights loaded from Hugging Face), under the causal mask do not depend on later tokens, and batch members do not influence one another; the reported loss is the (smoothed) cross entropy of the targets with ignored positions excluded. Generation keeps its prompt, stays within the vocabulary and follows the requested rule (temperature sampling, top-k, greedy, beam).",
 ["inputs","configurations"],"every token sequence, length, batch, model size and generation setting",
 "No test evaluates logits, causality or generation; tests only call the constructors.",
 ["dattri/benchmark/models/nanoGPT/model.py","dattri/benchmark/models/MusicTransformer/music_transformer.py","dattri/benchmark/models/MusicTransformer/rpr.py","dattri/benchmark/models/MusicTransformer/loss.py"],[("attention, masks, generation","model.py / rpr.py / music_transformer.py")],["logits, losses and generated tokens"])
p("P36","Benchmark training and evaluation are seeded and sample-aligned",
 "The benchmark training functions are deterministic functions of data, loader order and seed whatever the caller's random state, different seeds differ, every epoch steps once on every batch with exactly the gradient of that batch's mean loss, and the trained weights are returned; the matching loss functions return one value per sample in loader order (their mean for ImageNet), equal to each sample's own loss under the saved weights in evaluation mode for any batching (the MAESTRO function returns the negated loss).",
 ["inputs","configurations"],"every dataset content, batch size, order, seed, class count, epoch count",
 "Tests train once and check types.",
 ["dattri/benchmark/datasets/mnist/mnist_lr.py","dattri/benchmark/datasets/mnist/mnist_mlp.py","dattri/benchmark/datasets/cifar/cifar_resnet9.py","dattri/benchmark/datasets/imagenet/imagenet_resnet18.py","dattri/benchmark/datasets/maestro/maestro_musictransformer.py","dattri/benchmark/datasets/wikitext2/wikitext2_gpt2.py"],[("train_*/loss_*","dattri/benchmark/datasets")],["trained weights, optimizer steps and per-sample losses"])
p("P37","Benchmark datasets are exactly their raw data",
 "Every benchmark dataset returns the raw data it is made from and nothing else: MIDI token windows (start, sliding, random, padded with the end token and shifted targets), character and token blocks with targets moved by one and every token kept, piece-to-split assignment by the published metadata, images with their own labels and the documented sizes; encoding a MIDI piece to events and decoding it returns the same notes, times and quantized velocities; load_benchmark downloads each file once, returns model paths in index order and the matching groundtruth, and reports a failed download instead of returning partial data.",
 ["inputs","faults"],"every raw content, length, window size, piece set, server answer",
 "Tests download one dataset and look at lengths.",
 ["dattri/benchmark/load.py","dattri/benchmark/datasets/maestro/maestro_dataset.py","dattri/benchmark/models/MusicTransformer/midi_processor/processor.py","dattri/benchmark/datasets/shakespeare_char/shakespeare_char_dataset.py","dattri/benchmark/datasets/wikitext2/wikitext2_dataset.py"],[("create_*_dataset","dattri/benchmark/datasets"),("load_benchmark","dattri/benchmark/load.py"),("encode_midi/decode_midi","dattri/benchmark/models/MusicTransformer/midi_processor/processor.py")],["dataset items, decoded notes, downloaded files"])
p("P38","nanoGPT training uses exactly the recorded blocks and the advertised recipe",
 "A nanoGPT training run draws every training sequence from the distinct blocks it records in indices.txt (as many as the subset ratio asks, targets shifted by one token, in recorded order within an epoch), validates on windows of the validation file without touching the model, makes max_iters+1 updates each with the mean gradient of its micro batches clipped to grad_clip, AdamW with decay on matrices only and the warmup-cosine learning rate of its iteration; it is a function of the seed; each checkpoint holds the live parameters, optimizer state, iteration and architecture, and resuming continues from exactly that state.",
 ["inputs","configurations","histories"],"every corpus, architecture, batch and accumulation size, subset ratio, schedule, interruption point",
 "The script has no tests.",
 ["dattri/benchmark/models/nanoGPT/train.py","dattri/benchmark/models/nanoGPT/configurator.py","dattri/benchmark/models/nanoGPT/model.py"],[("train.py","dattri/benchmark/models/nanoGPT/train.py")],["forward inputs and mode, optimizer steps, checkpoints, indices.txt, reported losses"])
p("P39","A failed attribution call surfaces its error and leaves nothing behind",
 "When a data loader, a model pass or a gradient computation fails (or is interrupted) anywhere inside an attributor's cache, attribute or self-attribute call, the caller gets that error, not another one and not a result, and everything the caller owns is as it was: no hooks, patched forward methods or changed flags on the model, no changed parameters other than one of the given checkpoints, checkpoints, datasets, batches and torch globals untouched. The attributor stays usable: repeating the call, once or after several failures, and every other call give exactly what an attributor that never failed gives; after a cache call that failed it refuses to score or answers from one consistent state, never from a mixture of what was cached before and what was not finished.",
 ["inputs","fault points","histories"],"every attributor, configuration and batching; every occurrence of a batch being collated, a module being run or a gradient being computed",
 "Tests never make a call fail.",
 ["dattri/task.py",A+"base.py",A+"influence_function.py",A+"dvemb.py",A+"rps.py",B+"block_projected_if.py",B+"core/hook.py",B+"core/compressor.py"],[("cache/attribute/self_attribute",A+"base.py"),("hook life cycle",B+"core/hook.py:remove_hooks")],["exceptions, snapshots of caller objects, scores of the repeated calls"])
p("P40","Scores depend on the function, the checkpoints and the data, not on how they are packaged",
 "Two attribution problems with the same function of the same parameters, the same checkpoints and the same samples get the same scores from every attributor, however they are packaged: modules nested in wrappers, given other names or registered in another order, extra parameters nothing depends on, parameters tied between modules, parameters stored with other strides or as views of one buffer, meaningless initial weights, a model handed over in training mode; checkpoints as dictionaries, files or loaded by a function that returns a new model; loss and target callables as functions, objects, partials, with other argument names or optional arguments; samples from other dataset types, loaders with workers or uneven batches where accepted.",
 ["inputs","configurations"],"every attributor, model, checkpoint set, data set and every combination of packagings",
 "Tests use one packaging of each problem.",
 ["dattri/task.py","dattri/func/utils.py",A+"base.py",A+"influence_function.py",A+"trak.py",A+"rps.py",A+"dvemb.py",B+"block_projected_if.py"],[("AttributionTask","dattri/task.py"),("flatten_func","dattri/func/utils.py"),("attribute",A+"base.py")],["scores of twin problems"])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
    with open(out,'w') as f:
        for q in P: f.write(json.dumps(q)+'\n')
    print(len(P))
