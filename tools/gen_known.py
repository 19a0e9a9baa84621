"""Writes known_findings.json: defects fixed in /repo (suppress nothing) and defects recorded but not repaired."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = """P24 14fb54a partial_param overwrote the caller's parameter dict
P25 1b97988 a single layer name given as a string selected every parameter whose name it contains letter by letter
P02 03a289d CG inverse-HVP ignored tol and divided by a zero residual
P04 4e929bf Arnoldi cache failed for tuple/dict batches and changed loader batches
P18 0060d0f LiSSA attributor failed on dictionary batches
P25 07075ab parameters handed out for one checkpoint changed when another was loaded
P19 4658bda rev-fwd HVP failed or was wrong for functions of several arguments
P05 b9053c0 DataInf split representations by all model parameters although only some layers were selected
P06 0056a4f EK-FAC treated weight and bias of a layer as separate matrices
P06 f3e6955 EK-FAC rotated out of the eigenbasis instead of into it
P06 ec41ff4 EK-FAC statistics wrong for sequential layer inputs
P06 30f36ae EK-FAC cache failed on dictionary batches
P06 1ecd4b8 EK-FAC estimated the FIM on the target function and left gradients on the model
P21 fc2143c explicit FIM was not the outer product of the gradient
P05 7cb5197 DataInf and EK-FAC accumulated in float32 for other dtypes
P04 fe3a16e Arnoldi iteration failed for float64 input
P10 325bffa KNN-Shapley base case wrong when k exceeds the training set size
P09 831f3a9 final linear layer could not be a nested module
P15 ae18846 RPS read features under whatever checkpoint the shared task had loaded last
P09 7de7f87 representer values used the batch mean's loss derivative
P11 db00043 DVEmb failed for epochs not starting at zero
P15 f6e01cf DVEmb cache mixed embeddings of an earlier run
P13 0f48389 disk offload failed on machines without a GPU
P27 7056282 disk store lost track of chunk writes and swallowed failed ones
P26 51cfd6b disk store reads raced with writes, aliased or went stale
P26 6919c39 disk store rejected batches larger than a chunk and empty buffers
P27 3f08472 interrupted chunk write left a readable half-written chunk
P27 db23e85 iterating the disk store skipped unreadable chunks and lost the batch order
P15 97d9a4e block-projected cache mixed chunks of an earlier run and wrote files into the working directory
P12 b95bc4e block-projected attributors ignored the task's target function
P15 3cd5461 block-projected attribution of other training data used the cached data
P15 0abecae block-projected attributors read gradients under whatever checkpoint was loaded last
P27 9aed976 missing stored batches were scored as zero
P17 a9d1e97 hook manager left patched forward methods on the model
P28 6d97c78 FactGraSS ignored the configured projection seed
P28 6cbf1dc compressor setup failed for non-contiguous layer inputs
P04 981fb59 Arnoldi projector returned NaN for negative eigenvalues it reported as dropped
P20 d67cccb Arnoldi results were wrong for norm_constant other than 1
P20 bb7affa ihvp_at_x_lissa swapped batch size and number of repeats
P22 7bd50da grass projection differed between uses of one ensemble id
P22 93d8a61 BasicProjector could not project again after free_memory
P22 656bc96 chunked dict projection failed unless parameters ended at chunk boundaries
P27 ca61f39 missing preconditioners gave zero influence
P16 42795bd self_attribute was wrong for several batches and for normalized scores
P16 283a674 TRAK self_attribute failed after cache and returned a column
P08 4849131 TRAK without cache mis-broadcast probabilities of shape (batch, 1)
P19 ca2481a rev-rev HVP failed for integer-typed constant arguments
P03 67ac433 LiSSA attributor cast the data to float32 (float64 models and token ids failed)
P16 6af5fb6 TracIn self_attribute gave 1 for normalized zero gradients
P17 ef12e20 gradient capture left gradients behind on the caller's model
P29 3059431 loo_corr paired scores with the wrong removed indices
P30 4159930 brittleness removed the wrong positions, failed on 2-D scores and unsorted search spaces
P31 959bd4f LOO ground truth could not load the saved models
P32 696e771 retrain_loo metadata was not readable by a safe yaml loader
P32 6c78c03 retraining ignored the loader's sampler
P32 d86bdb0 sharded retrain_lds never wrote complete metadata
P32 e698b01 retrain_lds without a seed used seeds numpy rejects
P32 13dd7c8 retraining dropped the loader's collate function
P34 09fdc29 get_final_layer_io left its hook behind after a failed pass
P11 8270dfe DVEmb recorded failed context steps and masked their error
P11 f64d21d DVEmb left its hooks on the model when caching a batch failed
P06 ed29d5c EK-FAC left its hooks on the model when caching failed
P39 d1f6935 block-projected attributors left the model patched when a pass failed
P39 69702a8 compressor setup left its hooks on the model when the sample pass failed
P39 ccafd9a a failed checkpoint load was taken for the checkpoint loaded before
P39 dad6afa a failed EK-FAC cache left a mixture of old and new statistics
P12 3613dfd block-projected attributors mishandled layers a batch does not run
P40 205cd22 RPS used a stale model when the load function returns a new one
P11 b41088e DVEmb scaled the gradient of parallel layers more than once
P11 f1d7398 DVEmb's recorded steps changed when the caller reused its batch
P11 088a41f factorized DVEmb crashed on layers a batch does not run""".splitlines()
# Defects under dattri/benchmark: paths there count as test files for this task, so no commit may repair them.
# findings/<name>.diff is the repair that was written and checked (the checks are quiet on a tree with it).
FL = "flip_label-failed-on-numpy-labels-and-could-keep-the-label-or-leave-the-label-space"
B = "dattri/benchmark/"
KNOWN = [dict(property=p, where=B + w, what=t, repair=f"findings/{d}.diff", keys=k) for p, w, t, d, k in [
    ("P33", "utils.py flip_label", "flip_label raises AttributeError ('long') on numpy label arrays", FL, ["exception:flip:AttributeError:flip_label [numpy labels]", "exception:spread:AttributeError:flip_label [numpy labels]"]),
    ("P33", "utils.py flip_label", "flip_label raises RuntimeError on label tensors that are not int64 (index put of another dtype)", FL, ["exception:flip:RuntimeError:flip_label [labels not int64]"]),
    ("P33", "utils.py flip_label", "flip_label raises ValueError when int(p * n) is 0 (np.vectorize on no element)", FL, ["exception:flip:ValueError:flip_label [no label to flip]"]),
    ("P33", "utils.py flip_label", "flip_label can keep the old label of a position it reports as flipped when label_space is a tensor", FL, ["reported-but-kept [tensor label space]"]),
    ("P33", "utils.py flip_label", "flip_label can choose a label outside label_space when a present label is not in it (flipped labels are added to the space)", FL, ["in-label-space [present label outside the label space]"]),
    ("P35", "models/MusicTransformer/music_transformer.py generate", "beam search over several rows splits choices among TOKEN_END tokens by VOCAB_SIZE, so it extends the wrong rows with the wrong tokens", "beam-search-decoded-the-chosen-tokens-with-the-wrong-vocabulary-size", ["music-gen-beam [beam over several rows]", "music-gen-range [beam over several rows]"]),
    ("P35", "models/MusicTransformer/music_transformer.py generate", "generate with 0 < beam_chance < 1 raises RuntimeError when it samples after a beam step (truth value of several tokens)", "sampling-after-a-beam-step-failed-on-several-sequences", ["exception:musicgen:RuntimeError:generate [sampling with several sequences]"]),
    ("P35", "models/MusicTransformer/loss.py SmoothCrossEntropyLoss", "SmoothCrossEntropyLoss raises RuntimeError when ignore_index is outside the vocabulary (also its default -100) and occurs in the target", "SmoothCrossEntropyLoss-failed-on-ignored-targets-outside-the-vocabulary", ["exception:loss:RuntimeError:forward [ignored target outside the vocabulary]"]),
    ("P36", "datasets/imagenet/imagenet_resnet18.py loss_imagenet_resnet18", "loss_imagenet_resnet18 sums each batch, weights the sums by the batch size and divides by the sample count, so the loss depends on the batch size", "loss_imagenet_resnet18-depended-on-the-batch-size", ["mean-loss [batch sums weighted by batch size]"]),
    ("P36", "datasets/wikitext2/wikitext2_gpt2.py loss_wikitext2_gpt2", "loss_wikitext2_gpt2 returns one mean loss per batch instead of one loss per example", "loss_wikitext2_gpt2-returned-one-loss-per-batch-instead-of-per-example", ["one-loss-per-sample [batch means]", "sample-loss [batch means]"]),
    ("P37", "models/MusicTransformer/dataset/e_piano.py process_midi", "EPianoDataset(random_seq=True, full_version=True) draws the fragment at offset 0 of every piece at random (`if offset:` takes 0 for none)", "the-first-fragment-of-every-piece-was-a-random-one", ["window-input [first fragment drawn at random]", "window-target [first fragment drawn at random]"]),
    ("P37", "models/MusicTransformer/midi_processor/processor.py _snote2events", "encode_midi drops a velocity change when a quarter of the new velocity equals the previous raw velocity (20 then 80)", "midi-encoding-dropped-velocity-changes-that-happened-to-match-the-previous-raw-velocity", ["encoded-piece [velocity a quarter of the previous one]", "decoded-piece [velocity a quarter of the previous one]", "processed-piece [velocity a quarter of the previous one]", "custom-piece [velocity a quarter of the previous one]"]),
    ("P37", "datasets/maestro/data.py create_maestro_datasets", "create_maestro_datasets raises FileNotFoundError for a dataset path whose parents do not exist", "create_maestro_datasets-could-not-create-a-nested-dataset-path", ["exception:maestro:FileNotFoundError:create_maestro_datasets [nested dataset path]"]),
    ("P37", "models/MusicTransformer/dataset/preprocess_midi.py prep_custom_midi", "prep_custom_midi overwrites pieces whose names agree up to the first dot", "custom-midi-pieces-that-share-a-name-up-to-the-first-dot-overwrote-each-other", ["every-piece-kept [pieces sharing a name up to the first dot]", "piece-once [pieces sharing a name up to the first dot]"]),
    ("P37", "datasets/wikitext2/data.py create_wikitext2_dataset", "create_wikitext2_dataset raises TypeError for a block size beyond the tokenizer's maximum (logging.Logger.warning on the class)", "create_wikitext2_dataset-failed-for-block-sizes-beyond-the-model-s-maximum", ["exception:wikitext:TypeError:create_wikitext2_dataset [block size beyond the model's maximum]"]),
    ("P38", "models/nanoGPT/train.py initialize_indices", "nanoGPT training counts a last block whose final target does not exist when the text is a whole number of blocks: it fails when that block is drawn", "nanoGPT-training-failed-on-a-last-block-without-its-final-target", ["exception:whole:ValueError: [training text of whole blocks]", "exception:whole:RuntimeError: [training text of whole blocks]", "recorded-count [training text of whole blocks]", "recorded-distinct [training text of whole blocks]", "recorded-order [training text of whole blocks]"]),
]]
json.dump(dict(known=KNOWN, fixed=["fixed: property=%s %s %s" % tuple(l.split(" ", 2)) for l in FIXED]),
          open(os.path.join(HERE, "known_findings.json"), "w"), indent=1)
