"""The properties (single source of properties.jsonl and MANIFEST.json)."""
TECH = "contract-based deductive verification of the real Python source (own VC generator + z3)"
NOTE = ("Every contract is discharged for all sizes, batchings and values (loops by inferred and re-checked "
        "inductive invariants); floats are treated as reals, torch/numpy primitives as assumed contracts. "
        "The same contracts are also evaluated on the real code on random inputs (bounded, replay only).")


def P(id, title, statement, over, text, why, files, mech, level=None, note=NOTE, na=None, technique=TECH):
    return dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                why_tests_cant=why, anchors={"files": files, "mechanism": [
                    {"name": n, "where": w} for n, w in mech]},
                level=level, note=note, na=na or "check not built yet", technique=technique)


ALG = "dattri/algorithm/"
PROPS = [
 P("P01", "Inner-product attributors: scores are per-checkpoint averages",
   "For an attributor that scores by inner products, entry (i, j) of the result is the average over all checkpoints "
   "of the inner product of the transformed loss gradient of training sample i and the transformed target gradient "
   "of test sample j (for the relative-influence variants divided by training sample i's own denominator), whatever "
   "the batch sizes and however often scores were computed before. Self-attribution returns a one-dimensional tensor "
   "whose entry i is the same quantity for training sample i paired with itself. Dictionary batches score like tuple "
   "batches and other batch types are rejected with a TypeError.",
   ["inputs", "configurations", "histories"],
   "all numbers of checkpoints, samples, batch sizes (ragged last batch included), both transforms arbitrary, all "
   "three relatif settings, any earlier calls on the same object",
   "tests use one or two checkpoints, 10 to 20 samples with divisible batch sizes and mostly compare shapes",
   [ALG + "base.py"],
   [("attribute", ALG + "base.py::BaseInnerProductAttributor.attribute"),
    ("self_attribute", ALG + "base.py::BaseInnerProductAttributor.self_attribute")], level="proof"),
 P("P02", "TracIn, CosIn, Grad-Dot and Grad-Cos scores",
   "The score of training sample i for test sample j is the weighted sum over checkpoints of the inner product (or, "
   "when gradients are normalised, the cosine similarity) of the loss gradient of i and the target gradient of j, "
   "both taken at that checkpoint's parameters, restricted to the selected layers and passed through the same random "
   "projection for that checkpoint, independent of batch sizes. Self-attribution of sample i is the weighted sum of "
   "its squared loss-gradient norms (of the weights alone when gradients are normalised). A weight list whose length "
   "differs from the number of checkpoints is rejected with a ValueError and an unsupported batch type with a "
   "TypeError.",
   ["inputs", "configurations"],
   "all numbers of checkpoints, samples, batch sizes, weights, layer restrictions, projection dimensions and seeds",
   "tests run a fixed MNIST-like set with one batch size and only check shapes or one number",
   [ALG + "tracin.py"],
   [("attribute", ALG + "tracin.py::TracInAttributor.attribute"),
    ("self_attribute", ALG + "tracin.py::TracInAttributor.self_attribute")], level="proof"),
 P("P03", "TRAK scores",
   "Features are per-sample gradients (loss gradients for training samples, target gradients for test samples) "
   "divided by the square root of the number of trainable parameters and randomly projected; TRAK's score of training "
   "sample i for test sample j is the average over checkpoints of test feature times the inverse of (feature Gram matrix plus "
   "regularisation on its diagonal) times training feature, multiplied by the average over checkpoints of one minus "
   "i's correct-class probability, for any batch sizes. Attributing after caching the training set gives "
   "the same scores as attributing with that training set directly, and self-attribution (either way) returns one score per training "
   "sample: the same quantity with i's own training feature on both sides. A training loader given after "
   "caching, or none given without caching, is rejected with a ValueError.",
   ["inputs", "configurations", "histories"],
   "all numbers of checkpoints, samples, batch sizes, projection dimensions, seeds and regularisations; cached and "
   "uncached histories",
   "tests use two checkpoints, one batch size and check shapes and a few equalities of the same code path",
   [ALG + "trak.py"],
   [("attribute", ALG + "trak.py::TRAKAttributor.attribute"),
    ("self_attribute", ALG + "trak.py::TRAKAttributor.self_attribute"),
    ("cache", ALG + "trak.py::TRAKAttributor.cache")], level="proof"),
 P("P04", "KNN-Shapley values",
   "The value reported for training sample i and test sample j is i's Shapley value for the utility 'fraction of the "
   "k_neighbors nearest training samples whose label equals j's label' under the distance function, "
   "in the (test, train) matrix, for any number of neighbours (also more than there are training samples) and any "
   "batch sizes of the two loaders. Labels given explicitly are used as given; otherwise the last element of each "
   "batch is the label. A label list of the wrong length is rejected with a ValueError.",
   ["inputs", "configurations"],
   "all numbers of training and test samples, batch sizes, numbers of neighbours, distance functions without ties and labels",
   "tests check one 4-sample example and shapes for divisible batch sizes",
   [ALG + "data_shapley.py"],
   [("attribute", ALG + "data_shapley.py::KNNShapleyAttributor.attribute")], level="proof",
   note=NOTE + " Proved with explicit labels (the closed form of the recursion of Jia et al. 2019); labels taken from "
   "the batches, and the equality of that closed form with the Shapley value, are bounded (subset enumeration on the real code)."),
 P("P05", "Data value embeddings (DVEmb)",
   "The embedding of a training sample in an epoch is the sum over that epoch's steps containing it of the product of "
   "(I - eta_s G_s'G_s) over all later steps s of that and later epochs (latest leftmost) times eta times the sample's gradient, "
   "where eta is the step's learning rate divided by its batch size; scores are these embeddings (of one epoch, or "
   "summed over the epochs, optionally for selected samples) times the test gradients, whatever epoch numbers were used. "
   "In the factorised modes the gradients are those of the selected linear layers (inputs with or without a sequence axis), and with "
   "projection the inner products are those of the projected factors; caching inside the user's own training step "
   "gives the same as caching explicitly.",
   ["inputs", "histories", "configurations"],
   "all numbers of epochs, steps, batch sizes, repeated samples, learning rates, gradients and factorisation modes",
   "tests compare shapes and that epoch scores add up on one MNIST run",
   [ALG + "dvemb.py"],
   [("cache", ALG + "dvemb.py::DVEmbAttributor.cache"), ("attribute", ALG + "dvemb.py::DVEmbAttributor.attribute"),
    ("gradients", ALG + "dvemb.py::DVEmbAttributor._reconstruct_gradients")], level="proof",
   note=NOTE + " Histories of one and two epochs with any number of steps are proved against a reference recurrence; hooks on real modules are bounded."),
 P("P06", "Representer point selection (RPS) scores",
   "The score of training sample i for test sample j is the inner product of the final layer's inputs for i and j (each scaled to "
   "unit length when pre-activations are normalised) times the target function's derivative with respect to i's pre-activation "
   "for j's label (the only output of a one-output model), taken at the fine-tuned layer and the model's predicted probabilities, "
   "divided by -2 times the regularisation strength times the number of attributed training samples. The fine-tuned layer starts "
   "from the model's own final layer, minimises target function plus regularisation times squared norm by backtracking gradient descent on the cached "
   "full training set (on the attributed set if nothing was cached), and is the visited iterate with the smallest mean absolute "
   "gradient. The model keeps no hook and its parameters do not change.",
   ["inputs", "histories", "configurations"],
   "all numbers of samples, classes, features and batch sizes, all target functions, regularisation strengths and caching histories",
   "tests check the shape of the result for one configuration",
   [ALG + "rps.py", ALG + "utils.py", "dattri/model_util/hook.py"],
   [("attribute", ALG + "rps.py::RPSAttributor.attribute"), ("cache", ALG + "rps.py::RPSAttributor.cache"),
    ("weights", ALG + "utils.py::get_rps_weight"), ("fine-tuning", ALG + "utils.py::rps_finetune_theta"),
    ("line search", ALG + "utils.py::backtracking_line_search"),
    ("layer io", "dattri/model_util/hook.py::get_final_layer_io")], level="proof",
   note=NOTE + " rps_finetune_theta's loop is discharged for 1 to 3 epochs (bounded); autograd is an assumed contract."),
 P("P07", "Hessian- and inverse-Hessian-vector products",
   "hvp and hvp_at_x return H v + regularization v, H the Hessian of the function with respect to argument `argnums` at the given "
   "inputs, in both differentiation modes (other modes are refused); the explicit variants solve (H + regularization I) x = v for a "
   "vector or each row. CG returns the iterate after max_iter conjugate gradient steps started at v (a vanished residual stays put), "
   "Arnoldi the inverse restricted to the top_k eigenvalues on the Krylov space whatever the norm constant, and LiSSA the mean over "
   "num_repeat of e/scaling with e <- v + (1 - damping) e - H e / scaling for recursion_depth batches of batch_size samples drawn "
   "without replacement; inputs of different sizes are refused, and the fixed-input variants agree with the others for every option.",
   ["inputs", "configurations"],
   "all smooth functions, argument positions, dimensions, numbers of rows, iterations, repeats, batch sizes and regularisation strengths",
   "tests use one quadratic-like function and the default option values",
   ["dattri/func/hessian.py"],
   [("hvp", "dattri/func/hessian.py::hvp"), ("hvp_at_x", "dattri/func/hessian.py::hvp_at_x"),
    ("explicit", "dattri/func/hessian.py::ihvp_at_x_explicit"), ("cg", "dattri/func/hessian.py::ihvp_at_x_cg"),
    ("lissa", "dattri/func/hessian.py::ihvp_lissa")], level="proof",
   note=NOTE + " CG and LiSSA are proved equal to reference iterations for any number of steps and an arbitrary Hessian operator; "
   "the Arnoldi iteration is bounded (compared with explicit inverses and Krylov projections in up to 6 dimensions)."),
 P("P08", "Fisher products and EK-FAC inverse Fisher transformation",
   "ifvp_explicit and ifvp_at_x_explicit solve (g g^T + regularization I) x = v, g the gradient with respect to argument `argnums`, for a "
   "vector or each row. EK-FAC averages a a^T and g g^T (a a layer's input with 1 appended when it has a bias, g the per-sample loss gradient "
   "at its output; masked steps left out and not counted) over every sample of the first max_iter batches whatever the batch size, takes "
   "their eigenvectors Q_a, Q_s, averages the squared entries of Q_s^T dW Q_a over samples into Lambda, and transforms a gradient block V=[W|b] "
   "to Q_s ((Q_s^T V Q_a) / (Lambda + damping)) Q_a^T. The layers are the named ones (all linear ones by default), each keeping its place; "
   "several checkpoints are refused.",
   ["inputs", "configurations"],
   "all layer sizes, numbers of samples and steps, batch sizes, max_iter, masks, damping strengths, layer selections and linear models",
   "tests check shapes and one batch size without biases, masks or sequences",
   ["dattri/func/fisher.py", "dattri/algorithm/influence_function.py"],
   [("explicit", "dattri/func/fisher.py::ifvp_explicit"), ("covariance", "dattri/func/fisher.py::estimate_covariance"),
    ("lambda", "dattri/func/fisher.py::estimate_lambda"), ("ekfac", "dattri/algorithm/influence_function.py::IFAttributorEKFAC")],
   level="proof",
   note=NOTE + " The forward hooks and backward pass are represented by a layer cache holding arbitrary activations and output gradients; "
   "every masked batch is assumed to have a valid step."),
 P("P09", "Random and Arnoldi projections are fixed linear maps",
   "random_project applies, to a tensor or to the concatenated tensors of a dict, one fixed linear map per ensemble id, determined by the "
   "seed, type, dimensions and ensemble alone: not by the batch, earlier calls, other ensembles used in between or free_memory. normal and "
   "rademacher entries are draws divided by sqrt(proj_dim), a different draw for every entry, block and ensemble; random_mask keeps proj_dim "
   "distinct features; sjlt and grass send each (kept) feature with a random sign to one column; identity returns the features. Chunks cover "
   "all features and a chunked projection is the sum of its chunks', for dicts and tensors alike. Types a device lacks are refused. "
   "arnoldi_project computes g.u / (norm_constant sqrt(eigenvalue)) and ignores non-positive eigenvalues.",
   ["inputs", "histories", "configurations"],
   "all feature and projection dimensions, numbers of blocks, seeds, ensemble ids and call histories, dict shapes and chunk sizes",
   "tests check shapes and a few seeds on one small model; the CUDA projectors are not exercised without a GPU",
   ["dattri/func/projection.py", "dattri/func/utils.py", "dattri/params/projection.py"],
   [("project", "dattri/func/projection.py::random_project"), ("basic", "dattri/func/projection.py::BasicProjector"),
    ("cuda", "dattri/func/projection.py::CudaProjector"), ("chunked", "dattri/func/projection.py::ChunkedCudaProjector"),
    ("arnoldi", "dattri/func/projection.py::ArnoldiProjector")],
   level="proof",
   note=NOTE + " Random generators are uninterpreted (a draw is a function of seed, position and shape); sjlt's kernel is represented by the "
   "matrix it applies; chunking is proved for up to three parameters of any size, one of them spanning up to three chunks; the Arnoldi iteration itself is bounded."),

 P("P10", "Parameter vectors: flattening, unflattening and partial parameters",
   "flatten_params concatenates the tensors of a dict in its order, each in row-major order, whatever their shapes. Unflattening a vector, "
   "or a tuple of vectors, for a model gives each trainable parameter (frozen ones are skipped) its consecutive entries in its own shape, in "
   "the model's order, so flattening the result returns the vector. flatten_func passes the function these parameters by name at the stated "
   "argument position and leaves the other arguments alone. partial_param passes the full vector with the listed parameters, in the listed "
   "order, taken from its argument and all others from the given dict, which stays unchanged from call to call. _vectorize concatenates per "
   "sample and refuses different batch sizes.",
   ["inputs", "histories"],
   "all sizes of the parameters, every mixture of scalars, vectors, matrices and kernels, trainable or frozen, in any listed order, repeated calls",
   "tests flatten one or two small models in their own order and never call a partial function twice",
   ["dattri/func/utils.py"],
   [("flatten", "dattri/func/utils.py::flatten_params"), ("unflatten", "dattri/func/utils.py::_unflatten_params"),
    ("flatten_func", "dattri/func/utils.py::flatten_func"), ("partial", "dattri/func/utils.py::partial_param"),
    ("vectorize", "dattri/func/utils.py::_vectorize")], level="proof",
   note=NOTE + " The list of parameters is one fixed mixture (six parameters of arbitrary sizes); other mixtures are runtime-checked."),

 P("P11", "Attribution tasks: every function and vector belongs to its checkpoint",
   "get_param(c) returns the trainable parameters of checkpoint c (those of layer_name, a name or a list in its order; one vector, or with "
   "layer_split one per parameter together with a map that starts a new index where the layer changes) and leaves the model holding checkpoint "
   "c. Loss and target functions apply the user's function to the parameters in their vector; with layer_name the other parameters are those of "
   "the checkpoint the function was requested for. Gradient functions are the per-sample gradients of these over the requested axes. All of "
   "this holds after any earlier or later requests for other checkpoints, layers or axes. target_func defaults to the loss; checkpoints may be "
   "paths, state dicts or anything the user's load function accepts.",
   ["histories", "inputs", "configurations"],
   "any number of checkpoints, any order of requests for checkpoints, layers and axes, all parameter sizes, models loaded in place or replaced",
   "tests request functions for one or two checkpoints in order and never use one after another checkpoint was loaded",
   ["dattri/task.py"],
   [("load", "dattri/task.py::AttributionTask._load_checkpoints"), ("param", "dattri/task.py::AttributionTask.get_param"),
    ("grad loss", "dattri/task.py::AttributionTask.get_grad_loss_func"), ("grad target", "dattri/task.py::AttributionTask.get_grad_target_func"),
    ("loss", "dattri/task.py::AttributionTask.get_loss_func")], level="proof",
   note=NOTE + " torch.func.grad and vmap are recorded, not executed; the model has five parameters of arbitrary sizes; buffers are outside."),

 P("P12", "Influence functions: each variant's inverse-Hessian transform",
   "Explicit, CG and LiSSA transform representations by the sum over the cached training batches (tuple, list or dict) of the named solver's "
   "inverse-Hessian product for that batch's loss, at the checkpoint's selected parameters and with the attributor's settings; anything but "
   "tuple, list or dict batches is a TypeError. Their RelatIF denominators are sqrt(max(1e-12, <test gradient, T(training gradient)>)) for 'l' and "
   "max(1e-12, |T(training gradient)|) for 'theta'. DataInf is, layer by layer of the selected parameters, the mean over the cached per-sample "
   "training gradients g of the first ceil(ratio * batches) batches of (v - (v.g)/(lambda+|g|^2) g)/lambda. Arnoldi builds one projector per "
   "checkpoint on the first ceil(ratio * batches) batches, applies it to both sides, and refuses to run before cache().",
   ["inputs", "configurations", "histories"],
   "all data sizes, batch sizes, numbers of checkpoints, parameter sizes, layer selections, batch forms, ratios and solver settings",
   "tests compare solver variants on one model with tuple batches and check shapes or correlations, never the formulas",
   ["dattri/algorithm/influence_function.py"],
   [("explicit", "dattri/algorithm/influence_function.py::IFAttributorExplicit.transform_test_rep"),
    ("cg", "dattri/algorithm/influence_function.py::IFAttributorCG.transform_test_rep"),
    ("lissa", "dattri/algorithm/influence_function.py::IFAttributorLiSSA.transform_test_rep"),
    ("datainf", "dattri/algorithm/influence_function.py::IFAttributorDataInf.transform_test_rep"),
    ("arnoldi", "dattri/algorithm/influence_function.py::IFAttributorArnoldi.cache")], level="proof",
   note=NOTE + " The solvers' answers are those of P07, the projector that of P09; DataInf with lambda > 0 and three layers of four parameters of arbitrary sizes."),

 P("P13", "Evaluation metrics and ground truth follow their definitions",
   "lds and loo_corr are, per test sample, the Spearman (Pearson) correlation over subsets (left-out samples) of the ground truth with the sum of "
   "the scores of the subset (the score of the left-out sample itself); mislabel_detection_auc ranks samples by score, highest first, and returns the shares "
   "of clean and noisy samples found among the first i and the trapezoidal area. brittleness removes, for each size in the search order, the "
   "highest-scored samples the training loader selects, retrains on the rest with the same batch size, and returns the first size whose "
   "prediction differs from the label, else None. calculate_lds_ground_truth is minus the mean target over each subset's runs with the subsets' samples; "
   "calculate_loo_ground_truth the target of each saved model in the order of the left-out samples.",
   ["inputs", "configurations"],
   "all score matrices, ground truths and index sets, numbers of subsets and runs, loaders over whole or selected datasets, search spaces and outcomes",
   "tests evaluate one random score matrix and one toy directory and check shapes or types",
   ["dattri/metric/metrics.py", "dattri/metric/ground_truth.py", "dattri/metric/britteness.py"],
   [("lds", "dattri/metric/metrics.py::lds"), ("loo", "dattri/metric/metrics.py::loo_corr"), ("auc", "dattri/metric/metrics.py::mislabel_detection_auc"),
    ("brittleness", "dattri/metric/britteness.py::brittleness"), ("lds gt", "dattri/metric/ground_truth.py::calculate_lds_ground_truth"),
    ("loo gt", "dattri/metric/ground_truth.py::calculate_loo_ground_truth")], level="proof",
   note=NOTE + " scipy's correlations are uninterpreted; both classes present for the AUC; LOO directory listings up to 4 entries, search spaces of 3 and 10 sizes."),

 P("P14", "Retraining trains and stores the models it says it does",
   "retrain_loo trains, for every requested index, on exactly the samples the dataloader selects except that one, in order, with the same batch size, seed "
   "and extra arguments, saves the model as index_<i>/model_weights.pt, and afterwards writes metadata.yml with the mode, data length, function name, indices and "
   "./index_<i> directories. retrain_lds trains subset i, run j on the selected samples at floor(n*ratio) positions drawn without replacement "
   "by the generator seeded seed+i, with run seed seed+i*runs+j, saves the weights as <i>/model_weights_<j>.pt and the positions in <i>/indices.txt; this depends on i and j "
   "alone, however the subsets are split over calls, and the last call's metadata covers all subsets. Totals that are negative or no multiple "
   "of the number of subsets are refused before anything is trained.",
   ["inputs", "histories", "configurations"],
   "all dataset sizes, ratios, numbers of subsets and runs, seeds, splits over calls, loaders over whole or selected datasets",
   "tests retrain two or three toy models in one call and check that files exist",
   ["dattri/model_util/retrain.py"],
   [("loo", "dattri/model_util/retrain.py::retrain_loo"), ("lds", "dattri/model_util/retrain.py::retrain_lds")], level="proof",
   note=NOTE + " pathlib, yaml, torch.save and numpy's generators are a ghost file system and an uninterpreted draw; an explicit list of left-out samples is bounded to two."),

 P("P15", "Label noise, subset sampling, dropout activation and layer features",
   "flip_label reports exactly floor(p n) distinct positions; the labels there become other labels of the label space (the given list, array or tensor, "
   "else the labels present), all others and the input stay as they were, and the type and dtype are kept. SubsetSampler yields the given indices in order. "
   "activate_dropout puts the model in evaluation mode except for its dropout layers (the given ones: those whose dotted name contains a given name as whole "
   "components; all when none is given), which get the given probability and training mode, and refuses names that match another kind of layer. "
   "get_final_layer_io returns the named layer's input and output for every sample in loader order, without gradients, and leaves no hook behind.",
   ["inputs", "configurations"],
   "all label vectors, label spaces, probabilities, dataset and batch sizes, layer names",
   "tests flip one long tensor with the default space, activate one of two dropout layers, and check feature shapes",
   ["dattri/benchmark/utils.py", "dattri/model_util/dropout.py", "dattri/model_util/hook.py"],
   [("flip", "dattri/benchmark/utils.py::flip_label"), ("sampler", "dattri/benchmark/utils.py::SubsetSampler"),
    ("dropout", "dattri/model_util/dropout.py::activate_dropout"), ("features", "dattri/model_util/hook.py::get_final_layer_io")], level="proof",
   note=NOTE + " Labels lie in a label space of at least two; activate_dropout is checked on one tree of eight modules with up to two names."),

 P("P16", "Block projected influence: scores, preconditioners, cache and subsets",
   "With per-sample compressed layer gradients g_l(z), attribute returns, at row i and column j, the sum over layers of g_l(train i) . A_l g_l(test j), "
   "with A_l the identity copy (Identity) or (H_l + damping I)^-1, H_l the mean of g_l g_l^T over all cached samples (eFIM; stable_inverse's damping rule). Rows and columns follow the "
   "dataloaders' sample order, whatever the batch sizes, the chunking and the last ragged batch. cache() computes gradients, preconditioners and preconditioned "
   "gradients once per sample for the loader it is given, and a second cache() replaces everything of the first. Self-attribution is the "
   "diagonal of the same form. Asking before cache(), or with a shuffled loader, is refused.",
   ["inputs", "configurations", "histories"],
   "all sample counts, batch sizes, numbers of batches per chunk, layer dimensions, dampings and Hessian choices",
   "tests run one MLP with one batch size and compare shapes or two offload modes with each other",
   ["dattri/algorithm/block_projected_if/block_projected_if.py"],
   [("attribute", "dattri/algorithm/block_projected_if/block_projected_if.py::BlockProjectedIFAttributor.attribute"),
    ("cache", "dattri/algorithm/block_projected_if/block_projected_if.py::BlockProjectedIFAttributor.cache"),
    ("preconditioners", "dattri/algorithm/block_projected_if/block_projected_if.py::BlockProjectedIFAttributor.compute_preconditioners"),
    ("ifvp", "dattri/algorithm/block_projected_if/block_projected_if.py::BlockProjectedIFAttributor.compute_ifvp"),
    ("inverse", "dattri/algorithm/block_projected_if/core/utils.py::stable_inverse")], level="proof",
   note=NOTE + " Three layers of arbitrary sizes, uniform batches with a ragged last one; the offload stores are P17's contract; known finding: a training loader passed to attribute after a full cache is ignored."),

 P("P17", "Offload stores give back what was stored, batch by batch, in order",
   "Whatever the offload mode, retrieve_gradients(b) returns for every layer exactly what the last store_gradients(b) stored, and nothing of another batch (the memory and CPU stores also keep a test "
   "side apart, which the disk store skips); the same holds for preconditioned gradients and for each layer's preconditioner, and clear_cache forgets all of them. create_gradient_dataloader "
   "yields the batches in order, batch_size of them at a time (the rest in the last chunk), each concatenated to one tensor of all layers "
   "together with the mapping from batch number to its rows. The metadata give each batch its number of samples and start row, so that starts are the running sums of the "
   "counts also with a ragged or dropped last batch, and survive a save and load.",
   ["inputs", "configurations", "histories"],
   "all numbers of batches, batch and layer sizes, chunk sizes, batch ranges, orders of stores and reads",
   "tests store one or two batches and check that the same shape comes back",
   ["dattri/algorithm/block_projected_if/offload", "dattri/algorithm/block_projected_if/core/metadata.py"],
   [("memory", "dattri/algorithm/block_projected_if/offload/memory.py::MemoryOffloadManager"),
    ("cpu", "dattri/algorithm/block_projected_if/offload/cpu.py::CPUOffloadManager"),
    ("disk", "dattri/algorithm/block_projected_if/offload/disk.py::DiskOffloadManager"),
    ("metadata", "dattri/algorithm/block_projected_if/core/metadata.py::MetadataManager")], level="proof",
   note=NOTE + " Memory and CPU stores and the metadata are proved (chunks of 1, 2 and 4 batches; save/load with three batches); the threaded disk store is bounded: randomised histories at run time."),

 P("P18", "Linear-layer hooks deliver each sample's compressed gradient",
   "While a sample batch runs through a model with hooks on chosen linear layers (2-D, or batch x positions x features input, with or without bias), the compressed gradient "
   "collected for layer l and sample b is P(S1 x S2) applied to the gradient of sample b's own loss with respect to that layer's weight and bias, where the batch loss is the mean: "
   "batch_size times the sum over positions of output-gradient times [input | 1]; without compression it is that gradient itself. The gradients come in the order of the layer names, "
   "none for a layer that did not run, and are handed out once. Outputs and input gradients of the model are unchanged, and removing the hooks restores the layers. Setup "
   "gives every layer the same compressors for the same seed, different ones for different layers, and leaves no hooks behind. LoGra and FactGraSS configure both stages with the "
   "projection dimension, seed and batch size they are given and refuse dimensions that are no square.",
   ["inputs", "configurations"],
   "all batch sizes, positions, feature counts, seeds, layer numbers, projection dimensions",
   "tests run one small model and compare shapes",
   ["dattri/algorithm/block_projected_if/core/compressor.py", "dattri/algorithm/block_projected_if/core/hook.py", "dattri/algorithm/block_projected_if/logra.py",
    "dattri/algorithm/block_projected_if/factgrass.py", "dattri/algorithm/block_projected_if/block_projected_if.py"],
   [("per-sample gradient", "dattri/algorithm/block_projected_if/core/hook.py::_compute_compressed_grad"),
    ("backward", "dattri/algorithm/block_projected_if/core/hook.py::CompressedLinearBackward"),
    ("lifecycle", "dattri/algorithm/block_projected_if/core/hook.py::HookManager"),
    ("setup", "dattri/algorithm/block_projected_if/core/compressor.py::setup_model_compressors"),
    ("attributors", "dattri/algorithm/block_projected_if/factgrass.py::FactGraSSAttributor.__init__")], level="proof",
   note=NOTE + " Each chosen layer runs once per forward; the projectors are uninterpreted row maps (P09); math.sqrt of a whole number is exact."),
]
