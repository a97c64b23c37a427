"""Source of properties.jsonl (python3 tools/properties.py > properties.jsonl)."""
import json

OPT = "singd/optim/optimizer.py"
UTL = "singd/optim/utils.py"
STR = "singd/structures"
ALLSTR = [f"{STR}/{f}.py" for f in (
    "base", "dense", "diagonal", "blockdiagonal", "hierarchical", "triltoeplitz",
    "triutoeplitz", "recursive", "utils")]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Every step applies exactly the documented natural gradient update",
     "After every optimizer step, each trained parameter equals its old value minus lr times its momentum buffer, where the buffer is momentum times the old buffer plus C C' G K K' plus weight_decay times the old parameter, with G the gradient held by the parameter (weight and bias concatenated) and K, C the layer's current pre-conditioner. This holds for every supported layer, structure and hyper-parameter value, at every step of a history, including after a learning rate scheduler or the user changed a hyper-parameter.",
     ["histories", "configurations", "inputs"],
     "all histories of training steps, accumulations, repeated steps and hyper-parameter changes; all structures, layer types, hyper-parameters, schedulers",
     "The stable tests never compare a parameter after a step with the update rule over several steps; the end-to-end tests run a handful of steps with one configuration on data that is not available offline.",
     [OPT, UTL], [("natural gradient computation", f"{OPT}:_compute_natural_gradient"), ("momentum, weight decay, parameter update", f"{OPT}:_step")],
     [("momentum buffer", "accumulated update of a parameter", f"{OPT}:_step")], ["parameters and optimizer state after each step"])

prop("C02", "The pre-conditioner follows the documented recursion at every refresh",
     "At every refresh, K and C of a layer become K(I - lr_cov m_K) and C(I - lr_cov m_C), where the momenta m_K, m_C are formed from the curvature statistics, the damping, Riemannian momentum and the average traces as documented for the chosen update rule (SINGD or KFAC-like, with or without normalization). The statistics are exactly those of the layer inputs and output gradients of the backward passes since the last refresh, and the result lies in the chosen structure.",
     ["histories", "configurations", "inputs"],
     "all sequences of refreshes, all pairs of structures, update rules, constant/scheduled lr_cov, approximations, loss averaging conventions, networks with linear/convolution/weight-sharing layers",
     "Existing tests check the statistics of one backward pass; the recursion, its momenta, schedules and the interaction of two different structures over several refreshes is never compared with a reference.",
     [OPT, UTL] + ALLSTR, [("pre-conditioner update", f"{OPT}:_update_preconditioner"), ("accumulation of statistics", f"{OPT}:_accumulate_H_terms")],
     [("Ks, Cs", "pre-conditioner factors", OPT), ("m_Ks, m_Cs", "Riemannian momenta", OPT), ("H_Ks, H_Cs", "pending statistics", OPT)], ["pre-conditioner after each step"])

prop("C03", "The pre-conditioner is refreshed exactly on schedule with fresh statistics",
     "A layer's pre-conditioner changes only in steps whose index is a multiple of its refresh period and only if backward passes contributed statistics since the last refresh; in every other step it stays bitwise unchanged. A refresh uses every statistic of those backward passes exactly once, independent of how forward, backward, gradient-free forward, zero_grad and step calls interleave and of the periods of other layers.",
     ["histories", "schedules"],
     "all interleavings of forward (graph pending, dropped), backward of any pending graph, gradient-free forward, zero_grad, step and period changes up to a depth, for several periods per group",
     "The tests only ever run the canonical zero_grad/forward/backward/step cycle with a fixed period.",
     [OPT], [("hook installation depends on the step", f"{OPT}:_register_tensor_hook_on_output_to_accumulate_H_terms"), ("refresh condition and flushing", f"{OPT}:_update_preconditioner")],
     [("steps", "index of the current step", OPT), ("H_Ks, H_Cs", "pending statistics", OPT)], ["pre-conditioner, pending statistics after each event"])

prop("C04", "Gradient scaling is transparent",
     "With any sequence of gradient scales, announced by a gradient scaler or by the user and with any initial scale, pre-conditioner, momenta and parameters after every step equal those obtained without scaling up to rounding. This includes gradients which were already un-scaled in place before the step.",
     ["histories", "configurations"],
     "all sequences of scales over a value set, all ways to announce them, all refresh periods and update rules, real gradient scalers with growth, un-scaling and clipping, several scaled backward passes per step",
     "Scales change at data-dependent points over hundreds of steps; the tests use one constant sequence, and the tests with a scaler need data that is missing offline.",
     [OPT], [("un-scaling of statistics with the previous and current scale", f"{OPT}:_update_preconditioner"), ("un-scaling of the gradient", f"{OPT}:_compute_natural_gradient"), ("scale book-keeping", f"{OPT}:set_current_grad_scale")],
     [("_grad_scales", "scales of the last two steps", OPT)], ["parameters, pre-conditioner after each step"])

prop("C05", "Steps with overflowing gradients are skipped without a trace",
     "If infinities were reported for a step, that step leaves parameters, pre-conditioner, momenta and momentum buffers bitwise unchanged, issues a warning every time and advances the step counter. Nothing computed from the overflowing backward passes influences any later step.",
     ["fault_sequences", "histories"],
     "all placements of overflows in a history, in any of the accumulated micro-batches of a step, flagged directly or by a real scaler",
     "No test injects an overflow.",
     [OPT], [("skip branch of step", f"{OPT}:step")],
     [("H_Ks, H_Cs", "pending statistics dropped on a skip", OPT)], ["full optimizer state before and after a skipped step"])

prop("C06", "Training resumed from a checkpoint is identical to uninterrupted training",
     "Saving model and optimizer at any point between two backward passes or steps, and restoring into freshly built ones (same or new process, any hyper-parameters), continues bitwise identically to the uninterrupted run. Saving does not disturb the run, restoring leaves the saved state unmodified and sharing nothing with it, so it can be restored repeatedly.",
     ["crash_points", "histories", "configurations"],
     "every cut of histories with accumulation, refresh periods, overflows, scaler, scheduler, hyper-parameter changes; every way to restore",
     "The only checkpoint test needs missing data and cuts at one point between epochs.",
     [OPT], [("serialization", f"{OPT}:state_dict"), ("restoring", f"{OPT}:load_state_dict")],
     [("STATE_ATTRIBUTES", "state kept outside Optimizer.state", OPT)], ["all parameters, pre-conditioners, buffers after every later event"])

prop("C07", "Accumulating micro-batches is equivalent to one large batch",
     "Splitting a mini-batch into micro-batches whose weighted losses add up to the mini-batch loss, and stepping after the last backward pass, yields the same parameters and pre-conditioner as one backward pass on the whole batch, up to rounding. This holds at every step of a history, for every order and number of equally sized micro-batches and every refresh period.",
     ["histories", "configurations"],
     "all partitions of a batch into equal micro-batches and all orders, per step of the history independently, all structures and update rules",
     "The stable tests contain no accumulation; the upstream test for it needs missing data and one split.",
     [OPT], [("accumulation across backward passes", f"{OPT}:_accumulate_H_terms")],
     [("H_Ks, H_Cs", "sums over backward passes", OPT)], ["parameters, pre-conditioner after each step"])

prop("C08", "Distributed training equals single-process training on the union batch",
     "With any number of processes which each see an equal shard of the batch, every process holds the same parameters and pre-conditioner after every step, equal up to rounding to one process that sees the whole batch. All processes issue matching collective operations in every schedule, so none waits forever or mixes up tensors.",
     ["schedules", "configurations", "histories"],
     "all interleavings of the ranks' collective operations up to a bound, 1-4 ranks, all structures, loss averaging conventions, refresh periods, accumulation",
     "The distributed test needs spawned processes, a backend without the averaging reduction, and missing data; it explores whatever schedule occurs.",
     [OPT, f"{STR}/base.py"], [("reduction of statistics", f"{OPT}:_accumulate_H_terms"), ("reduction of natural gradients", f"{OPT}:_compute_natural_gradient"), ("all_reduce of a structured matrix", f"{STR}/base.py:all_reduce")],
     (), ["state of all ranks, sequence of collective operations"])

prop("C09", "Parameter groups behave like independent optimizers",
     "Training with any assignment of whole layers to parameter groups, each with its own hyper-parameters (learning rates, structures, refresh period, precision, approximation, loss convention, update rule), is identical to training each group with its own optimizer using those hyper-parameters. The order of the groups and of parameters inside a group does not matter.",
     ["configurations", "histories"],
     "all partitions of the layers of a network into groups in all orders, every hyper-parameter varied per group",
     "Tests only check that conflicting groups are rejected and one two-group run which needs missing data.",
     [OPT], [("lookup of a layer's group", f"{OPT}:_get_param_group_entry"), ("group consistency", f"{OPT}:_check_param_groups")],
     [("param_to_group_idx", "group of every parameter", OPT)], ["parameters, pre-conditioner after each step"])

prop("C10", "Only the handed-over parameters with gradients ever change",
     "A step changes a parameter only if it was handed to the optimizer (by default: all trainable parameters of supported layers) and currently has a gradient; everything else in the model, including layers that did not take part in the backward pass, frozen ones and buffers, stays bitwise unchanged, and the step never fails because of them. When the selection is left to the optimizer, every trainable parameter it does not train is announced by a warning (and by none if warnings were turned off).",
     ["configurations", "histories"],
     "all subsets of the parameters of a network as selection, all requires_grad masks (at construction and changed during training), all subsets of layers that are reached by the backward pass, nested module trees with supported and unsupported layers",
     "Tests train all layers of two fixed networks with everything trainable.",
     [OPT], [("default selection and warnings", f"{OPT}:_get_trainable_parameters"), ("hooks on selected layers", f"{OPT}:_install_hooks"), ("parameter update", f"{OPT}:_step")],
     [("module_names", "trained layers", OPT)], ["all model parameters and buffers after each step, warnings at construction"])

prop("C11", "The optimizer observes training without disturbing it",
     "With the optimizer attached, outputs, losses and gradients of every forward and backward pass are bitwise those without it, also with in-place activations, repeated or higher-order backward passes, gradient-free passes and evaluation mode. Steps do not modify gradients, inputs or the random number generators, and identical runs give bitwise identical results.",
     ["histories", "configurations"],
     "all event words over forward, backward, gradient-free forward, in-place activation, step, on all layer types",
     "One smoke test runs an in-place activation once without comparing gradients.",
     [OPT], [("tensor hook on the layer output", f"{OPT}:_register_tensor_hook_on_output_to_accumulate_H_terms"), ("accumulation works on copies", f"{OPT}:_accumulate_H_terms")],
     (), ["outputs, gradients, inputs, RNG state"])

prop("C12", "Structured matrix arithmetic agrees with dense arithmetic",
     "For every structure and size, the product, sum, difference, scalar multiple, transpose-multiply and diagonal shift of structured matrices, and products with tensors, represent exactly the result of the same operation on the dense matrices they stand for. Converting a structured matrix to dense and constructing identity and zero matrices are consistent with this.",
     ["inputs", "configurations"],
     "all sizes up to a bound plus sizes around block boundaries; all pairs of basis matrices of a structure (bilinear operations are determined by them); nested structures",
     "Tests use sizes 1 and 10 only, where e.g. block sizes 30 and 15+15 degenerate, and random symmetric operands.",
     ALLSTR, [("operations", f"{STR}/base.py"), ("structured overrides", f"{STR}/*.py")], (), ["dense representation of results"])

prop("C13", "Structured curvature extraction agrees with its dense definition",
     "For every structure and size, extracting a structured matrix from a symmetric dense matrix, from X X', from M M' or M' M and from M' X X' M for a structured M gives the documented projection of that dense matrix: entries whose mirror image is outside of the structure count twice, Toeplitz diagonals are averaged. This also holds for every non-symmetric structured M and rectangular X.",
     ["inputs", "configurations"],
     "all sizes up to a bound plus sizes around block boundaries, all basis matrices M and all pairs of unit columns, nested structures",
     "Tests use sizes 1 and 10 and symmetric operands, so blocks never exceed their limits and transposed blocks cannot be told apart.",
     ALLSTR, [("from_dense", f"{STR}/*.py"), ("from_inner, from_inner2, from_mat_inner", f"{STR}/*.py")], (), ["dense representation of results"])

prop("C14", "Scalar summaries of structured matrices agree with the dense matrix",
     "The average trace, the Frobenius norm, the largest absolute entry and the sums along diagonals reported for a structured matrix equal those of the dense matrix it represents, for every structure, size and content. This includes Toeplitz matrices whose few stored numbers stand for many entries, and matrices whose structurally zero part matters.",
     ["inputs", "configurations"],
     "all sizes up to a bound plus sizes around block boundaries, all basis matrices and sign patterns of the stored entries",
     "Tests sample sizes 1 and 10 with one random content each.",
     ALLSTR, [("average_trace, frobenius_norm, infinity_vector_norm", f"{STR}/base.py and overrides")], (), ["returned scalars"])

prop("C15", "Structured matrices are values: no operation affects another matrix",
     "After any sequence of in-place and out-of-place operations on several structured matrices, every matrix equals the result of the same sequence on dense matrices; in particular an operation modifies only the matrix it is applied to and never its operands or matrices derived earlier. Structured data can therefore be kept, copied and accumulated without defensive copies.",
     ["programs", "histories"],
     "all operation sequences up to a depth over a pool of matrices, for every structure",
     "Tests apply one operation to fresh operands and look at the result only.",
     ALLSTR, [("in-place operations", f"{STR}/base.py"), ("constructors and tensor registration", f"{STR}/base.py:register_tensor")], (), ["all matrices of the pool after every operation"])

prop("C16", "Pre-conditioners keep their structure, precision and size throughout training",
     "At every point of training, each pre-conditioner factor, momentum and pending statistic has the structure, data type and size configured for its layer, and parameters, gradients and momentum buffers keep their own data type, for every combination of parameter precision, pre-conditioner precision and autocast precision. The result agrees with the reference computed in exact arithmetic up to the rounding of those precisions.",
     ["configurations", "histories"],
     "all combinations of parameter, K and C data types, autocast on/off and data type, all structures, histories with refreshes, accumulation and checkpoints",
     "Mixed precision is only covered by runs that need missing data.",
     [OPT] + ALLSTR, [("data type resolution", f"{OPT}:_get_preconditioner_dtypes_and_device"), ("casts in update and accumulation", OPT)], (), ["class, dtype, shape of all quantities after every event"])

prop("C17", "Input statistics reproduce the layer's own linear map",
     "The matrix form of a layer's input is such that multiplying it with the layer's matrix-shaped weight (and bias) gives the layer's output, at every output location and for every layer hyper-parameter: stride, padding (also named and non-zero modes), dilation, kernel shape, groups, bias, any number of shared dimensions. Its scaling and averaging over shared locations follow the documented expand and reduce approximations.",
     ["inputs", "configurations"],
     "all convolution hyper-parameters in a box and all unit inputs (the map is linear), all shapes of linear inputs up to a bound",
     "Tests list a few convolution configurations without groups combined with dilation, named padding or padding modes.",
     [UTL], [("unfolding", f"{UTL}:conv2d_process_input"), ("linear layers", f"{UTL}:linear_process_input")], (), ["processed inputs versus layer output"])

prop("C18", "Output gradient statistics are scaled consistently with the loss",
     "For every layer type, loss averaging convention and approximation, the Gram matrix of the processed output gradients is the sum (summed losses) or the mean (losses averaged over batch, or batch and sequence) over the loss terms of the outer products of per-term gradients, for expand per location and for reduce summed over locations first. Hence duplicating the samples of an averaged loss changes nothing, and expand and reduce agree for layers without weight sharing.",
     ["inputs", "configurations"],
     "all layer types, shapes, averaging conventions and approximations in a box, all unit output gradients",
     "Tests check two conventions on few fixed shapes.",
     [UTL], [("scaling", f"{UTL}:conv2d_process_grad_output, linear_process_grad_output")], (), ["processed gradients"])

prop("C19", "Invalid configurations are rejected, valid ones are accepted",
     "Constructing the optimizer with a distributed wrapper, a negative (integer or floating point) default learning rate, momentum or weight decay, an unknown approximation, loss convention or structure (as default or in any group), or with parameters of one layer spread over several groups raises an error and leaves the model unmodified and without hooks; stepping with a closure raises an error and has no effect. Every other combination of documented values is accepted and trains.",
     ["configurations"],
     "all single and pairwise combinations of valid and invalid values of every option, as default and per group; all splits of layer parameters over groups",
     "Tests reject one group conflict; no test covers the other options or per-group values.",
     [OPT], [("validation", f"{OPT}:__init__, _check_param_groups, step")], (), ["raised errors, model and hooks after a rejected construction"])

prop("C20", "Structured matrices are exactly what their components describe",
     "Building a matrix of any structure from its components, including nested ones, yields the dense matrix with these components at their documented places; components whose shapes do not describe one square matrix are rejected, and so are products with tensors of another number of rows. Converting to dense and extracting again recovers the same components up to the documented symmetrization.",
     ["inputs", "configurations"],
     "all component shapes in a box (valid and invalid), all unit components, all structures and nesting",
     "Tests construct only consistent components for sizes 1 and 10.",
     ALLSTR, [("constructors and shape checks", f"{STR}/*.py:__init__"), ("to_dense", f"{STR}/*.py:to_dense")], (), ["dense representation, raised errors"])

prop("C21", "The update direction never opposes the gradient",
     "Whatever the pre-conditioner has become, for every structure, history and precision the pre-conditioned gradient C C' G K K' has a non-negative inner product with the gradient G, because pre-conditioning is a product of positive semi-definite maps. Zero gradients without weight decay and momentum leave the parameters unchanged.",
     ["histories", "inputs"],
     "all unit gradients of a layer in all states reached by event words, all structures and hyper-parameters including unstable ones",
     "No test inspects the sign of an update; a transposed factor shows only for non-symmetric K and C.",
     [OPT] + ALLSTR, [("symmetric application of K and C", f"{OPT}:_compute_natural_gradient")], (), ["parameter change of a step"])

prop("C22", "Optimizers and models do not interfere with each other",
     "Any number of optimizers attached to different models, or to disjoint layers of the same model, behave as if each was alone, in every interleaving of their forward passes, backward passes and steps. A model shared between two optimizers trains each parameter by exactly its own optimizer. Copies of a model made at any time (by deepcopy, pickle or weight averaging) are independent, usable models: running or training them, with or without an own optimizer, neither fails nor affects the original.",
     ["schedules", "histories"],
     "all interleavings of the events of two optimizers' training loops up to a length",
     "Tests always use a single optimizer.",
     [OPT], [("hooks per optimizer", f"{OPT}:_install_hooks"), ("per-instance state", f"{OPT}:__init__")], (), ["state of every optimizer after each event"])

prop("C23", "Training depends on the mathematics only, not on presentation",
     "Presenting the same training problem differently gives the same trajectory up to rounding: permuting or (for averaged losses) duplicating the samples of a batch, registering layers in another order, nesting or name, splitting shared dimensions, replacing a convolution by an equivalent linear layer or by padding or sub-sampling in front of it, passing the input of a layer by keyword or without a batch axis instead of a batch of one, other memory layouts of parameters, inputs or gradients (also when the storage of parameters is replaced between steps, as by vector_to_parameters), choosing two structures that describe the same set of matrices at a given size, permuting features for dense and diagonal structures (rotating them for dense ones), or options that coincide without weight sharing.",
     ["configurations", "histories", "inputs"],
     "all permutations of small batches, all registration orders of a network's layers, all equivalent pairs of structures per size, all equivalent layer pairs",
     "Tests compare one pair of implementations per feature on fixed data; no test compares two presentations through training.",
     [OPT, UTL] + ALLSTR, [("layer-wise independence", OPT), ("shape handling", UTL)], (), ["parameters after each step"])

prop("C24", "The optimizer's memory is what the structures promise and does not grow",
     "At every point of every history the tensor storage held by the optimizer is at most that of the free entries of the selected structures, in the configured precision: once per layer and factor, once more for Riemannian momenta only if they are enabled, once more for pending statistics only between a backward pass and the next refresh, plus one momentum buffer per trained parameter only if momentum is enabled. The results of all operations on structured matrices hold only the free entries of their structure. Nothing of a mini-batch is kept alive after its step, and neither hooks nor book-keeping grow with the number of forward passes, backward passes, steps or checkpoint restores.",
     ["histories", "configurations", "inputs"],
     "all event words up to a length for all structures and hyper-parameter profiles, each repeated several times; all operations of all structures over a box of sizes",
     "Tests never look at memory; leaks and dense leftovers do not change any number a test compares.",
     [OPT] + ALLSTR, [("flushing of statistics and scales", f"{OPT}:_update_preconditioner, _remove_used_grad_scales, step"), ("momenta only if enabled", f"{OPT}:_initialize_buffers"), ("structured results", f"{STR}/*.py:from_inner, __matmul__, __add__")], (), ["reachable tensors, live tensors, hooks and container sizes after every event"])

prop("C25", "Results do not depend on process-wide defaults and settings",
     "Training and all operations on structured matrices give bitwise the same results, in the same precision and on the device of their operands, whatever PyTorch's process-wide settings are while they run: another default device than that of the model, another default data type, deterministic algorithms, autograd recording on or off around the step, anomaly detection. Training itself leaves these settings, random number generators and warning filters as they are.",
     ["configurations", "histories"],
     "all settings, during each phase of training or all of them, for all structures and event words up to a length; all operations, structures and sizes in a box",
     "Tests run with default settings on the CPU, where a tensor that is created on the wrong device or in the wrong precision goes unnoticed.",
     [OPT, UTL] + ALLSTR, [("tensors created by the optimizer", OPT), ("tensors created by structures", f"{STR}/*.py:zeros, eye, from_dense, to_dense")], (), ["all tensors of the optimizer and their devices after every event"])

prop("C26", "Omitted options have their documented defaults, and warnings are as documented",
     "Training with options omitted is bitwise the same as with the documented default values given explicitly, and as with the same options given to a parameter group. User warnings are issued exactly when documented: per group that combines kfac_like with Riemannian momentum (which is then switched off), for every module with trainable parameters that are not supported (if the parameters are selected by default and these warnings are not switched off), if the first gradient scale differs from one although no initial gradient scale was given, and for every skipped step.",
     ["configurations", "histories"],
     "all sets of up to two or three options with non-default values; all configurations of groups, initial scales and ways to hand over scales, and all event words up to a length",
     "Tests pass nearly all options explicitly and never look at warnings.",
     [OPT], [("defaults", f"{OPT}:__init__"), ("warnings", f"{OPT}:_check_param_groups, step, set_current_grad_scale")], (), ["state after every step, emitted warnings"])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
    if not p["anchors"]["state"]:
        del p["anchors"]["state"]
    print(json.dumps(p))
