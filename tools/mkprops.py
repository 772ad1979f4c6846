#!/usr/bin/env python
"""Generates properties.jsonl (run after editing a property)."""

import json
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
OPT = "singd/optim/optimizer.py"
UT = "singd/optim/utils.py"
S = "singd/structures/"
ALL_S = [
    S + f
    for f in (
        "base.py dense.py diagonal.py blockdiagonal.py hierarchical.py recursive.py "
        "triltoeplitz.py triutoeplitz.py utils.py"
    ).split()
]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe,
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [
            {"name": n, "meaning": m, "where": w} for n, m, w in state
        ]
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": " ".join(text.split())},
            "why_tests_cant": " ".join(why.split()),
            "anchors": anchors,
        }
    )


prop(
    "C01",
    "Parameters follow the documented pre-conditioned update rule",
    """After every optimizer step, each trained weight (joint with its bias) has changed by
    exactly minus the learning rate times the momentum-averaged sum of the
    pre-conditioned gradient (C C^T G K K^T with the layer's current factors) and weight
    decay times the old parameter. This holds for every supported layer, structure,
    hyper-parameter value (including values changed during training) and step of the
    training, and the gradient used is the one autograd accumulated.""",
    ["programs", "histories", "configurations"],
    """All models of linear and 2d convolution layers, data, hyper-parameters, structures,
    parameter groups and lengths of training; also histories in which hyper-parameters
    are changed between steps.""",
    """The tests compare a handful of fixed networks and hyper-parameters with a previous
    implementation for a few steps; they cannot quantify over models, settings and
    histories.""",
    [OPT],
    [
        ("SINGD._compute_natural_gradient", OPT),
        ("SINGD._step: weight decay, momentum buffer, update", OPT),
    ],
    ["model.parameters() before/after step()", "optimizer.Ks / optimizer.Cs"],
    [("momentum_buffer", "running average of updates per parameter", "optimizer.state")],
)
prop(
    "C02",
    "Pre-conditioner factors follow the documented inverse-free update",
    """In every pre-conditioner update, both factors of a layer change as documented: the
    (momentum-averaged) Riemannian gradient built from the projected input and output
    gradient curvature, the damping term and minus the identity is multiplied onto the old
    factor and subtracted with the factor learning rate. This holds for the coupled and
    the KFAC-like rule, every damping, Riemannian momentum, constant or scheduled factor
    learning rate, its normalization, every structure, and at every step from the identity
    initialization on.""",
    ["programs", "histories", "configurations"],
    """All layers, structures, damping, momentum and learning rate values or schedules, and
    all sequences of training steps.""",
    """The tests check a few configurations against an older implementation that shares
    formulas, on fixed seeds; most combinations of structure, normalization, momentum and
    coupling are never executed together.""",
    [OPT] + ALL_S,
    [
        ("SINGD._update_preconditioner", OPT),
        ("StructuredMatrix.from_inner / average_trace / add_ / diag_add_", S + "base.py"),
    ],
    ["optimizer.Ks / optimizer.Cs before and after step()"],
    [
        ("Ks, Cs", "pre-conditioner factors per layer", OPT),
        ("m_Ks, m_Cs", "Riemannian momenta", OPT),
    ],
)
prop(
    "C03",
    "Curvature statistics are correct for every layer geometry and loss scaling",
    """For each layer the input statistics equal the mean self outer product of its
    (bias-augmented) input rows or image patches, and the gradient statistics equal the
    per-sample-loss gradients' self outer products, aggregated as the chosen weight-sharing
    approximation prescribes. This holds for every number of weight-sharing dimensions,
    kernel size, stride, padding, padding mode, dilation, channel groups, bias, loss
    averaging, batch size and memory layout of the input.""",
    ["inputs", "configurations", "programs"],
    """All linear and convolution layer configurations, input shapes and layouts, values,
    approximations and loss averaging schemes, and any number of backward passes.""",
    """The tests use a fixed list of layer configurations; geometry has far more
    combinations than can be listed.""",
    [OPT, UT],
    [
        ("process_input, process_grad_output", UT),
        ("_extract_patches, _extract_averaged_patches", UT),
        ("SINGD._accumulate_H_terms", OPT),
    ],
    ["factors after the first update from the identity, which reveal the statistics"],
)
prop(
    "C04",
    "Update interval, schedules and passes without backward have the stated effect",
    """The factors of a layer change exactly in the steps that are multiples of its update
    interval and are bit-wise unchanged otherwise, and a scheduled factor learning rate is
    evaluated at the current step. Forward passes that are not back-propagated in the step
    (evaluation, no-grad or inference mode, discarded graphs) have no influence on the
    training.""",
    ["histories", "schedules", "configurations"],
    """All intervals per group, schedules, and interleavings of training steps with
    additional forward passes, including changes of the interval.""",
    """The tests use one interval per run and no additional forward passes.""",
    [OPT],
    [
        ("forward hook and its interval condition", OPT),
        ("SINGD._update_preconditioner: interval and schedule", OPT),
    ],
    ["optimizer.Ks / Cs", "calls of the schedule", "optimizer.steps"],
)
prop(
    "C05",
    "Each layer is governed by its own parameter group only",
    """Every hyper-parameter used for a layer is that of the group that contains its
    parameters, and nothing in another group influences it. Training with several groups
    is equivalent to training each group with an optimizer of its own, and neither the
    order of groups and parameters nor giving settings as defaults instead of per group
    matters.""",
    ["programs", "configurations", "histories"],
    """All partitions of a model's layers into groups with arbitrary differing settings,
    all orders, and all training data.""",
    """The tests contain a few group layouts, most with equal settings.""",
    [OPT],
    [
        ("SINGD._check_param_groups", OPT),
        ("SINGD._get_param_group_entry", OPT),
        ("SINGD._install_hooks", OPT),
    ],
    ["parameters and factors after each step"],
)
prop(
    "C06",
    "Accumulating micro-batches is equivalent to one mini-batch",
    """If a mini-batch is split into equally large micro-batches whose losses are scaled
    accordingly and back-propagated before a single step, parameters and pre-conditioners
    become the same (up to rounding) as if the mini-batch had been processed at once. The
    order of the micro-batches and how their forward and backward passes are interleaved
    does not matter, and what was accumulated in one step never leaks into another.""",
    ["schedules", "histories", "programs"],
    """All models, settings with averaged losses, numbers of micro-batches, and
    interleavings of their forward and backward passes over several steps.""",
    """The tests use one network, one split and strictly alternating passes.""",
    [OPT],
    [
        ("SINGD._accumulate_H_terms", OPT),
        ("flushing in SINGD._update_preconditioner", OPT),
    ],
    ["parameters and factors after each step"],
    [("H_Ks, H_Cs", "accumulated statistics of the current step", OPT)],
)
prop(
    "C07",
    "Training is invariant under gradient scaling",
    """Training with losses multiplied by any sequence of positive gradient scales that is
    communicated to the optimizer (through a gradient scaler or explicitly) gives the same
    parameters and pre-conditioners as training without scaling, up to rounding. This holds
    for scales that change in any step, with any announced initial scale, with gradient
    accumulation, any update interval, and after skipped steps.""",
    ["schedules", "histories", "configurations"],
    """All sequences of scales, initial scales, intervals, hyper-parameters and models.""",
    """The tests run two scale schedules on one network with interval one.""",
    [OPT],
    [
        ("SINGD.set_current_grad_scale, _get_grad_scale, _remove_used_grad_scales", OPT),
        ("un-scaling in _accumulate_H_terms and _update_preconditioner", OPT),
        ("un-scaling in _compute_natural_gradient", OPT),
    ],
    ["parameters and factors after each step"],
    [("_grad_scales", "scales of the previous and current step", OPT)],
)
prop(
    "C08",
    "A step with infinite gradients is skipped without a trace",
    """If the gradient scaler reports infinities, the step changes neither parameters nor
    momenta nor pre-conditioners, warns, discards everything accumulated from the bad
    batch, and only advances the step counter. All later steps behave as if the bad batch
    had never been processed, wherever and however often such steps occur.""",
    ["fault_sequences", "histories"],
    """All subsets of steps (and micro-batches) at which non-finite values are injected, for
    all models, intervals and settings.""",
    """The tests inject infinities in one run only and compare two implementations of the
    same logic.""",
    [OPT],
    [("SINGD.step: found_inf branch", OPT)],
    ["complete optimizer and model state before/after the skipped step", "warnings"],
)
prop(
    "C09",
    "Training resumed from a checkpoint continues bit-identically",
    """Saving the model's and optimizer's state at any point of the training and loading it
    into freshly built ones yields bit-identical parameters and pre-conditioners in all
    later steps, in memory as well as through a file loaded with default options. Loading
    leaves the checkpoint usable and intact, and completely replaces the previous state of
    the optimizer that loads it.""",
    ["crash_points", "histories", "configurations"],
    """All points of the training including between the backward passes of a step, all
    models, settings, structures, and repeated save/load.""",
    """The tests restore at one point of one run.""",
    [OPT],
    [("SINGD.state_dict, load_state_dict, STATE_ATTRIBUTES", OPT)],
    ["parameters, factors and state_dict() after each step"],
)
prop(
    "C10",
    "Data-parallel training equals single-process training",
    """When every process works on its shard of the mini-batch, all processes hold identical
    parameters and pre-conditioners after each step, and these equal (up to rounding) those
    of one process that trains on the whole mini-batch. This holds for any number of
    processes, summed and averaged losses, structure, interval and number of accumulated
    micro-batches.""",
    ["schedules", "configurations", "programs"],
    """All models, settings, world sizes and data, with equally large shards.""",
    """The tests that cover this need several devices or one fixed network.""",
    [OPT, S + "base.py"],
    [
        ("all-reduce in SINGD._accumulate_H_terms and _compute_natural_gradient", OPT),
        ("StructuredMatrix.all_reduce", S + "base.py"),
    ],
    ["parameters and factors on every rank", "sequence of collective operations"],
)
prop(
    "C11",
    "Data types, shapes and structures are preserved throughout training",
    """Each factor and its momentum always has the requested (or else the parameter's) data
    type, the requested structure and the layer's dimensions, and is on the device of the
    layer, and parameters, gradients and momentum buffers keep their type, shape and
    device. This holds for every mixture of parameter,
    pre-conditioner and autocast precision at every step, after skipped steps, and after
    restoring.""",
    ["configurations", "histories"],
    """All combinations of data types of parameters and factors, autocast, structures and
    histories.""",
    """The tests combine few data types and look at final values.""",
    [OPT] + ALL_S,
    [
        ("SINGD._get_preconditioner_dtypes_and_device", OPT),
        ("SINGD._compute_natural_gradient: casts", OPT),
        ("lowest_precision, supported_*", S + "utils.py"),
    ],
    ["dtypes, shapes and classes in state_dict() and model"],
)
prop(
    "C12",
    "Attaching the optimizer does not change what the model computes",
    """Until a step is taken, a model with the optimizer attached computes bit-identical
    outputs and gradients, consumes the same random numbers and leaves inputs untouched,
    in every mode of use: in-place activations, re-used layers, activation checkpointing,
    repeated or higher-order backward passes, other hooks, no-grad and inference mode. Its
    parameters, buffers, modes and saved state are not altered, and valid uses of the model
    never fail because of the optimizer.""",
    ["programs", "inputs", "configurations"],
    """All models, inputs and uses of a model between two optimizer steps.""",
    """The tests only run plain forward and backward passes of simple networks.""",
    [OPT, UT],
    [("forward and tensor hooks", OPT), ("process_input must not write", UT)],
    ["outputs, gradients, inputs, RNG state, model.state_dict()"],
)
prop(
    "C13",
    "Exactly the requested and supported parameters are trained",
    """Only parameters that were passed (or, by default, all trainable parameters of
    supported layers) are ever modified; all others, and all buffers, stay bit-wise
    unchanged. Without explicit parameters a warning names every unsupported layer with
    trainable parameters unless disabled, and a layer that did not take part in a backward
    pass is left alone in that step.""",
    ["programs", "configurations", "histories"],
    """All models with supported, unsupported, frozen, unused and conditionally used
    layers, and all selections of parameters.""",
    """The tests use one model per case, with all layers used in each step.""",
    [OPT],
    [
        ("SINGD._get_trainable_parameters", OPT),
        ("SINGD._step: selection of layers and parameters", OPT),
        ("SINGD._install_hooks", OPT),
    ],
    ["all parameters and buffers", "warnings"],
)
prop(
    "C14",
    "Invalid configurations are rejected without side effects",
    """Negative learning rates, momenta and weight decay, unknown approximations, loss
    averaging or structures, layers whose parameters are in different groups, and
    data-parallel wrappers are rejected at construction with the documented error, leaving
    the model and groups as they were; every valid configuration is accepted and used
    unchanged. A closure is rejected by the step without changing anything, and a non-zero
    Riemannian momentum in the KFAC-like mode is ignored with a warning.""",
    ["configurations", "inputs"],
    """All values of all settings, given as defaults or in any parameter group.""",
    """The tests try one invalid value for a few settings.""",
    [OPT],
    [("SINGD.__init__", OPT), ("SINGD._check_param_groups", OPT), ("SINGD.step", OPT)],
    ["exceptions, warnings, model.state_dict(), hooks, param_groups"],
)
prop(
    "C15",
    "Memory stays bounded by what the structures require",
    """The state held between steps consists of the factors, their momenta and one momentum
    buffer per trained parameter, each as large as its structure requires, and does not
    grow with the number of steps, batches, micro-batches or forward passes. Inputs,
    activations, gradients' statistics and computation graphs are released after each step
    and when a graph is discarded.""",
    ["histories", "configurations", "programs"],
    """All models, structures and arbitrarily long histories of forward, backward and
    steps.""",
    """The tests never look at memory or at retained objects.""",
    [OPT] + ALL_S,
    [
        ("popping of accumulators in SINGD._update_preconditioner", OPT),
        ("SINGD._remove_used_grad_scales", OPT),
        ("storage of the structured matrices", S),
    ],
    ["state_dict() storage sizes", "weak references to inputs and outputs"],
)
prop(
    "C16",
    "Steps are inverse-free and never build dense versions of sparse factors",
    """No matrix inverse, linear solve or matrix decomposition is executed during training
    with any configuration, and no such operation is needed in any precision. For
    structures other than dense, a training step (backward pass included) allocates no
    tensor whose size is quadratic in the factor dimension, except in steps that update
    Toeplitz pre-conditioners. The same holds for each operation of these structures on
    its own (products with structured matrices and tensors, transposed products, sums,
    scaling, traces, norms, creation, and projections of non-Toeplitz structures).""",
    ["configurations", "programs", "inputs"],
    """All models, structures, settings and steps.""",
    """The tests compare values only, not which operations produced them.""",
    [OPT] + ALL_S,
    [
        ("SINGD._update_preconditioner", OPT),
        ("specialized from_inner, matmul, rmatmat", S),
    ],
    ["every dispatched tensor operation and the size of its results"],
)
prop(
    "C17",
    "Updates are descent directions and factors stay in their structure",
    """The pre-conditioner C C^T, K K^T is positive semi-definite, so without momentum and
    weight decay the update never has a negative inner product with minus the gradient,
    whatever the history. The dense form of each factor always has the sparsity and
    sharing pattern of its declared structure.""",
    ["histories", "inputs", "configurations"],
    """All histories (also unstable ones with large factor learning rates), gradients,
    structures and models.""",
    """The tests compare values on few runs and never look at the factors' geometry.""",
    [OPT] + ALL_S,
    [("multiplicative update of the factors", OPT), ("structure classes", S)],
    ["parameters, gradients and dense factors after each step"],
)
prop(
    "C18",
    "Training is deterministic and optimizers are independent of each other",
    """Repeating a run in the same process or another gives bit-identical results,
    independent of what other optimizers or models do in between. Several optimizers, also
    on disjoint parts of one model, never influence each other, and no call changes global
    state such as random number generators, default types or gradient mode.""",
    ["schedules", "programs", "histories"],
    """All interleavings of the steps of several training programs and all settings.""",
    """The tests run one optimizer at a time or two with equal settings in lock step.""",
    [OPT] + ALL_S,
    [("all state is held per optimizer instance", OPT)],
    ["parameters and factors after each step", "global torch state"],
)
prop(
    "C19",
    "Results do not depend on the order of samples and shared positions",
    """Permuting the samples of a mini-batch, or the weight-sharing positions of a layer
    together with its targets, changes neither parameters nor pre-conditioners beyond
    rounding. Repeating every sample equally often with a batch-averaged loss changes
    nothing either.""",
    ["inputs", "programs", "configurations"],
    """All permutations and repetition factors, models, settings and data.""",
    """The tests use fixed data in fixed order.""",
    [OPT, UT],
    [("process_input, process_grad_output", UT), ("batch-size scaling of the loss", UT)],
    ["parameters and factors after each step"],
)
prop(
    "C20",
    "With stationary curvature the pre-conditioner approaches the inverse",
    """With constant curvature and a suitable factor learning rate, the KFAC-like
    pre-conditioners K K^T and C C^T converge to the inverses of the damped input and
    gradient curvature (within their structure), and the coupled rule converges to a fixed
    point at which its documented update vanishes. From then on a step is the damped
    natural gradient step and no longer changes the factors.""",
    ["inputs", "histories", "configurations"],
    """All stationary data sets, damping values, momenta and structures for which the
    inverse is representable.""",
    """The tests stop after a few steps and never look at the limit.""",
    [OPT] + ALL_S,
    [("SINGD._update_preconditioner", OPT)],
    ["factors after many steps", "parameter updates in the limit"],
)
prop(
    "C21",
    "Arithmetic of structured matrices agrees with dense matrices",
    """For members of any structure (including user-defined block sizes, hierarchies and
    recursive compositions), sum, product with matrices or tensors, transposed product and
    scaling, plain and in-place, equal the same operation on the dense forms, and results
    of structured operands are members of the same class. This holds for non-symmetric
    members, all dimensions from one on, and dimensions that do not fill a block.""",
    ["inputs", "configurations", "programs"],
    """All structures, dimensions, entries, and compositions of operations.""",
    """The tests use fixed dimensions and mostly symmetric members.""",
    ALL_S,
    [("__matmul__, __add__, __mul__, rmatmat, add_, mul_ of each class", S)],
    ["to_dense() of operands and results"],
)
prop(
    "C22",
    "Projections onto structures have the documented values",
    """Extracting a structure from a symmetric matrix keeps, averages over diagonals, or
    doubles (for one-sided triangular parts) exactly the documented entries, and extracting
    it from X X^T, from K^T X X^T K, or from K^T K, equals forming that dense matrix and
    then extracting. The operation is linear and does not depend on which of the equivalent
    methods is used.""",
    ["inputs", "configurations"],
    """All structures (also user-defined ones), dimensions, members K, and arguments X with
    any positive number of columns.""",
    """The tests use fixed dimensions, and K close to symmetric.""",
    ALL_S,
    [("from_dense, from_inner, from_inner2, from_mat_inner of each class", S)],
    ["to_dense() of the result"],
)
prop(
    "C23",
    "Traces and norms of structured matrices agree with their dense form",
    """The average trace, the largest absolute entry and the Frobenius norm of a structured
    matrix equal those of its dense form for every structure, dimension and entries,
    including empty sub-blocks, negative entries and entries shared by several
    positions.""",
    ["inputs", "configurations"],
    """All structures, dimensions, entries and data types.""",
    """The tests evaluate them for fixed dimensions and one random matrix each.""",
    ALL_S,
    [("average_trace, infinity_vector_norm, frobenius_norm", S)],
    ["returned values"],
)
prop(
    "C24",
    "In-place operations change exactly their target",
    """Zero and identity matrices have the requested dimension, type and device, results of
    operations are on the device of their operands, in-place addition, scaling and diagonal shifts return and modify the matrix itself with the dense
    operation's effect, and no operation modifies its operands, other matrices created by
    the same class, or tensors passed in. Arithmetic results do not share memory with their
    operands, so that modifying one never changes the other.""",
    ["histories", "inputs", "configurations"],
    """All sequences of operations on a pool of structured matrices.""",
    """The tests call each operation once on fresh operands.""",
    ALL_S,
    [("zeros, eye, diag_add_, add_, mul_", S)],
    ["to_dense() of all live matrices after each operation"],
)
prop(
    "C25",
    "Minimal user-defined structures behave like specialized ones",
    """A structure class that only defines the conversions from and to dense matrices
    supports all operations with the documented values and warns about naive fallbacks
    unless disabled. Each specialized class gives the same results as such a minimal class
    of the same structure, and a minimal class can be used for training after being
    registered.""",
    ["programs", "configurations", "inputs"],
    """All user-defined structures closed under addition and multiplication, all
    operations and dimensions.""",
    """The tests only exercise the classes that are shipped.""",
    ALL_S,
    [("naive implementations of the base class", S + "base.py")],
    ["results of all operations", "warnings"],
)
prop(
    "C26",
    "Half precision stays accurate and works for every structure",
    """With 16-bit parameters or pre-conditioners every structure and layer can be trained,
    and factors and parameters stay within a small multiple of 16-bit rounding of the
    exact update. Structured operations in half precision return half precision results
    whose error is bounded in the same way.""",
    ["inputs", "configurations"],
    """All structures, layers, 16-bit types and mixtures with 32 bit, and inputs of
    moderate magnitude.""",
    """The tests run few half-precision combinations with loose tolerances.""",
    [OPT] + ALL_S,
    [
        ("supported_* and lowest_precision", S + "utils.py"),
        ("casts in SINGD._accumulate_H_terms, _compute_natural_gradient", OPT),
    ],
    ["factors and parameters after steps", "results of structured operations"],
)
prop(
    "C27",
    "Reducing structured matrices across processes equals reducing dense forms",
    """After an all-reduce, the structured matrix on every process represents the sum or
    average (or other requested reduction) of the dense forms of all processes, for every
    structure, memory layout, process group, and for blocking as well as asynchronous
    calls once completed. No other matrix changes and only members of the group
    participate.""",
    ["schedules", "inputs", "configurations"],
    """All structures, layouts, dimensions (including empty sub-blocks), world sizes,
    groups and orders in which asynchronous calls are completed.""",
    """The tests mock or run a single fixed case.""",
    [S + "base.py", S + "recursive.py"],
    [("StructuredMatrix.all_reduce", S + "base.py")],
    ["to_dense() on every rank"],
)
prop(
    "C28",
    "Malformed structured matrices are rejected",
    """Constructing a block-diagonal, hierarchical or recursive matrix from tensors with
    wrong rank, non-square or inconsistent blocks, block sizes other than the declared
    ones or sub-structures of the wrong class raises an error, and every consistent set of
    parts is accepted and represents the documented matrix. Registering two parts under
    one name, invalid dimension declarations and multiplying onto tensors whose number of
    rows is not the dimension (except for broadcasts of size one) are rejected as well.""",
    ["inputs", "configurations"],
    """All shapes of all parts, for all structures including user-defined ones.""",
    """The tests try one malformed argument for some classes.""",
    ALL_S,
    [("constructors, _check_square, _get_boundary, register_tensor", S)],
    ["exceptions", "to_dense()"],
)
prop(
    "C29",
    "Equivalent models and structures train identically",
    """A convolution whose kernel covers its whole input, or is of size one, trains exactly
    like the linear layer it is equal to, and structures that coincide for a layer's
    dimensions (for instance all structures in dimension one, or block and hierarchical
    structures covering the whole matrix and dense) give the same training. Splitting
    weight-sharing positions over several axes makes no difference.""",
    ["programs", "configurations", "inputs"],
    """All equivalent pairs of layers or structures, settings and data.""",
    """The tests do not compare different layers or structures with each other.""",
    [OPT, UT] + ALL_S,
    [("process_input, process_grad_output", UT), ("structure classes", S)],
    ["parameters and factors after each step"],
)

if __name__ == "__main__":
    with open(ROOT / "properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
