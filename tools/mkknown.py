#!/usr/bin/env python
"""Generates known_findings.jsonl: repaired and recorded defects."""

import json
import subprocess
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent

FIXED = [
    ("C11", "resolve unspecified", "preconditioner_dtype=(dtype, None) crashed in step"),
    ("C22", "multiply with the transpose", "block-diagonal rmatmat / from_inner() used the blocks instead of their transposes"),
    ("C09", "do not consume the caller's", "load_state_dict emptied the checkpoint it was given"),
    ("C27", "do not lose the result", "all_reduce of non-contiguous parts reduced a temporary copy"),
    ("C14", "reject negative integer", "negative integer hyper-parameters were accepted"),
    ("C13", "warn about un-supported parameters that", "no warning for un-supported parameters owned by containers"),
    ("C14", "reject un-supported structures", "unsupported structures raised a KeyError after hooks were installed"),
    ("C12", "do not crash in the forward", "forward pass crashed if a layer's output requires no gradient"),
    ("C13", "skip layers that did not", "step crashed if a layer was not part of the backward pass"),
    ("C13", "do not update a layer's bias", "bias was trained although only the weight was requested"),
    ("C10", "average the input factor", "input curvature was summed over processes for summed losses"),
    ("C03", "use the convolution's padding mode", "padding_mode was ignored in the input statistics"),
    ("C09", "allow loading checkpoints", "checkpoints could not be loaded with torch.load's defaults"),
    ("C28", "reject blocks", "block-diagonal matrices accepted square blocks of a wrong size"),
    ("C21", "sum lower and upper blocks", "naive fall-backs doubled the off-diagonal blocks of hierarchical matrices"),
    ("C23", "Frobenius norm of empty", "frobenius_norm of recursive matrices with an empty block-diagonal or hierarchical part raised an error"),
    ("C12", "identify parameters by object", "step raised a KeyError after vector_to_parameters or share_memory, and zero-size parameters were confused with each other"),
    ("C12", "look up a layer's parameter group", "functional_call and bias-only selections raised a KeyError"),
    ("C13", "train layers whose weight or bias", "step crashed if a layer's bias or weight was frozen"),
    ("C12", "do not crash in the forward pass of copied", "the forward pass of copies (deepcopy, pickle) of the model crashed"),
    ("C12", "support layer inputs that are passed", "layers whose input is passed as keyword argument crashed"),
    ("C12", "support inputs without batch axis", "layer inputs without batch axis crashed or were mis-interpreted"),
    ("C12", "multiply Toeplitz matrices with", "an empty batch crashed with Toeplitz structures"),
    ("C14", "reject negative hyper-parameters of parameter groups", "negative hyper-parameters of parameter groups were accepted"),
    ("C13", "discard the statistics of layers that", "statistics of layers that were skipped in a step entered a later update"),
    ("C26", "compute Frobenius norms of recursive", "frobenius_norm of recursive matrices under- and overflowed in half precision (follow-up 0c3648e)"),
    ("C26", "do not overflow when projecting", "float16 projections onto Toeplitz structures overflowed if the sum of a diagonal is above 65504, although the average is small"),
    ("C02", "Riemannian momentum that is switched on", "changing a group's alpha1 from zero to a non-zero value during training raised a KeyError"),
    ("C25", "name naive operations", "naive average_trace and zeros could not be excepted from warnings under their names"),
    ("C12", "do not crash when models with derived", "symbolic tracing (torch.fx) of models with layers of derived classes crashed"),
    ("C24", "Toeplitz average_trace", "average_trace of triangular Toeplitz matrices returned a view of the matrix, which changes with it"),
]

KNOWN = [
    ("C06", "accum_sum", "accumulated micro-batches of a summed loss (loss_average=None) overestimate the input curvature by the number of micro-batches (probe 'sum' of checks/c06.py)"),
    ("C06", "accum_kfac_like", "with kfac_like=True, accumulated micro-batches scale input/gradient curvature by M and 1/M (probe 'kfac_like' of checks/c06.py)"),
    ("C06", "accum_discarded", "statistics of a backward pass whose gradients were discarded by zero_grad still enter the next update (probe 'discarded' of checks/c06.py)"),
    ("C07", "unscale_", "un-scaling the gradients with GradScaler.unscale_ before the step divides the update by the gradient scale twice (probe 'unscale_' of checks/c07.py)"),
    ("C09", "file_schedule", "a checkpoint file of an optimizer with a callable lr_cov cannot be loaded with torch.load's default options (probe 'file_schedule' of checks/c09.py)"),
    ("C12", "torch_func", "torch.func transforms (grad, vmap) of a model with attached optimizer fail (probe of checks/c12.py)"),
    ("C13", "add_param_group", "parameter groups added with add_param_group after construction are silently not trained (probe of checks/c13.py)"),
]

log = subprocess.run(
    ["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True
).stdout.splitlines()
with open(ROOT / "known_findings.jsonl", "w") as f:
    for pid, subject, what in FIXED:
        commit = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith("fix: " + subject)]
        if not commit:
            print("no commit for", subject)
            continue
        f.write(json.dumps({"status": "fixed", "property": pid, "commit": commit[0], "what": what, "entry": f"fixed: property={pid} {commit[0]} {what}"}) + "\n")
    for pid, key, what in KNOWN:
        f.write(json.dumps({"status": "known", "property": pid, "key": key, "what": what}) + "\n")
