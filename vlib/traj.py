"""Executions of the real optimizer whose trajectories are compared with each other."""

import torch

from vlib import engine, progs
from vlib.core import Violation


class Run:
    """One training run of a program described by a spec."""

    def __init__(self, spec, style="groups", model_fn=None, **extra):
        self.spec = spec
        self.dtype = getattr(torch, spec["dtype"])
        self.model, self.mods = progs.build_model(
            spec["arch"], spec["seed"], dtype=self.dtype
        )
        self.layers = [self.mods[i] for i in progs.supported_idx(spec["arch"])]
        self.names = progs.names_of(self.model, self.layers)
        self.opt = progs.make_opt(spec, self.model, self.mods, style=style, **extra)
        self.t = 0

    def data(self, t=None, n=None):
        """Inputs and seed of a step's targets."""
        return progs.batch(self.spec, self.t if t is None else t, n=n)

    def target(self, y_shape, ts, n_out=None):
        """Targets for an output of the given shape."""
        return make_target(self.spec, y_shape, ts)

    def snap(self):
        return engine.snapshot(self.model, self.opt, self.names)

    def backward(self, x, tgt, scale=1.0):
        y = self.model(x.to(self.dtype))
        (loss(self.spec, y, tgt) * scale).backward()

    def step(self, zero=True):
        self.opt.step()
        self.t += 1
        if zero:
            self.opt.zero_grad()


def rows(spec, y):
    """Bring the feature dimension of the output to the end."""
    return y.movedim(1, -1) if spec["arch"]["kind"] == "fcn" else y


def make_target(spec, y_shape, seed, dtype=torch.float64):
    """Explicit targets (so that they can be split, permuted and repeated)."""
    gen = torch.Generator().manual_seed(seed + 7)
    if spec["loss"] == "ce":
        shape = list(y_shape)
        k = shape.pop(1 if spec["arch"]["kind"] == "fcn" else -1)
        return torch.randint(0, k, shape, generator=gen)
    return torch.randn(list(y_shape), generator=gen).to(dtype)


def loss(spec, y, tgt, n=None):
    """Loss with the spec's reduction, computed from explicit targets."""
    if spec["loss"] == "mse":
        total = 0.5 * ((y - tgt.to(y.dtype)) ** 2).sum()
    elif spec["loss"] == "ce":
        z = rows(spec, y)
        total = 3.0 * torch.nn.functional.cross_entropy(
            z.reshape(-1, z.shape[-1]), tgt.reshape(-1), reduction="sum"
        )
    else:
        total = (y * tgt.to(y.dtype)).sum()
    avg = spec["loss_average"]
    if avg is None:
        return total
    div = y.shape[0] if n is None else n
    if avg == "batch+sequence":
        div *= rows(spec, y)[0, ..., 0].numel()
    return total / div


def tolerance(spec, f64=1e-8, f32=3e-3):
    return f64 if spec["dtype"] == "float64" else f32


def judge(rec, a, b, tol, what, key, big=1e2):
    """Compare two snapshots. Returns ``False`` once the comparison is meaningless."""
    if not engine.sane(a, big):
        rec.count("truncated_programs")
        return False
    engine.compare(a, b, tol, what, key, rec=rec)
    rec.count("snapshots_compared")
    return True


def calm(spec, lr=0.05, lr_cov=0.1):
    """Restrict hyper-parameters so that trajectories do not amplify rounding."""
    for hp in spec["hps"]:
        hp["lr"] = min(hp["lr"], lr)
        if not isinstance(hp["lr_cov"], dict):
            hp["lr_cov"] = min(hp["lr_cov"], lr_cov)
        elif hp["lr_cov"]["kind"] == "table":
            hp["lr_cov"]["a"] = [min(v, lr_cov) for v in hp["lr_cov"]["a"]]
        else:
            hp["lr_cov"]["a"] = min(hp["lr_cov"]["a"], lr_cov)
    return spec


__all__ = ["Run", "Violation"]
