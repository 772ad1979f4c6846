"""Training resumed from a checkpoint continues bit-identically."""

import copy
import io
import random

import torch

from vlib import progs, state, traj
from vlib.core import Violation

ID = "C09"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "crash-point enumeration: checkpoints at every point of a run, resumed in fresh and "
    "used optimizers, monitored for bit-identity of the complete state after each step"
)
RULE = (
    "For each random program (with gradient scales and micro-batches) the run is "
    "interrupted at every point: before and after each step and between backward passes. "
    "Each checkpoint (in memory, or through a file with default options) is loaded into "
    "freshly built, differently initialized, already trained, or the same objects, and "
    "the run is continued. Non-trivial: at least three resumed points were followed by a "
    "compared step."
)
ASSUMPTIONS = [
    "the user restores model, data position and pending gradients",
    "in-memory checkpoints are deep copies, as state_dict() returns references in PyTorch",
    "file checkpoints of scheduled factor learning rates are a known finding (probe)",
]
MIN = {"resumed_points": 500, "states_compared": 800}


def cases(rng, tier):
    n = 220 if tier == "quick" else 5000
    out = []
    for _ in range(n):
        dtype = rng.choice(["float64", "float32", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, steps=rng.randint(2, 4))
        if rng.random() < 0.08:
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv"]))
        elif rng.random() < 0.1:
            spec["steps"] = rng.randint(6, 14)
        traj.calm(spec)
        method = rng.choice(["memory", "file", "file"])
        if method == "file":
            for hp in spec["hps"]:
                if isinstance(hp["lr_cov"], dict):
                    hp["lr_cov"] = 0.07
        other = copy.deepcopy(spec["hps"])
        if rng.random() < 0.6:  # settings that have to be replaced
            for hp in other:
                hp.update(lr=0.9, momentum=rng.choice([0.0, 0.6]), damping=0.77, T=5)
                hp["alpha1"] = rng.choice([0.0, 0.6]) if not hp["kfac_like"] else 0.0
                hp["structures"] = [
                    rng.choice(progs.F64_STRUCTS) for _ in hp["structures"]
                ]
        scales = [rng.choice([1.0, 1.0, 4.0, 37.0]) for _ in range(spec["steps"])]
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "other": other,
                "method": method,
                "target": rng.choice(["fresh", "fresh", "trained", "same"]),
                "order": rng.choice(["model", "optimizer"]),
                "twice": rng.random() < 0.4,
                "change": rng.random() < 0.4 and rng.randint(1, 2**6),
                "scales": scales if rng.random() < 0.5 else [1.0] * spec["steps"],
                "micros": [rng.choice([1, 1, 2, 3]) for _ in range(spec["steps"])],
                "init": rng.choice([1.0, 4.0]),
            }
        )
    spec = progs.rand_spec(rng.__class__(2), dtype="float32", kind="mlp", groups=1)
    spec["steps"] = 1
    out.append({"seed": 2, "spec": spec, "probe": True})
    return out


def schedule(step):
    """A schedule that can be pickled."""
    return 0.1 / (1 + step)


class Ckpt:
    """A stored state."""

    def __init__(self, run, method):
        self.method = method
        self.grads = [
            None if p.grad is None else p.grad.clone() for p in run.model.parameters()
        ]
        pair = {"model": run.model.state_dict(), "optimizer": run.opt.state_dict()}
        if method == "memory":
            self.data = copy.deepcopy(pair)
        else:
            f = io.BytesIO()
            torch.save(pair, f)
            self.data = f.getvalue()

    def read(self):
        if self.method == "memory":
            return copy.deepcopy(self.data)
        return torch.load(io.BytesIO(self.data))

    def restore(self, run, order, twice):
        pair = self.read()
        before = state.flatten(pair)
        keys = list(pair["optimizer"])
        if twice:
            run.opt.load_state_dict(pair["optimizer"])
            run.model.load_state_dict(pair["model"])
        for what in [order, "optimizer" if order == "model" else "model"]:
            if what == "model":
                run.model.load_state_dict(pair["model"])
            else:
                run.opt.load_state_dict(pair["optimizer"])
        if list(pair["optimizer"]) != keys or state.diff(before, state.flatten(pair)):
            raise Violation("loading modified the checkpoint", key="modified")
        for p, g in zip(run.model.parameters(), self.grads):
            p.grad = None if g is None else g.clone()


def full(run):
    return state.flatten(
        {"model": run.model.state_dict(), "opt": run.opt.state_dict()}
    )


def micro_step(case, run, t, m):
    """The ``m``-th backward pass of step ``t``, or the step itself."""
    micros = case["micros"][t]
    if m < micros:
        x, ts = progs.batch(case["spec"], t, m, n=2)
        y = run.model(x.to(run.dtype))
        tgt = traj.make_target(case["spec"], y.shape, ts)
        loss = traj.loss(case["spec"], y, tgt) * (case["scales"][t] / micros)
        loss.backward()
        return
    if set(case["scales"]) != {1.0}:
        run.opt.set_current_grad_scale(case["scales"][t])
    if case["change"] and t == 1:  # the user changes settings on the way
        new = {
            "lr": 0.5 * run.opt.param_groups[-1]["lr"],
            "momentum": 0.4,
            "damping": 0.3,
            "weight_decay": 0.11,
            "T": 1 + case["change"] % 3,
            "lr_cov": 0.03,
        }
        for i, (key, val) in enumerate(new.items()):
            if case["change"] >> i & 1:
                run.opt.param_groups[-1][key] = val
    run.opt.step()
    run.opt.zero_grad()


def run(case, rec):
    spec = case["spec"]
    if case.get("probe"):
        return probe(case)
    rec.mark(f"{case['method']}/{case['target']}")
    base = traj.Run(spec, init_grad_scale=case["init"])
    points = [(t, m) for t in range(spec["steps"]) for m in range(case["micros"][t] + 1)]
    ckpts, states = {}, {}
    for t, m in points:
        ckpts[(t, m)] = Ckpt(base, case["method"])
        micro_step(case, base, t, m)
        if m == case["micros"][t]:
            states[t] = full(base)
    ckpts[(spec["steps"], 0)] = Ckpt(base, case["method"])
    resumed = 0
    starts = list(ckpts)
    if len(starts) > 14 or spec.get("stretch"):  # a sample of the points
        gen = random.Random(spec["seed"])
        starts = sorted(gen.sample(starts, min(len(starts), 8)))
    for start in starts:
        ckpt = ckpts[start]
        if case["target"] == "same":
            new = base
        else:
            fresh = {**spec, "hps": case["other"], "seed": spec["seed"] + 1}
            new = traj.Run(fresh)
            if case["target"] == "trained":
                for k in range(2):
                    x, ts = progs.batch(spec, k, 9, n=3)
                    y = new.model(x.to(new.dtype))
                    traj.loss(spec, y, traj.make_target(spec, y.shape, ts)).backward()
                    if k == 0:
                        new.opt.step()
        ckpt.restore(new, case["order"], case["twice"])
        rec.count("resumed_points")
        follow = 0
        for t, m in points:
            if (t, m) < start:
                continue
            micro_step(case, new, t, m)
            if m == case["micros"][t]:
                got = full(new)
                bad = state.diff(states[t], got)
                rec.count("states_compared")
                follow += 1
                if bad:
                    raise Violation(
                        f"resumed at {start} ({case['method']}, {case['target']}): state "
                        f"after step {t} differs in {bad[:4]}",
                        key="resume",
                    )
        if start[0] == spec["steps"]:
            bad = state.diff(states[spec["steps"] - 1], full(new))
            if bad:
                raise Violation(f"loaded state differs in {bad[:4]}", key="load")
        resumed += follow > 0
    rec.nontrivial = resumed >= 3


def probe(case):
    """A checkpoint of an optimizer with a scheduled factor learning rate."""
    spec = case["spec"]
    spec["hps"][0]["lr_cov"] = 0.1
    base = traj.Run(spec)
    base.opt.param_groups[0]["lr_cov"] = schedule
    try:
        Ckpt(base, "file").read()
    except Exception as e:
        raise Violation(f"cannot load checkpoint: {e}", key="file_schedule")
