"""Results do not depend on the order of samples and shared positions."""

import copy

import torch

from vlib import progs, traj

ID = "C19"
LEVEL = "exploration"
TECHNIQUE = (
    "metamorphic differential monitor: two executions of the real optimizer on permuted or "
    "repeated data are compared after every step"
)
RULE = (
    "A random program is executed with its data and with the same data whose samples are "
    "permuted (differently in each step), whose weight-sharing positions are permuted "
    "together with the targets, whose samples are all repeated 2-4 times (batch-averaged "
    "losses), or a combination. Non-trivial: at least two steps were compared and the "
    "permutation was not the identity."
)
ASSUMPTIONS = [
    "float64 (dense, diagonal) and float32 trajectories are compared with tolerances of "
    "1e-8 and 3e-3; comparisons end when a trajectory leaves a moderate range"
]
MIN = {"tensors_compared": 5000, "snapshots_compared": 1000, "positions": 100, "repeats": 100}


def pointwise(rng):
    """A network of 1x1 convolutions, for which positions are interchangeable."""
    c, h, w = rng.randint(1, 5), rng.randint(1, 4), rng.randint(2, 4)
    layers, shape = [], [c, h, w]
    for j in range(rng.randint(1, 3)):
        g = rng.choice([1, 1, 2, 3])
        g = g if c % g == 0 else 1
        o = g * rng.randint(1, 3)
        if j:
            layers.append({"type": "act", "act": rng.choice(progs.SMOOTH), "inplace": False})
        layers.append(
            {"type": "conv", "c_in": c, "c_out": o, "k": [1, 1], "s": [1, 1],
             "p": rng.choice([[0, 0], "same", "valid"]), "d": [1, 1], "g": g,
             "mode": "zeros", "bias": rng.random() < 0.6}
        )
        c = o
    return {"kind": "fcn", "shape": shape, "layers": layers, "nested": rng.random() < 0.3}


def cases(rng, tier):
    n = 4000 if tier == "quick" else 30000
    out = []
    while len(out) < n:
        dtype = rng.choice(["float64", "float64", "float32"])
        mode = rng.choice(["samples", "samples", "positions", "positions", "repeat", "all"])
        kw = {}
        if mode == "repeat" or (mode == "all" and rng.random() < 0.5):
            kw["loss_average"] = rng.choice(["batch", "batch", "batch+sequence"])
        if mode in ("positions", "all"):
            kw["kind"] = rng.choice(["seq", "seq", "fcn"])
        spec = progs.rand_spec(rng, dtype=dtype, wide=rng.random() < 0.08, **kw)
        if kw.get("kind") == "fcn":
            spec["arch"] = pointwise(rng)
            num = len(progs.supported_idx(spec["arch"]))
            spec["assign"] = [rng.randrange(len(spec["hps"])) for _ in range(num)]
        if rng.random() < 0.02 and mode in ("samples", "repeat"):
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv"]))
        traj.calm(spec)
        spec["n"] = rng.randint(2, 7)
        if spec["arch"]["kind"] in ("mlp", "seq") and rng.random() < 0.1:
            spec["n"] = rng.randint(50, 300)
            spec["steps"] = min(spec["steps"], 4)
            for hp in spec["hps"]:
                hp["T"] = 1 if rng.random() < 0.4 else hp["T"]
        elif spec["arch"]["kind"] == "seq" and rng.random() < 0.06:  # long sequences
            spec["arch"]["shape"][0] = rng.randint(60, 600)
            if len(spec["arch"]["shape"]) > 2 and rng.random() < 0.5:
                spec["arch"]["shape"][:2] = spec["arch"]["shape"][:2][::-1]
            spec["steps"] = min(spec["steps"], 4)
            for hp in spec["hps"]:
                hp["T"] = 1 if rng.random() < 0.4 else hp["T"]
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "mode": mode,
                "samples": mode in ("samples", "all", "repeat"),
                "positions": mode in ("positions", "all"),
                "repeat": rng.randint(2, 4)
                if (mode in ("repeat", "all") and spec["loss_average"])
                else 1,
                "layout": rng.choice(["plain", "interleaved"]),
                # one sample differs much from the others
                "outlier": [rng.random(), 10 ** rng.uniform(1, 3)]
                if dtype == "float64" and rng.random() < (0.5 if spec["n"] >= 50 else 0.1)
                else None,
            }
        )
    return out


def shuffle(case, x, tgt, y_ndim, gen):
    """Permute and repeat the data."""
    spec, moved = case["spec"], False
    kind = spec["arch"]["kind"]
    if case["positions"]:
        # sequence models share over all axes between the batch and the features
        axes = range(2, x.ndim) if kind == "fcn" else range(1, x.ndim - 1)
        for ax in axes:
            perm = torch.randperm(x.shape[ax], generator=gen)
            moved |= not torch.equal(perm, perm.sort().values)
            x = x.index_select(ax, perm)
            kept = y_ndim == x.ndim
            if kept:  # positions were not averaged by the model
                # class indices have no feature axis
                t_ax = ax - 1 if (kind == "fcn" and tgt.ndim < y_ndim) else ax
                tgt = tgt.index_select(t_ax, perm)
    if case["repeat"] > 1:
        if case["layout"] == "plain":
            idx = torch.arange(len(x)).repeat(case["repeat"])
        else:
            idx = torch.arange(len(x)).repeat_interleave(case["repeat"])
        x, tgt, moved = x[idx], tgt[idx], True
    if case["samples"]:
        perm = torch.randperm(len(x), generator=gen)
        moved |= not torch.equal(perm, perm.sort().values)
        x, tgt = x[perm], tgt[perm]
    return x.contiguous(), tgt.contiguous(), moved


def run(case, rec):
    spec = case["spec"]
    a, b = traj.Run(spec), traj.Run(copy.deepcopy(spec))
    gen = torch.Generator().manual_seed(case["seed"])
    tol, compared, moved = traj.tolerance(spec), 0, False
    for t in range(spec["steps"]):
        x, ts = a.data()
        with torch.no_grad():
            y_shape = a.model(x.to(a.dtype)).shape
        tgt = a.target(y_shape, ts)
        if case["outlier"]:
            idx = int(case["outlier"][0] * len(x))
            if tgt.is_floating_point():
                tgt[idx] *= case["outlier"][1]
            else:
                x[idx] *= case["outlier"][1]
            rec.count("outliers")
        x2, tgt2, m = shuffle(case, x, tgt, len(y_shape), gen)
        a.backward(x, tgt)
        b.backward(x2, tgt2)
        a.step()
        b.step()
        moved |= m
        if not traj.judge(rec, b.snap(), a.snap(), tol, f"step {t}", case["mode"]):
            break
        compared += 1
        if m:
            rec.count("positions", int(case["positions"]))
            rec.count("repeats", int(case["repeat"] > 1))
    rec.mark(f"{case['mode']}:{spec['arch']['kind']}:{spec['loss_average']}")
    for hp in spec["hps"]:
        rec.mark(f"{hp['kfac_approx']}:{'+'.join(hp['structures'])}")
    rec.nontrivial = compared >= 2 and moved
