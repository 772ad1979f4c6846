"""Invariance of the training under gradient scaling."""

import struct

import torch

from vlib import engine, progs, traj
from vlib.core import Violation

ID = "C07"
LEVEL = "exploration"
TECHNIQUE = (
    "reference-model monitor on scaled training plus differential execution of scaled and "
    "un-scaled training with real gradient scalers"
)
RULE = (
    "Random programs with a random sequence of gradient scales (1e-2..1e5, constant, "
    "changing, powers of two), communicated explicitly before or after the backward "
    "passes, by the attributes a gradient scaler sets, or by a real torch.amp.GradScaler "
    "that grows and backs off; with micro-batches, intervals and skipped steps. "
    "Non-trivial: at least two steps with a scale different from one were judged."
)
ASSUMPTIONS = [
    "scales are positive and large enough not to underflow",
    "un-scaling by GradScaler.unscale_ before the step is a known finding (probe)",
]
MIN = {"param_updates_judged": 500, "precond_updates_judged": 500, "scaled_steps": 500}


def _scale(rng, kind):
    """A scale that is representable in single precision, like those of scalers."""
    value = _raw_scale(rng, kind)
    return struct.unpack("f", struct.pack("f", value))[0]


def _raw_scale(rng, kind):
    if kind == "pow2":
        return float(2 ** rng.randint(-6, 16))
    if kind == "wild":
        return progs.logu(rng, 1e-2, 1e5)
    return progs.logu(rng, 0.5, 3e3)


def cases(rng, tier):
    n = 600 if tier == "quick" else 15000
    out = []
    for _ in range(n):
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, steps=rng.randint(3, 8))
        if rng.random() < 0.1:
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv", "batch", "long"]))
        traj.calm(spec)
        kind = rng.choice(["pow2", "wild", "mild"])
        base = _scale(rng, kind)
        change = rng.choice([0.0, 0.3, 1.0])
        scales = []
        for _ in range(spec["steps"]):
            if rng.random() < change:
                base = _scale(rng, kind)
            scales.append(1.0 if rng.random() < 0.05 else base)
        # scaling that is switched on late or off early
        cut = rng.randrange(spec["steps"])
        unscaled = rng.choice([None, None, None, "start", "end"])
        for t in range(spec["steps"]):
            if unscaled == ("start" if t < cut else "end"):
                scales[t] = 1.0
        mode = rng.choice(
            ["before", "after", "twice", "attr", "scaler", "diff", "diff_scaler"]
        )
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "mode": mode,
                "scales": scales,
                "init": rng.choice([None, scales[0], _scale(rng, kind)]),
                # a scale of one need not be communicated
                "silent": rng.random() < 0.5,
                "growth": [rng.choice([2.0, 3.0, 10.0]), rng.choice([1, 1, 2])],
                "hist": [
                    {
                        "n": spec["n"] if spec["n"] > 6 else rng.randint(1, 5),
                        "micros": rng.choice([1, 1, 1, 2, 3]),
                        "skip": rng.random() < 0.12,
                        "pos": rng.randrange(100),
                    }
                    for _ in range(spec["steps"])
                ],
            }
        )
    probe = progs.rand_spec(
        rng.__class__(3), dtype="float64", kind="mlp", groups=1, steps=1, T=1
    )
    out.append({"seed": 3, "spec": probe, "mode": "probe_unscale"})
    return out


def run(case, rec):
    mode = case["mode"]
    rec.mark(mode)
    rec.mark(f"stretch:{case['spec'].get('stretch')}")
    if mode == "probe_unscale":
        return probe_unscale(case)
    extra = {} if case["init"] is None else {"init_grad_scale": case["init"]}
    if mode.startswith("diff"):
        return differential(case, rec, extra)
    mon = engine.Monitor(case["spec"], rec, style="groups", **extra)
    scaler = None
    if mode == "scaler":
        scaler = _scaler(case)
    for ev, scale in zip(case["hist"], case["scales"]):
        if scaler is not None:
            scale = scaler.get_scale()
        if ev["skip"]:
            mon.skipped_step(
                {"kind": "grad", "value": "inf", "micro": 0, "pos": ev["pos"]},
                n=ev["n"],
                gscale=scale,
                scaler=scaler,
            )
        else:
            silent = scaler is None and scale == 1.0 and case["silent"]
            rec.count("silent_steps", silent)
            alive = mon.step(
                n=ev["n"],
                micros=ev["micros"],
                gscale=scale,
                apply=None if silent else mode,
                scaler=scaler,
            )
            rec.count("scaled_steps", scale != 1.0)
            if not alive:
                break
        if scaler is not None:
            scaler.update()
        mon.zero_grad()
    rec.nontrivial = rec.counts.get("scaled_steps", 0) >= 2


def _scaler(case):
    factor, interval = case["growth"]
    scaler = torch.amp.GradScaler(
        "cpu",
        init_scale=case["scales"][0],
        growth_factor=factor,
        growth_interval=interval,
        backoff_factor=1 / factor,
    )
    scaler.scale(torch.ones(1))
    return scaler


def differential(case, rec, extra):
    """Scaled and un-scaled execution of the same program."""
    spec = case["spec"]
    plain = traj.Run(spec)
    scaled = traj.Run(spec, **extra)
    tol = traj.tolerance(spec)
    scaler = _scaler(case) if case["mode"] == "diff_scaler" else None
    for t, (ev, scale) in enumerate(zip(case["hist"], case["scales"])):
        x, ts = plain.data(n=ev["n"] * ev["micros"])
        with torch.no_grad():
            shape = plain.model(x.to(plain.dtype)).shape
        tgt = traj.make_target(spec, shape, ts)
        for xm, tm in zip(x.split(ev["n"]), tgt.split(ev["n"])):
            plain.backward(xm, tm, 1.0 / ev["micros"])
            if scaler is None:
                scaled.backward(xm, tm, scale / ev["micros"])
            else:
                y = scaled.model(xm.to(scaled.dtype))
                loss = traj.loss(spec, y, tm) / ev["micros"]
                scaler.scale(loss).backward()
        plain.step()
        if scaler is None:
            if scale == 1.0 and case["silent"]:
                rec.count("silent_steps")
            else:
                scaled.opt.set_current_grad_scale(scale)
            scaled.step()
        else:
            scale = scaler.get_scale()
            scaler.step(scaled.opt)
            scaler.update()
            scaled.t += 1
            scaled.opt.zero_grad()
        rec.count("scaled_steps", scale != 1.0)
        ok = traj.judge(
            rec, plain.snap(), scaled.snap(), tol, f"scaled run, step {t}", "scale"
        )
        if not ok:
            break
    rec.nontrivial = rec.counts.get("scaled_steps", 0) >= 2


def probe_unscale(case):
    """Gradients are un-scaled (e.g. to clip them) before the step."""
    spec = case["spec"]
    plain, scaled = traj.Run(spec), traj.Run(spec, init_grad_scale=64.0)
    x, ts = plain.data()
    tgt = traj.make_target(spec, plain.model(x.to(plain.dtype)).shape, ts)
    plain.backward(x, tgt)
    plain.step()
    scaler = torch.amp.GradScaler("cpu", init_scale=64.0)
    y = scaled.model(x.to(scaled.dtype))
    scaler.scale(traj.loss(spec, y, tgt)).backward()
    scaler.unscale_(scaled.opt)
    scaled.opt.set_current_grad_scale(64.0)
    scaler.step(scaled.opt)
    engine.compare(
        plain.snap(), scaled.snap(), 1e-8, "step after unscale_", "unscale_"
    )


__all__ = ["Violation"]
