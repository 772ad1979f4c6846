"""Gradient accumulation is equivalent to processing the mini-batch at once."""

import random

import torch

from vlib import engine, progs, traj
from vlib.core import Violation

ID = "C06"
LEVEL = "exploration"
TECHNIQUE = (
    "differential trace monitor: accumulated execution vs. mini-batch execution under "
    "random interleavings of forward and backward passes"
)
RULE = (
    "Random program executed with mini-batches and with 2-5 equally large micro-batches "
    "per step whose forward and backward passes are interleaved randomly (also in one "
    "backward pass over the summed losses, in permuted order, with foreign forward passes, "
    "with equal micro-batches, and with a varying number of micro-batches per step). Non-trivial: at least two steps "
    "with two or more micro-batches were compared."
)
ASSUMPTIONS = [
    "micro-batches of equal size, losses divided by the number of micro-batches",
    "rounding tolerance 1e-8 (float64) and 3e-3 (float32) relative to the largest entry",
    "summed losses and the KFAC-like rule are known findings, checked by fixed probes; "
    "independence of the order is judged for them too",
]
MIN = {"snapshots_compared": 300, "micro_batches": 1000}

MODES = ["alternate", "forward_first", "reverse", "random", "sum_losses", "permuted"]


def cases(rng, tier):
    n = 500 if tier == "quick" else 12000
    out = []
    for k in range(n):
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(
            rng,
            dtype=dtype,
            kfac_like=False,
            loss_average=rng.choice(["batch", "batch", "batch+sequence"]),
            steps=rng.randint(2, 6),
        )
        most, size = 5, 3
        if rng.random() < 0.1:
            kind = rng.choice(["wide", "wide_conv", "batch", "long", "micros"])
            progs.stretch(rng, spec, kind)
            most, size = {"micros": (17, 3), "batch": (3, 90)}.get(kind, (most, size))
        traj.calm(spec)
        hist = [
            {
                "micros": rng.choice([1, 2, 2, 3, 4, rng.randint(2, most)]),
                "size": rng.randint(1, size),
                "mode": rng.choice(MODES),
                "order": rng.randrange(10**6),
                "foreign": rng.random() < 0.3,
                "equal": rng.random() < 0.15,
            }
            for _ in range(spec["steps"])
        ]
        out.append({"seed": spec["seed"], "spec": spec, "hist": hist, "probe": None})
    # the order does not matter, whatever the loss averaging and the update rule
    for k in range(n // 5):
        spec = progs.rand_spec(
            rng,
            dtype=rng.choice(["float64", "float64", "float32"]),
            kfac_like=rng.random() < 0.5,
            loss_average=rng.choice([None, None, "batch", "batch+sequence"]),
            steps=rng.randint(1, 4),
        )
        traj.calm(spec, lr=0.02, lr_cov=0.05)
        hist = [
            {
                "micros": rng.choice([2, 2, 3, 4]),
                "size": rng.randint(1, 3),
                "mode": rng.choice(MODES),
                "order": rng.randrange(10**6),
                "foreign": rng.random() < 0.3,
                "equal": rng.random() < 0.15,
            }
            for _ in range(spec["steps"])
        ]
        out.append({"seed": spec["seed"], "spec": spec, "hist": hist, "probe": "order"})
    for probe in ("sum", "kfac_like", "discarded"):
        out.append({"seed": 7, "probe": probe, "spec": _probe_spec(probe)})
    return out


def _probe_spec(probe):
    spec = progs.rand_spec(random.Random(5), dtype="float64", kind="mlp", groups=1)
    hp = spec["hps"][0]
    hp.update(T=1, kfac_like=probe == "kfac_like", alpha1=0.0, normalize_lr_cov=False)
    hp.update(lr_cov=0.1, structures=["dense", "dense"])
    hp["loss_average"] = spec["loss_average"] = None if probe == "sum" else "batch"
    spec["loss"], spec["n"] = "mse", 4
    return spec


def accumulate(run, x, tgt, micros, mode, order, foreign=False, rec=None):
    """Back-propagate a batch in micro-batches."""
    rng = random.Random(order)
    avg = run.spec["loss_average"] is not None
    parts = list(zip(x.split(len(x) // micros), tgt.split(len(tgt) // micros)))
    scale = 1.0 / micros if avg else 1.0
    if mode == "permuted":
        rng.shuffle(parts)
        mode = "alternate"

    def fwd(part):
        if foreign and rng.random() < 0.5:
            with torch.no_grad():
                run.model(torch.randn_like(x).to(run.dtype) * 3)
        return scale * traj.loss(run.spec, run.model(part[0].to(run.dtype)), part[1])

    if mode == "alternate":
        for part in parts:
            fwd(part).backward()
    elif mode == "forward_first":
        for loss in [fwd(p) for p in parts]:
            loss.backward()
    elif mode == "reverse":
        for loss in reversed([fwd(p) for p in parts]):
            loss.backward()
    elif mode == "sum_losses":
        sum(fwd(p) for p in parts).backward()
    else:  # random interleaving
        todo, live = list(parts), []
        while todo or live:
            if todo and (not live or rng.random() < 0.5):
                live.append(fwd(todo.pop(0)))
            else:
                live.pop(rng.randrange(len(live))).backward()
    if rec is not None:
        rec.count("micro_batches", len(parts))


def run(case, rec):
    spec = case["spec"]
    if case["probe"] == "order":
        return order(case, rec)
    if case["probe"]:
        return probe(case, rec)
    full, acc = traj.Run(spec), traj.Run(spec)
    tol = traj.tolerance(spec)
    rec.mark(f"stretch:{spec.get('stretch')}")
    compared = 0
    for t, ev in enumerate(case["hist"]):
        n = ev["micros"] * ev["size"]
        x, ts = full.data(n=n)
        if ev["equal"]:  # the same samples in each micro-batch
            x = torch.cat([x[: ev["size"]]] * ev["micros"])
        with torch.no_grad():
            shape = full.model(x.to(full.dtype)).shape
        tgt = traj.make_target(spec, shape, ts)
        if ev["equal"]:
            tgt = torch.cat([tgt[: len(tgt) // ev["micros"]]] * ev["micros"])
            rec.count("equal_micro_batches", ev["micros"])
        full.backward(x, tgt)
        accumulate(
            acc, x, tgt, ev["micros"], ev["mode"], ev["order"], ev["foreign"], rec
        )
        rec.mark(f"{ev['mode']} x{ev['micros']}")
        full.step()
        acc.step()
        ok = traj.judge(
            rec,
            full.snap(),
            acc.snap(),
            tol,
            f"{ev['micros']} micro-batches ({ev['mode']}), step {t}",
            "accumulation",
        )
        if not ok:
            break
        compared += ev["micros"] > 1
    rec.nontrivial = compared >= 2


def order(case, rec):
    """Two orders of the same micro-batches."""
    spec = case["spec"]
    one, two = traj.Run(spec), traj.Run(spec)
    tol = traj.tolerance(spec)
    for t, ev in enumerate(case["hist"]):
        x, ts = one.data(n=ev["micros"] * ev["size"])
        with torch.no_grad():
            shape = one.model(x.to(one.dtype)).shape
        tgt = traj.make_target(spec, shape, ts)
        accumulate(one, x, tgt, ev["micros"], "alternate", 0, False, rec)
        mode = "reverse" if ev["mode"] == "alternate" else ev["mode"]
        accumulate(two, x, tgt, ev["micros"], mode, ev["order"], ev["foreign"])
        rec.mark(f"order {mode} x{ev['micros']} {spec['loss_average']}")
        one.step()
        two.step()
        what = f"another order of {ev['micros']} micro-batches ({mode}), step {t}"
        if not traj.judge(rec, one.snap(), two.snap(), tol, what, "order"):
            break
        rec.nontrivial = True


def probe(case, rec):
    """Fixed histories that fail because of known defects."""
    spec, kind = case["spec"], case["probe"]
    full, acc = traj.Run(spec), traj.Run(spec)
    x, ts = full.data(n=4)
    tgt = traj.make_target(spec, full.model(x.to(full.dtype)).shape, ts)
    if kind == "discarded":
        # gradients of a batch are discarded by zero_grad, its statistics are not
        acc.backward(x * 2, tgt)
        acc.opt.zero_grad()
        acc.backward(x, tgt)
    else:
        accumulate(acc, x, tgt, 2, "alternate", 0)
    full.backward(x, tgt)
    full.step()
    acc.step()
    rec.mark(f"probe {kind}")
    engine.compare(full.snap(), acc.snap(), 1e-8, f"probe {kind}", f"accum_{kind}")


__all__ = ["Violation"]
