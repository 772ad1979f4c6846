"""Data-parallel training equals single-process training."""

import random

import torch

from vlib import distrun, engine, progs, traj
from vlib.core import Violation

ID = "C10"
LEVEL = "exploration"
TECHNIQUE = (
    "real gloo process groups; per-rank state and collective-call logs checked for "
    "agreement between ranks and against a single-process execution"
)
RULE = (
    "Worlds of 2-4 processes execute batches of random programs on their shards (random "
    "delays, micro-batches, gradient scales). Non-trivial: at least two steps of a "
    "program were compared between all ranks and with a single process."
)
ASSUMPTIONS = [
    "gloo on the loopback device, CPU tensors, equally large shards",
    "losses averaged over samples and sequence are treated like averaged losses",
    "micro-batches only for averaged losses and the coupled rule, see C06",
]
MIN = {"snapshots_compared": 150, "rank_agreements": 150, "collectives": 500}
PROCS = 3


def _program(rng, world):
    dtype = rng.choice(["float64", "float32"])
    spec = progs.rand_spec(
        rng,
        dtype=dtype,
        steps=rng.choice([2, 3, 4, rng.randint(4, 12)]),
        loss_average=rng.choice([None, None, "batch", "batch", "batch+sequence"]),
    )
    large = rng.random() < 0.08
    if large:
        progs.stretch(rng, spec, rng.choice(["wide", "wide_conv"]))
        spec["steps"] = 3
    if spec["loss_average"] is None:
        for hp in spec["hps"]:
            hp["damping"] = max(hp["damping"], 0.01)
            hp["lr_cov"] = 0.01
            hp["lr"] = 0.003
    traj.calm(spec)
    plain = spec["loss_average"] is not None and not any(
        hp["kfac_like"] for hp in spec["hps"]
    )
    return {
        "spec": spec,
        "shard": rng.choice([1, 2, 3, 3, rng.randint(4, 60)]),
        "micros": rng.choice([1, 1, 2, 3, 7]) if plain else 1,
        "scale": rng.choice([1.0, 1.0, 16.0]),
        "delay": rng.random() < 0.2,
        "frozen_data": rng.random() < 0.1,
    }


def cases(rng, tier):
    worlds = [2, 3, 2, 4, 2, 3] if tier == "quick" else [2, 3, 4] * 20
    per = 25 if tier == "quick" else 60
    return [
        {
            "seed": rng.randrange(10**6),
            "world": w,
            "programs": [_program(rng, w) for _ in range(per)],
        }
        for w in worlds
    ]


def _train(prog, shards, rank=None):
    """Train on all shards (single process) or on that of one rank."""
    import time

    spec = prog["spec"]
    run = traj.Run(spec, init_grad_scale=prog["scale"])
    n = shards * prog["shard"] * prog["micros"]
    snaps = []
    rng = random.Random(f"{spec['seed']}-{rank}")
    for t in range(spec["steps"]):
        x, ts = run.data(n=n)
        tgt_shape = probe_shape(run, x)
        tgt = traj.make_target(spec, tgt_shape, ts)
        if rank is not None:
            size = prog["shard"] * prog["micros"]
            x = x[rank * size : (rank + 1) * size]
            tgt = tgt[rank * size : (rank + 1) * size]
        micro = len(x) // prog["micros"]
        for xm, tm in zip(x.split(micro), tgt.split(micro)):
            run.backward(xm, tm, prog["scale"] / prog["micros"])
            if rank is not None and prog["delay"]:
                time.sleep(rng.choice([0.0, 0.002, 0.02]))
        if prog["scale"] != 1.0:
            run.opt.set_current_grad_scale(prog["scale"])
        run.step()
        snaps.append(run.snap())
    return snaps


def probe_shape(run, x):
    with torch.no_grad():
        return run.model(x.to(run.dtype)).shape


def rank_main(payload, rank, world):
    out = []
    for prog in payload:
        with distrun.CollectiveLog() as log:
            snaps = _train(prog, world, rank)
        out.append({"snaps": snaps, "log": log.events})
    return out


def run(case, rec):
    world = case["world"]
    results = distrun.launch("c10", case["programs"], world)
    for i, prog in enumerate(case["programs"]):
        per_rank = [r[i] for r in results]
        rec.mark(f"world {world}, {prog['spec']['loss_average']}")
        rec.count("collectives", len(per_rank[0]["log"]))
        if any(r["log"] != per_rank[0]["log"] for r in per_rank):
            raise Violation(
                f"program {i}: ranks executed different collective operations",
                key="collectives",
            )
        single = _train(prog, world)
        tol = traj.tolerance(prog["spec"])
        steps = 0
        for t, want in enumerate(single):
            if not engine.sane(want, 1e2):
                break
            first = per_rank[0]["snaps"][t]
            for r, res in enumerate(per_rank[1:], 1):
                # the same reduced values on every rank
                engine.compare(
                    first,
                    res["snaps"][t],
                    1e-12 if prog["spec"]["dtype"] == "float64" else 1e-6,
                    f"program {i}, step {t}, ranks 0 and {r}",
                    "ranks_differ",
                )
                rec.count("rank_agreements")
            what = f"program {i} ({prog['spec']['loss_average']}), step {t}, {world} ranks"
            if not traj.judge(rec, want, first, tol, what, "single"):
                break
            steps += 1
        rec.nontrivial |= steps >= 2
        rec.count("programs_compared", steps >= 2)
