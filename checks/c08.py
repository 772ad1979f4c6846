"""Steps with infinite gradients are skipped without a trace."""

import torch

from vlib import engine, progs, traj, workload

ID = "C08"
LEVEL = "fault_enumeration"
TECHNIQUE = (
    "fault injection with enumeration of all subsets of faulty steps; state monitor for "
    "bit-identity over skipped steps and float64 reference monitor for all other steps"
)
RULE = (
    "For each random program every subset of its steps is made faulty (infinite or NaN "
    "loss, input, or gradient, in a random micro-batch), with a real gradient scaler or "
    "with the attributes it sets; long trainings and wide layers get random runs of "
    "consecutive faulty steps. Non-trivial: at least one step was skipped and one "
    "other step was judged."
)
ASSUMPTIONS = [
    "the gradient scaler reports infinities as in torch.amp.GradScaler.step",
    "discarding of statistics is observed in state_dict() and in all later updates",
]
MIN = {"skipped_steps": 300, "param_updates_judged": 500, "precond_updates_judged": 300}


def cases(rng, tier):
    programs, steps = (55, 4) if tier == "quick" else (500, 5)
    out = []
    for _ in range(programs):
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, steps=steps)
        traj.calm(spec)
        for hp in spec["hps"]:
            hp["T"] = rng.choice([1, 1, 2, 3])
        hist = [
            {"n": rng.randint(1, 5), "micros": rng.choice([1, 1, 2, 3])}
            for _ in range(steps)
        ]
        for mask in range(1, 2**steps):
            faults = [
                _fault(rng) if mask >> t & 1 else None
                for t in range(steps)
            ]
            out.append(
                {
                    "seed": spec["seed"],
                    "spec": spec,
                    "hist": hist,
                    "faults": faults,
                    "scaler": rng.choice(["real", "attr", "attr"]),
                    "scale": rng.choice([1.0, 4.0, 100.0, 1024.0]),
                }
            )
    # long trainings with runs of consecutive faulty steps, in wide layers too
    for k in range(60 if tier == "quick" else 1500):
        spec = progs.rand_spec(rng, dtype=rng.choice(["float64", "float32"]))
        kind = rng.choice(["long", "long", "wide", "wide_conv", "batch"])
        progs.stretch(rng, spec, kind)
        if kind == "long":
            spec["steps"] = rng.randint(12, 45)
        traj.calm(spec, 0.02, 0.03)
        for hp in spec["hps"]:
            hp["T"] = rng.choice([1, 1, 2, 3, 4, 6])
        faults, bad = [], False
        for _ in range(spec["steps"]):
            bad = rng.random() < (0.75 if bad else 0.2)
            faults.append(_fault(rng) if bad else None)
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "hist": [
                    {
                        "n": rng.choice([spec["n"], rng.randint(1, 5)]),
                        "micros": rng.choice([1, 1, 2, 3, 9]),
                    }
                    for _ in faults
                ],
                "faults": faults,
                "scaler": "attr" if kind == "long" else rng.choice(["real", "attr"]),
                "scale": rng.choice([1.0, 4.0, 100.0, 1024.0]),
            }
        )
    return out


def _fault(rng):
    return {
        "kind": rng.choice(["loss", "input", "grad"]),
        "value": rng.choice(["inf", "-inf", "nan"]),
        "micro": rng.randrange(3),
        "pos": rng.randrange(1000),
    }


def run(case, rec):
    real = case["scaler"] == "real"
    rec.mark(f"stretch:{case['spec'].get('stretch')}")
    mon = engine.Monitor(
        case["spec"], rec, style="groups", init_grad_scale=case["scale"]
    )
    scaler = None
    if real:
        scaler = torch.amp.GradScaler(
            "cpu", init_scale=case["scale"], growth_interval=2, growth_factor=2.0
        )
        scaler.scale(torch.ones(1))  # initialize lazily created state
    judged = 0
    for ev, fault in zip(case["hist"], case["faults"]):
        gscale = scaler.get_scale() if real else case["scale"]
        if fault:
            mon.skipped_step(
                fault, n=ev["n"], micros=ev["micros"], gscale=gscale, scaler=scaler
            )
            rec.mark(f"{fault['kind']} {fault['value']}")
        else:
            alive = mon.step(
                n=ev["n"],
                micros=ev["micros"],
                gscale=gscale,
                apply="scaler" if real else "attr",
                scaler=scaler,
            )
            judged += 1
            if not alive:
                break
        if real:
            scaler.update()
        mon.zero_grad()
    rec.nontrivial = judged > 0 and rec.counts.get("skipped_steps", 0) > 0
