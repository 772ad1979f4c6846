"""Pre-conditioner factors follow the documented inverse-free update."""

from vlib import engine, progs, workload

ID = "C02"
LEVEL = "exploration"
TECHNIQUE = (
    "online monitor: every factor update of random training histories judged by a float64 reference model"
)
RULE = (
    "Random model, hyper-parameters (damping, alpha1, lr_cov value or schedule, "
    "normalization, kfac_like), structures and history (see C01; a step without "
    "backward pass must not update the factors). Non-trivial: at least two "
    "factor updates were judged against the dense float64 reference."
)
ASSUMPTIONS = [
    "CPU tensors; float64 for dense/diagonal and float32 for the other structures",
    "the pre-conditioner factors are read through the public Ks/Cs attributes",
    "the reference momentum is propagated by the reference, not read from the optimizer",
]
MIN = {"precond_updates_judged": 500}


def cases(rng, tier):
    n = 900 if tier == "quick" else 20000
    out = []
    for k in range(n):
        dtype = rng.choice(["float64", "float32"])
        fix = {}
        if rng.random() < 0.6:
            fix["T"] = 1
        if rng.random() < 0.5:
            fix["damping"] = progs.logu(rng, 0.05, 2.0)
        spec = progs.rand_spec(rng, dtype=dtype, wide=rng.random() < 0.25, **fix)
        if k < (3 if tier == "quick" else 30):
            progs.stretch(rng, spec, "marathon")
        elif rng.random() < 0.2:
            progs.stretch(rng, spec)
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "style": rng.choice([None, "groups"]),
                "hist": workload.rand_history(rng, spec),
            }
        )
    return out


def run(case, rec):
    mon = engine.Monitor(case["spec"], rec, watch=("precond",), style=case["style"])
    workload.play(mon, case["hist"])
    rec.mark(f"stretch:{case['spec'].get('stretch')}")
    for hp in case["spec"]["hps"]:
        rec.mark(f"kfac_like={hp['kfac_like']},norm={hp['normalize_lr_cov']}")
    if case["spec"].get("stretch") == "marathon":
        rec.count("marathon_steps", rec.counts.get("steps", 0))
    rec.nontrivial = rec.counts.get("precond_updates_judged", 0) >= 2
