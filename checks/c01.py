"""Parameter updates follow the documented pre-conditioned rule."""

from vlib import engine, progs, workload

ID = "C01"
LEVEL = "exploration"
TECHNIQUE = (
    "online monitor: every step of random training histories judged by a float64 reference model"
)
RULE = (
    "Random model (linear/shared linear/conv, nested), hyper-parameters, parameter "
    "groups, structures and history (batch sizes, micro-batches, hyper-parameter "
    "changes, unrelated forward passes, gradients or parameters edited between backward "
    "and step, kept gradients, steps without backward). Non-trivial: at least two parameter updates "
    "with non-zero gradients were judged against the float64 reference."
)
ASSUMPTIONS = [
    "CPU tensors; float64 for dense/diagonal and float32 for the other structures",
    "the pre-conditioner factors are read through the public Ks/Cs attributes",
    "programs are cut off once the training diverges",
]
MIN = {"param_updates_judged": 500}


def cases(rng, tier):
    n = 900 if tier == "quick" else 20000
    out = []
    for k in range(n):
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, wide=rng.random() < 0.15)
        if k < (3 if tier == "quick" else 30):
            progs.stretch(rng, spec, "marathon")
        elif rng.random() < 0.2:
            progs.stretch(rng, spec)
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "style": rng.choice([None, "groups"]),
                "hist": workload.rand_history(rng, spec),
            }
        )
    return out


def run(case, rec):
    mon = engine.Monitor(case["spec"], rec, watch=("params", "grads"), style=case["style"])
    workload.play(mon, case["hist"])
    rec.mark(f"stretch:{case['spec'].get('stretch')}")
    rec.mark(case["spec"]["arch"]["kind"])
    for hp in case["spec"]["hps"]:
        rec.mark("-".join(hp["structures"]))
    if case["spec"].get("stretch") == "marathon":
        rec.count("marathon_steps", rec.counts.get("steps", 0))
    rec.nontrivial = rec.counts.get("param_updates_judged", 0) >= 2
