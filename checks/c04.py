"""Pre-conditioner update interval, schedules, and forward passes without effect."""

from vlib import engine, progs, workload
from vlib.core import Violation

ID = "C04"
LEVEL = "exploration"
TECHNIQUE = (
    "trace monitor over update intervals, schedule calls and foreign forward passes"
)
RULE = (
    "Random programs whose groups have different intervals T (1..7) and learning rate "
    "schedules, with forward passes that are not part of training (eval, no_grad, "
    "inference mode, never back-propagated, between forward and backward) mixed in, steps without a backward pass, and T "
    "changed on the way. Non-trivial: both updating and non-updating steps of a layer "
    "were observed."
)
ASSUMPTIONS = ["CPU tensors", "a schedule is a function of the step it is given"]
MIN = {"precond_updates_judged": 300, "precond_must_not_change": 300, "schedule_calls": 200}


class Recorder:
    """Schedule that records the step it was asked for."""

    def __init__(self, fn):
        self.fn, self.calls = fn, []

    def __call__(self, step):
        self.calls.append(step)
        return self.fn(step)


def cases(rng, tier):
    n = 800 if tier == "quick" else 15000
    out = []
    for k in range(n):
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(
            rng, dtype=dtype, steps=rng.randint(5, 12), groups=rng.choice([1, 2, 3])
        )
        for hp in spec["hps"]:
            hp["T"] = rng.choice([1, 2, 3, 4, 5, 7])
            hp["lr"] = min(hp["lr"], 0.05)
            if rng.random() < 0.7:
                hp["lr_cov"] = {
                    "kind": "table",
                    "a": [progs.logu(rng, 0.005, 0.15) for _ in range(rng.randint(5, 13))],
                    "b": 0,
                }
        if rng.random() < 0.15:
            progs.stretch(rng, spec, rng.choice(["micros", "micros", "long", "batch", "wide"]))
        hist = workload.rand_history(rng, spec, mutate=False)
        for ev in hist:
            ev["again"] = rng.choice([0, 0, 0, 0, 0, 1, 2])
            ev["keep"] = rng.random() < 0.05
            ev["distract"] += [d for d in workload.DISTRACT if rng.random() < 0.3]
            if rng.random() < 0.08:
                ev["set"].append(
                    [rng.randrange(len(spec["hps"])), "T", rng.choice([1, 2, 3, 5])]
                )
        out.append({"seed": spec["seed"], "spec": spec, "hist": hist})
    return out


def run(case, rec):
    spec = case["spec"]
    mon = engine.Monitor(spec, rec, watch=("precond",), style="groups")
    recorders = []
    for group in mon.opt.param_groups:
        r = None
        if callable(group["lr_cov"]):
            r = group["lr_cov"] = Recorder(group["lr_cov"])
        recorders.append(r)
    stepped = [(ev, micros) for ev in case["hist"] for micros in [ev["micros"]] + [0] * ev["again"]]
    for t, (ev, micros) in enumerate(stepped):
        for g, key, val in ev["set"] if micros else []:
            mon.set_hp(g, key, val)
        for r in recorders:
            if r is not None:
                r.calls.clear()
        if mon.opt.steps != t:
            raise Violation(f"step counter is {mon.opt.steps}, expected {t}", key="counter")
        if micros and t:
            mon.zero_grad(ev["none"], ev["keep"])
        elif t:  # another step with the same gradients
            mon.zero_grad(keep=True)
            rec.count("steps_without_backward")
        alive = mon.step(
            n=ev["n"],
            micros=micros,
            distract=[workload.DISTRACT[d] for d in ev["distract"]],
        )
        for g, r in enumerate(recorders):
            if r is None:
                continue
            updates = micros and t % mon.hps[g]["T"] == 0
            rec.count("schedule_calls", len(r.calls))
            if any(c != t for c in r.calls):
                raise Violation(
                    f"schedule was evaluated at {r.calls} in step {t}", key="schedule"
                )
            if updates and alive and not r.calls:
                raise Violation(f"schedule was not evaluated in step {t}", key="schedule")
        if not alive:
            break
    for hp in spec["hps"]:
        rec.mark(f"T={hp['T']}")
    rec.nontrivial = (
        rec.counts.get("precond_updates_judged", 0) > 2
        and rec.counts.get("precond_must_not_change", 0) > 0
    )
