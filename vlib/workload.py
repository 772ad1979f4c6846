"""Random histories around the training step, shared by several checks."""

import copy

import torch

from vlib import progs


def rand_history(rng, spec, mutate=True, micro=True, distract=True):
    """Per-step history: batch sizes, micro-batches, hyper-parameter changes, noise."""
    hist = []
    alpha1 = [hp["alpha1"] for hp in spec["hps"]]
    restartable = [a == 0.0 for a in alpha1]
    for t in range(spec["steps"]):
        ev = {
            "n": rng.randint(1, 6),
            "micros": 1,
            "none": rng.random() < 0.6,
            "distract": [],
            "set": [],
        }
        if micro and rng.random() < 0.25:
            ev["micros"] = rng.randint(2, 3)
        if distract:
            for d in DISTRACT:
                if rng.random() < 0.12:
                    ev["distract"].append(d)
        if mutate and rng.random() < 0.08:
            ev[rng.choice(["keep", "again"])] = True
        if mutate and rng.random() < 0.1:
            ev["edits"] = [rng.choice(list(EDITS))]
        if mutate and rng.random() < 0.3:
            g = rng.randrange(len(spec["hps"]))
            key = rng.choice(["lr", "lr", "momentum", "weight_decay", "damping", "lr_cov"])
            val = {
                "lr": rng.choice([0.0, progs.logu(rng, 3e-3, 0.2)]),
                "momentum": rng.choice([0.0, 0.3, 0.8]),
                "weight_decay": rng.choice([0.0, 0.1, 0.4]),
                "damping": rng.choice([0.0, 0.05, 0.5]),
                "lr_cov": rng.choice([0.0, *[progs.logu(rng, 1e-2, 0.3)] * 3]),
            }[key]
            ev["set"].append([g, key, val])
        if mutate and rng.random() < 0.1:
            g = rng.randrange(len(spec["hps"]))
            key = rng.choice(["alpha1", "T", "normalize_lr_cov", "kfac_approx", "kfac_like"])
            if key == "alpha1" and not (
                spec["hps"][g]["kfac_like"] or (alpha1[g] == 0.0 and not restartable[g])
            ):
                # a momentum that is switched off stays off
                alpha1[g] = rng.choice([0.2, 0.6, 0.9, 0.0])
                restartable[g] = restartable[g] and alpha1[g] == 0.0
                ev["set"].append([g, key, alpha1[g]])
            elif key == "kfac_like" and alpha1[g] == 0.0 and spec["hps"][g]["alpha1"] == 0.0:
                restartable[g] = False
                ev["set"].append([g, key, rng.random() < 0.5])
            elif key == "T":
                ev["set"].append([g, key, rng.choice([1, 1, 2, 3])])
            elif key == "normalize_lr_cov":
                ev["set"].append([g, key, rng.random() < 0.5])
            elif key == "kfac_approx":
                ev["set"].append([g, key, rng.choice(["expand", "reduce"])])
        if spec.get("stretch") == "marathon":  # long schedules stay in place
            kept = ("momentum", "weight_decay", "damping")
            ev["set"] = [entry for entry in ev["set"] if entry[1] in kept]
        if spec.get("stretch") == "batch" and rng.random() < 0.6:
            ev["n"] = spec["n"]
        if "many" in spec:
            if micro and rng.random() < 0.6:
                ev["micros"] = spec["many"]
            if distract and rng.random() < 0.6:
                ev["distract"] += [rng.choice(list(DISTRACT))] * spec["many"]
        hist.append(ev)
    return hist


def d_nograd(mon, x):
    with torch.no_grad():
        mon.model(torch.randn_like(x).to(mon.dtype) * 5 + 3)


def d_inference(mon, x):
    with torch.inference_mode():
        mon.model(torch.randn_like(x).to(mon.dtype) * 5 + 3)


def d_eval(mon, x):
    modes = [(m, m.training) for m in mon.model.modules()]
    mon.model.eval()
    with torch.no_grad():
        mon.model(torch.randn_like(x).to(mon.dtype) * 2)
    for m, training in modes:
        m.training = training


def d_forward_only(mon, x):
    """Forward pass with gradients enabled whose graph is never back-propagated."""
    mon.model(torch.randn_like(x).to(mon.dtype) * 5 + 3)


def d_state_dict(mon, x):
    mon.opt.state_dict()


def d_copy(mon, x):
    """Train a copy of the model, e.g. to keep averages of the parameters."""
    twin = copy.deepcopy(mon.model)
    (twin(torch.randn_like(x).to(mon.dtype) * 3) ** 2).sum().backward()
    with torch.no_grad():
        for p in twin.parameters():
            p.mul_(0.5)


def e_clip(mon):
    """Clip the gradients in place."""
    torch.nn.utils.clip_grad_norm_(mon.model.parameters(), 0.1)


def e_grad(mon):
    """Replace the gradients, by tensors of another layout."""
    for p in mon.model.parameters():
        if p.grad is not None:
            p.grad = (p.grad * -0.5 + 0.01).mT.contiguous().mT if p.ndim > 1 else p.grad * 2


def e_param(mon):
    """Change the parameters in place."""
    with torch.no_grad():
        for p in mon.model.parameters():
            p.mul_(0.9).add_(0.01)


def e_data(mon):
    """Replace the storage of the parameters."""
    for p in mon.model.parameters():
        p.data = p.data.clone() * 0.9


def e_load(mon):
    """Load other parameters."""
    mon.model.load_state_dict({k: v * 0.8 for k, v in mon.model.state_dict().items()})


# what users do between the backward pass and the step
EDITS = {"clip": e_clip, "grad": e_grad, "param": e_param, "data": e_data, "load": e_load}


DISTRACT = {
    "nograd": d_nograd,
    "inference": d_inference,
    "eval": d_eval,
    "forward_only": d_forward_only,
    "state_dict": d_state_dict,
    "copy": d_copy,
}


def play(mon, hist):
    """Drive a monitor through a history."""
    for ev in hist:
        for e in ev.get("edits", []):
            mon.rec.count(f"edit_{e}")
        for g, key, val in ev["set"]:
            mon.set_hp(g, key, val)
            mon.rec.count("hyperparameter_changes")
        for d in ev["distract"]:
            mon.rec.count(f"distraction_{d}")
        alive = mon.step(
            n=ev["n"],
            micros=ev["micros"],
            distract=[DISTRACT[d] for d in ev["distract"]],
            edits=[EDITS[e] for e in ev.get("edits", [])],
        )
        if not alive:
            break
        if ev.get("again"):  # another step with the same gradients
            mon.zero_grad(keep=True)
            mon.rec.count("steps_without_backward")
            if not mon.step(n=1, micros=0):
                break
        mon.zero_grad(ev["none"], ev.get("keep", False))
