"""Data types, shapes and structures are preserved throughout training."""

import copy

import torch

from vlib import engine, progs
from vlib.core import Violation

ID = "C11"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime invariant monitor: types, shapes and classes of the complete optimizer and "
    "model state asserted after every event of random mixed-precision histories"
)
RULE = (
    "A random model whose layers have individual data types, groups with random "
    "pre-conditioner types and structures, optional autocast, and a random history of "
    "micro-batches, steps, skipped steps and restored states. Non-trivial: at least two "
    "steps were judged and at least two different data types are involved. A second kind "
    "of case trains on another device (meta, without data) and judges where tensors are."
)
ASSUMPTIONS = [
    "64 bit factors are combined with dense and diagonal structures only (other "
    "structures document lower precisions)"
]
MIN = {"states_judged": 2000, "matrices_judged": 10000, "skipped_steps": 100, "restored": 100,
       "device_states_judged": 300}

LOW = ["float32", "float16", "bfloat16"]


def cases(rng, tier):
    n = 500 if tier == "quick" else 15000
    out = []
    for _ in range(n):
        spec = progs.rand_spec(
            rng, dtype="float32", steps=rng.randint(3, 6), unsupported=False
        )
        if rng.random() < 0.06:
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv", "batch", "long"]))
            spec["steps"] = min(spec["steps"], 25)
        num = len(progs.supported_idx(spec["arch"]))
        ldt = [rng.choice(LOW + ["float64"]) for _ in range(num)]
        if rng.random() < 0.5:
            ldt = [ldt[0]] * num
        for g, hp in enumerate(spec["hps"]):
            pd = [rng.choice([None, None] + LOW + ["float64"]) for _ in range(2)]
            pd = [None, None] if rng.random() < 0.25 else pd
            hp["preconditioner_dtype"] = pd
            mine = [d for d, a in zip(ldt, spec["assign"]) if a == g]
            for k in range(2):
                if (pd[k] == "float64") or (pd[k] is None and "float64" in mine):
                    hp["structures"][k] = rng.choice(progs.F64_STRUCTS)
        events = []
        for _ in range(spec["steps"] + rng.randint(0, 3)):
            events.append(
                rng.choice(["step", "step", "step", "skip", "micro", "restore", "reload"])
            )
        events.append("step")
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "layer_dtypes": ldt,
                "autocast": rng.choice([None, None, "bfloat16", "float16"]),
                "events": events,
                "scale": rng.choice([1.0, 1.0, 64.0]),
            }
        )
    for _ in range(n // 5):
        spec = progs.rand_spec(rng, dtype="float32", steps=3, unsupported=False)
        for hp in spec["hps"]:
            hp["preconditioner_dtype"] = [rng.choice([None] + LOW) for _ in range(2)]
            # these need the values of tensors, which do not exist on this device
            hp["kfac_like"], hp["normalize_lr_cov"] = True, False
        events = [rng.choice(["step", "skip", "micro"]) for _ in range(3)] + ["step"]
        out.append({"seed": spec["seed"], "spec": spec, "events": events, "meta": True})
    return out


def run_meta(case, rec):
    """Everything stays on the device of the model.

    The second device is ``meta``, on which tensors have no data.
    """
    spec = case["spec"]
    model, mods = progs.build_model(spec["arch"], spec["seed"])
    model = model.to("meta")
    opt = progs.make_opt(spec, model, mods, style="groups")

    def judge(when):
        tensors = {}
        for key in ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs"):
            for name, M in getattr(opt, key).items():
                for k, t in M.named_tensors():
                    tensors[f"{key} of {name} ({k})"] = t
        for n, p in model.named_parameters():
            tensors[f"parameter {n}"] = p
            tensors[f"gradient of {n}"] = p.grad
            for k, v in opt.state.get(p, {}).items():
                if torch.is_tensor(v) and v.ndim:
                    tensors[f"{k} of {n}"] = v
        rec.count("device_states_judged")
        for what, t in tensors.items():
            if t is not None:
                rec.count("device_tensors_judged")
                if t.device.type != "meta":
                    raise Violation(f"{when}: {what} is on {t.device}", key="device")

    judge("initially")
    for i, ev in enumerate(case["events"]):
        try:
            x, _ = progs.batch(spec, i, n=2, dtype=torch.float32)
            (model(x.to("meta")) ** 2).mean().backward()
            judge("after a backward pass")
            if ev == "skip":
                engine.emulate_scaler(opt, 2.0, True)
            elif ev == "step":
                opt.step()
        except (RuntimeError, NotImplementedError) as e:
            if "expected device" in str(e) or "on the same device" in str(e):
                raise Violation(f"event {i}: devices are mixed: {e}", key="device") from e
            rec.count("device_unjudged")  # values are needed, which do not exist
            return
        judge(f"after {ev}")
    rec.count("device_runs_completed")
    rec.nontrivial = True


class Setup:
    def __init__(self, case):
        spec = case["spec"]
        self.model, mods = progs.build_model(spec["arch"], spec["seed"])
        self.layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
        for layer, d in zip(self.layers, case["layer_dtypes"]):
            layer.to(getattr(torch, d))
            layer.register_forward_pre_hook(
                lambda m, inp: (inp[0].to(m.weight.dtype),) + inp[1:]
            )
        self.names = progs.names_of(self.model, self.layers)
        self.opt = progs.make_opt(spec, self.model, mods, style="groups")
        self.static = {
            n: (p, p.dtype, p.shape, p.stride(), p.requires_grad)
            for n, p in self.model.named_parameters()
        }


def run(case, rec):
    from singd.optim.optimizer import SINGD

    if case.get("meta"):
        return run_meta(case, rec)
    spec, s = case["spec"], Setup(case)
    want = []  # per layer: expected (class, dtype, dimension) of both factors
    kinds = set()
    for layer, a in zip(s.layers, spec["assign"]):
        hp = spec["hps"][a]
        dim_C, dim_K = layer.weight.shape[0], layer.weight[0].numel()
        dim_K += layer.bias is not None
        entry = []
        for k, dim in enumerate([dim_K, dim_C]):
            d = hp["preconditioner_dtype"][k]
            d = layer.weight.dtype if d is None else getattr(torch, d)
            cls = SINGD.SUPPORTED_STRUCTURES[hp["structures"][k]]
            entry.append((cls, d, dim))
            kinds |= {d, layer.weight.dtype}
            rec.mark(f"{cls.__name__}:{layer.weight.dtype}:{d}:{case['autocast']}")
        want.append(entry)
    check(s, want, rec, "initially")
    t, steps, saved = 0, 0, None
    for ev in case["events"]:
        if ev in ("restore", "reload"):
            pair = copy.deepcopy((s.model.state_dict(), s.opt.state_dict()))
            if ev == "restore":
                s = Setup(case)
            elif saved is not None:
                pair, saved = saved, pair
            s.model.load_state_dict(pair[0])
            s.opt.load_state_dict(pair[1])
            rec.count("restored")
            saved = saved or copy.deepcopy(pair)
            check(s, want, rec, f"after {ev}")
            continue
        x, _ = progs.batch(spec, t, n=2, dtype=torch.float32)
        t += 1
        cast = case["autocast"]
        with torch.autocast(
            "cpu", dtype=getattr(torch, cast or "bfloat16"), enabled=cast is not None
        ):
            y = s.model(x)
        (y.float() ** 2).mean().mul(0.5 * case["scale"]).backward()
        check(s, want, rec, "after a backward pass", grads=True)
        if ev == "micro":
            continue
        if ev == "skip":
            engine.emulate_scaler(s.opt, case["scale"], True)
            rec.count("skipped_steps")
        elif case["scale"] != 1.0:
            engine.emulate_scaler(s.opt, case["scale"], False)
        else:
            s.opt.step()
        steps += 1
        check(s, want, rec, f"after {ev}", grads=True)
        s.opt.zero_grad(set_to_none=bool(t % 2))
    rec.nontrivial = steps >= 2 and len(kinds) >= 2


def check(s, want, rec, when, grads=False):
    rec.count("states_judged")
    sd = s.opt.state_dict()
    for name, entry in zip(s.names, want):
        for key in ("Ks", "Cs", "m_Ks", "m_Cs", "H_Ks", "H_Cs"):
            if name not in sd[key]:
                continue
            M = sd[key][name]
            cls, dtype, dim = entry["C" in key]
            rec.count("matrices_judged")
            types = {x.dtype for _, x in M.named_tensors()}
            shape = tuple(M.to_dense().shape)
            if type(M) is not cls or types != {dtype} or shape != (dim, dim):
                raise Violation(
                    f"{when}: {key} of layer {name} is {type(M).__name__} {types} "
                    f"{shape}, expected {cls.__name__} {dtype} {dim}",
                    key="factors",
                )
        for key in ("Ks", "Cs"):
            if name not in sd[key] or getattr(s.opt, key)[name] is None:
                raise Violation(f"{when}: no {key} for layer {name}", key="factors")
    for n, p in s.model.named_parameters():
        q, dtype, shape, stride, req = s.static[n]
        got = (p.dtype, p.shape, p.stride(), p.requires_grad)
        if p is not q or got != (dtype, shape, stride, req):
            raise Violation(f"{when}: parameter {n} became {got}", key="params")
        if grads and p.grad is not None:
            if p.grad.dtype != dtype or p.grad.shape != shape:
                raise Violation(f"{when}: gradient of {n} changed", key="grads")
        for k, v in s.opt.state.get(p, {}).items():
            if torch.is_tensor(v) and v.ndim and (v.dtype != dtype or v.shape != shape):
                raise Violation(
                    f"{when}: {k} of {n} is {v.dtype} {tuple(v.shape)}", key="momentum"
                )
            rec.count("buffers_judged")
