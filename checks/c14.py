"""Invalid configurations are rejected without side effects, valid ones accepted."""

import math
import warnings

import torch
from torch import nn

from vlib import engine, progs, state
from vlib.core import Violation

ID = "C14"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitor of constructor and step: error classes, warnings and hidden side "
    "effects (hooks, state, later training) of random valid and sabotaged configurations"
)
RULE = (
    "A random model and a random valid configuration (defaults and/or parameter groups), "
    "which is left valid or sabotaged by one invalid setting (negative rate, unknown "
    "name, a layer spread over groups, a data-parallel wrapper) at the defaults or in a "
    "group, or used with a closure. Non-trivial: an error was due and the model was "
    "trained afterwards and compared with a model that never saw the failing call."
)
ASSUMPTIONS = [
    "an invalid default is due to be rejected if at least one group uses it",
    "torch.optim.Optimizer itself completes the caller's group dictionaries with defaults",
]
MIN = {"rejected": 400, "accepted": 150, "closures": 100, "later_training_compared": 400}

RATES = ["lr", "lr_cov", "alpha1", "momentum", "weight_decay"]
NAMES = {
    "kfac_approx": ["Expand", "", "reduced", "conv", None, "expand ", 0],
    "loss_average": ["mean", "sum", "", "sequence", "Batch", "batch+seq", 0],
    "structures": ["Dense", "sparse", "", "block29diagonal", None, "toeplitz", "diag"],
}
SABOTAGE = RATES + list(NAMES) + ["conflict", "wrapper", "closure", "kfac_like", "none"]


class MyDP(nn.DataParallel):
    """A user's wrapper."""


def cases(rng, tier):
    n = 1000 if tier == "quick" else 25000
    out = []
    for i in range(n):
        spec = progs.rand_spec(
            rng, dtype="float32", steps=2, T=rng.choice([1, 1, 2]), unsupported=False
        )
        kind = SABOTAGE[i % len(SABOTAGE)]
        value = None
        if kind in RATES:
            value = rng.choice(
                [-1, -1e-12, -0.5, -math.inf, -progs.logu(rng, 1e-6, 10.0), -7]
            )
        elif kind in NAMES:
            value = rng.choice(NAMES[kind])
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "kind": kind,
                "value": value,
                "where": rng.choice(["default", "group", "some_groups"]),
                "group": rng.randrange(3),
                "slot": rng.randrange(2),
                "kl_alpha1": rng.choice([0.0, 0.0, 0.5, 0.9, 1e-9]),
                "minimal": rng.random() < 0.3,
            }
        )
    return out


def build(case):
    spec = case["spec"]
    model, mods = progs.build_model(spec["arch"], spec["seed"])
    layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
    return model, mods, layers


def arguments(case, layers, sabotage):
    """Positional and keyword arguments of the constructor."""
    spec, kind = case["spec"], case["kind"] if sabotage else "none"
    hps = [progs.to_kwargs(hp) for hp in spec["hps"]]
    groups = [
        [p for l, a in zip(layers, spec["assign"]) if a == g for p in l.parameters()]
        for g in range(len(hps))
    ]
    bad = {}
    if kind in RATES or kind in NAMES:
        bad = {kind: case["value"]}
        if kind == "structures":
            pair = list(hps[0]["structures"])
            pair[case["slot"]] = case["value"]
            bad = {kind: tuple(pair)}
    g = case["group"] % len(hps)
    if kind == "kfac_like":
        for hp in hps:
            if hp["kfac_like"]:
                hp["alpha1"] = case["kl_alpha1"]
        hps[g].update(kfac_like=True, alpha1=case["kl_alpha1"])
    if kind == "conflict":
        two = [l for l in layers if l.bias is not None]
        if not two:
            return None
        layer = two[case["seed"] % len(two)]
        groups = [[p for p in ps if p is not layer.bias] for ps in groups]
        if case["slot"] or len(hps) == 1:
            groups.append([layer.bias])
            hps.append(dict(hps[0]))
        else:
            other = (spec["assign"][layers.index(layer)] + 1) % len(hps)
            groups[other].append(layer.bias)
    if case["where"] == "default" and kind != "conflict" and len(hps) == 1:
        return {"params": None}, {**hps[0], **bad}
    dicts = [{"params": ps, **hp} for ps, hp in zip(groups, hps)]
    defaults = {}
    if case["where"] == "default":
        defaults = bad
        for key in bad:
            dicts[g].pop(key)
    else:
        dicts[g].update(bad)
    if case["minimal"] and case["where"] != "default":
        # what is shared is given as default
        shared = {
            k: v for k, v in hps[0].items()
            if all(k in d and d[k] is v for d in dicts)
        }
        for d in dicts:
            for k in shared:
                d.pop(k)
        defaults = shared
    return {"params": dicts}, defaults


def fingerprint(model):
    """Everything about a model that an optimizer could leave behind."""
    hooks = []
    for m in model.modules():
        for attr in ("_forward_hooks", "_forward_pre_hooks", "_backward_hooks",
                     "_backward_pre_hooks", "_state_dict_hooks"):
            hooks.append(len(getattr(m, attr)))
        hooks.append(sorted(m.__dict__))
    params = [
        (p.requires_grad, p.grad is None, bool(p._backward_hooks),
         bool(getattr(p, "_post_accumulate_grad_hooks", None)))
        for p in model.parameters()
    ]
    rng = torch.get_rng_state()
    return state.flatten(
        {"sd": dict(model.state_dict()), "hooks": hooks, "params": params, "rng": rng}
    )


def attempt(fn):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        try:
            out, err = fn(), None
        except Exception as e:
            out, err = None, e
    msgs = [str(w.message) for w in caught if "naive" not in str(w.message)]
    return out, err, msgs


def train(case, model, layers, opt, steps=2):
    spec = case["spec"]
    names = progs.names_of(model, layers)
    snaps = []
    for t in range(steps):
        x, ts = progs.batch(spec, t, dtype=torch.float32)
        progs.loss_fn(spec, model(x), ts).backward()
        opt.step()
        opt.zero_grad()
        snaps.append(engine.snapshot(model, opt, names))
    return snaps


def compare(case, a, b, rec, key):
    (model_a, layers_a, opt_a), (model_b, layers_b, opt_b) = a, b
    want = train(case, model_b, layers_b, opt_b)
    got = train(case, model_a, layers_a, opt_a)
    for s, t in zip(got, want):
        bad = state.diff(state.flatten(s), state.flatten(t))
        if bad:
            raise Violation(f"later training differs: {bad[:3]}", key=key)
    rec.count("later_training_compared")


def run(case, rec):
    from singd.optim.optimizer import SINGD

    kind = case["kind"]
    model, mods, layers = build(case)
    call = arguments(case, layers, True)
    if call is None:
        return
    (pos, kw) = call
    if kind == "wrapper":
        return wrapper(case, model, layers, pos, kw, rec)
    before = fingerprint(model)
    if kind in ("none", "kfac_like", "closure"):
        return accepted(case, model, layers, pos, kw, rec)
    opt, err, _ = attempt(lambda: SINGD(model, warn_unsupported=False, **pos, **kw))
    if err is None:
        raise Violation(
            f"{kind}={case['value']!r} ({case['where']}) was accepted", key=f"accepts_{kind}"
        )
    if type(err) is not ValueError:
        raise Violation(
            f"{kind}={case['value']!r}: {type(err).__name__} instead of ValueError: "
            f"{str(err)[:200]}",
            key=f"error_{kind}",
        )
    rec.count("rejected")
    rec.mark(f"{kind}:{case['where']}:{case['value']!r}"[:60])
    traceless(case, before, model, layers, rec)
    rec.nontrivial = True


def traceless(case, before, model, layers, rec):
    """The rejected call left nothing behind."""
    from singd.optim.optimizer import SINGD

    bad = state.diff(before, fingerprint(model))
    if bad:
        raise Violation(f"{case['kind']}: rejection left traces {bad[:4]}", key="traces")
    other, _, layers2 = build(case)
    pos, kw = arguments(case, layers, False)
    opt = SINGD(model, warn_unsupported=False, **pos, **kw)
    pos, kw = arguments(case, layers2, False)
    opt2 = SINGD(other, warn_unsupported=False, **pos, **kw)
    compare(case, (model, layers, opt), (other, layers2, opt2), rec, "later")


def wrapper(case, model, layers, pos, kw, rec):
    from singd.optim.optimizer import SINGD

    before = fingerprint(model)
    cls = [nn.DataParallel, MyDP, nn.parallel.DistributedDataParallel][case["group"]]
    if cls is nn.parallel.DistributedDataParallel:
        # constructing it requires a process group
        wrapped = cls.__new__(cls)
        nn.Module.__init__(wrapped)
        wrapped.module = model
    else:
        wrapped = cls(model)
    opt, err, _ = attempt(lambda: SINGD(wrapped, warn_unsupported=False, **pos, **kw))
    if type(err) is not TypeError:
        raise Violation(f"{cls.__name__}: got {err!r}, not a TypeError", key="wrapper")
    rec.count("rejected")
    rec.mark(f"wrapper:{cls.__name__}")
    traceless(case, before, model, layers, rec)
    rec.nontrivial = True


SETTINGS = RATES + list(NAMES) + [
    "damping", "T", "kfac_like", "normalize_lr_cov", "preconditioner_dtype",
]


def accepted(case, model, layers, pos, kw, rec):
    from singd.optim.optimizer import SINGD

    want = [dict(d) for d in pos["params"]] if pos["params"] else [dict(kw)]
    want = [{**kw, **d} for d in want]
    before = state.flatten(dict(model.state_dict()))
    opt, err, msgs = attempt(lambda: SINGD(model, warn_unsupported=False, **pos, **kw))
    if err is not None:
        raise Violation(f"valid configuration rejected: {err!r}", key="rejects_valid")
    rec.count("accepted")
    if state.diff(before, state.flatten(dict(model.state_dict()))):
        raise Violation("the constructor changed the model", key="ctor")
    due = [bool(w.get("kfac_like")) and w.get("alpha1", 0.5) != 0.0 for w in want]
    if len(opt.param_groups) != len(want):
        raise Violation("number of groups changed", key="groups")
    if sum("kfac_like" in m for m in msgs) != sum(due) or len(msgs) != sum(due):
        raise Violation(f"{sum(due)} warnings were due, got {msgs}", key="warnings")
    rec.count("alpha1_warnings", sum(due))
    for group, w, d in zip(opt.param_groups, want, due):
        for key in SETTINGS:
            if key not in w:
                continue
            value = 0.0 if (d and key == "alpha1") else w[key]
            if group[key] is not value and group[key] != value:
                raise Violation(
                    f"setting {key} is {group[key]!r}, expected {value!r}", key="settings"
                )
        rec.count("settings_judged")
    other, _, layers2 = build(case)
    clean = {**case, "kl_alpha1": 0.0}
    pos2, kw2 = arguments(clean, layers2, True)
    opt2 = SINGD(other, warn_unsupported=False, **pos2, **kw2)
    if case["kind"] == "closure":
        closure(case, model, layers, opt, rec)
        closure(case, model, layers, opt, rec, backward=True)
        model.zero_grad()
        progs_discard(opt)
    compare(case, (model, layers, opt), (other, layers2, opt2), rec, "accepted")
    if any(due) or case["kind"] == "closure":
        rec.nontrivial = True
    if case["kind"] == "closure":
        closure(case, model, layers, opt, rec)


def progs_discard(opt):
    """Forget statistics (accumulation over discarded passes is judged elsewhere)."""
    sd = opt.state_dict()
    sd["H_Ks"].clear()
    sd["H_Cs"].clear()


def closure(case, model, layers, opt, rec, backward=False):
    spec = case["spec"]
    x, ts = progs.batch(spec, 9, dtype=torch.float32)
    calls = []

    def fn():
        calls.append(1)
        opt.zero_grad()
        loss = progs.loss_fn(spec, model(x), ts)
        loss.backward()
        return loss

    if backward:
        progs.loss_fn(spec, model(x), ts).backward()

    def view():
        grads = [None if p.grad is None else p.grad.clone() for p in model.parameters()]
        return {**state.full(model, opt), **state.flatten(grads, "grads")}

    before = view()
    _, err, _ = attempt(lambda: opt.step(fn) if case["slot"] else opt.step(closure=fn))
    if type(err) is not NotImplementedError:
        raise Violation(f"closure: got {err!r}", key="closure")
    bad = state.diff(before, view())
    if bad or calls:
        raise Violation(
            f"a rejected closure changed {bad[:3]} ({len(calls)} calls)", key="closure"
        )
    rec.count("closures")
