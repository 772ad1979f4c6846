"""Exactly the requested and supported parameters are trained."""

import warnings

import torch
from torch import nn

from vlib import progs, state
from vlib.core import Violation

ID = "C13"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime invariant monitor: the set of tensors that change in each step is compared "
    "with the requested, supported and back-propagated parameters of random models"
)
RULE = (
    "A random model of 3-9 stages (supported, subclassed, unsupported, parameter-owning "
    "containers), each used or not in each step, parameters frozen initially or during "
    "training, a random selection of parameters (default, list, groups) and 2-6 steps. "
    "Non-trivial: at least two steps in which some parameter changed and some "
    "parameter had to stay as it was."
)
ASSUMPTIONS = [
    "a requested parameter has to change if its gradient and natural gradient are not tiny",
    "parameters added with add_param_group after construction are a known finding (probe)",
]
MIN = {"must_change": 2000, "must_not_change": 4000, "warnings_judged": 300}
D = 4

STAGES = ["linear", "linear", "linear", "sublinear", "conv", "layernorm", "batchnorm",
          "scale", "conv1d", "prelu", "mixed", "deep", "bilinear"]
SUPPORTED = {"linear", "sublinear", "conv", "deep"}


class SubLinear(nn.Linear):
    """User-defined linear layer."""


class Scale(nn.Module):
    def __init__(self):
        super().__init__()
        self.factor = nn.Parameter(torch.rand(D) + 0.5)
        self.register_buffer("calls", torch.zeros(()))

    def forward(self, x):
        return x * self.factor


class Mixed(nn.Module):
    """Container that owns a parameter and a supported layer."""

    def __init__(self, bias):
        super().__init__()
        self.shift = nn.Parameter(torch.rand(D))
        self.inner = nn.Linear(D, D, bias=bias)

    def forward(self, x):
        return self.inner(x) + self.shift


class Images(nn.Module):
    def __init__(self, conv):
        super().__init__()
        self.layer = conv

    def forward(self, x):
        if isinstance(self.layer, nn.Conv1d):
            return self.layer(x.unsqueeze(-1)).squeeze(-1)
        return self.layer(x[:, :, None, None].expand(-1, -1, 2, 2)).mean((2, 3))


class Pair(nn.Module):
    def __init__(self):
        super().__init__()
        self.layer = nn.Bilinear(D, D, D)

    def forward(self, x):
        return self.layer(x, x)


def make_stage(kind, bias):
    if kind == "linear":
        return nn.Linear(D, D, bias=bias)
    if kind == "sublinear":
        return SubLinear(D, D, bias=bias)
    if kind == "conv":
        return Images(nn.Conv2d(D, D, 2, bias=bias, padding=1))
    if kind == "conv1d":
        return Images(nn.Conv1d(D, D, 1, bias=bias))
    if kind == "layernorm":
        return nn.LayerNorm(D)
    if kind == "batchnorm":
        return nn.BatchNorm1d(D)
    if kind == "scale":
        return Scale()
    if kind == "prelu":
        return nn.PReLU(D)
    if kind == "mixed":
        return Mixed(bias)
    if kind == "deep":
        return nn.Sequential(nn.Sequential(nn.Linear(D, 3, bias=bias)), nn.Linear(3, D))
    return Pair()


class Net(nn.Module):
    def __init__(self, stages):
        super().__init__()
        self.stages = nn.ModuleDict(
            {f"stage{i}q": make_stage(k, b) for i, (k, b) in enumerate(stages)}
        )
        self.own = nn.Parameter(torch.ones(D))

    def forward(self, x, used):
        h = x * self.own
        for name, stage in self.stages.items():
            for _ in range(used[name]):
                h = h + 0.7 * torch.tanh(stage(h))
        return h


def cases(rng, tier):
    n = 700 if tier == "quick" else 20000
    out = []
    for _ in range(n):
        stages = [[rng.choice(STAGES), rng.random() < 0.7] for _ in range(rng.randint(3, 9))]
        steps = rng.randint(2, 6)
        out.append(
            {
                "seed": rng.randrange(10**6),
                "D": rng.choice([4] * 12 + [1, 2, 11, 70]),
                "stages": stages,
                "select": rng.choice(["default", "default", "list", "groups", "iterator"]),
                "freeze": rng.choice([0.0, 0.2, 0.5]),
                "warn": rng.random() < 0.8,
                "hp": progs.rand_hp(rng, T=rng.choice([1, 1, 2]), loss_average="batch"),
                "use": rng.choice([0.5, 0.8, 1.0]),
                "none": rng.random() < 0.7,
                "steps": steps,
                "refreeze": [rng.random() < 0.3 for _ in range(steps)],
            }
        )
    out.append({"seed": 0, "probe": True})
    return out


def supported_layers(model):
    return {
        n: m
        for n, m in model.named_modules()
        if isinstance(m, (nn.Linear, nn.Conv2d)) and not list(m.children())
    }


def run(case, rec):
    from singd.optim.optimizer import SINGD

    global D
    D = case.get("D", 4)
    if case.get("probe"):
        return probe()
    rec.mark(f"dimension {D}")
    gen = torch.Generator().manual_seed(case["seed"])

    def coin(p):
        return torch.rand((), generator=gen).item() < p

    model = Net(case["stages"])
    layers = supported_layers(model)
    owner = {id(p): n for n, l in layers.items() for p in l.parameters()}
    for p in model.parameters():
        if coin(case["freeze"]):
            p.requires_grad_(False)
    before = state.flatten(dict(model.state_dict()))
    params, requested = None, set()
    everything = list(model.parameters())
    if case["select"] == "default":
        requested = {id(p) for p in everything if p.requires_grad and id(p) in owner}
    else:
        chosen = [p for p in everything if coin(0.6)] or everything[:1]
        requested = {id(p) for p in chosen}
        params = chosen
        if case["select"] == "iterator":
            params = iter(chosen)
        if case["select"] == "groups":
            num, groups = 1 + int(coin(0.5)) + int(coin(0.5)), {}
            for p in chosen:
                key = owner.get(id(p), str(id(p)))
                groups.setdefault(sum(map(ord, key)) % num, []).append(p)
            params = [{"params": g, "lr": 0.05 + 0.02 * k} for k, g in groups.items()]
    kw = progs.to_kwargs(case["hp"])
    kw["lr"] = max(kw["lr"], 0.02)
    if case["select"] == "default" and not requested:
        return
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        opt = SINGD(model, params=params, warn_unsupported=case["warn"], **kw)
    if state.diff(before, state.flatten(dict(model.state_dict()))):
        raise Violation("constructing the optimizer changed the model", key="ctor")
    judge_warnings(case, model, owner, [str(w.message) for w in caught], rec)
    active = 0
    for t in range(case["steps"]):
        active += one_step(case, model, opt, layers, requested, owner, coin, gen, t, rec)
    rec.nontrivial = active >= 2


def judge_warnings(case, model, owner, messages, rec):
    messages = [m for m in messages if "kfac" not in m.lower() and "naive" not in m]
    if case["select"] != "default" or not case["warn"]:
        rec.count("warnings_judged")
        if messages:
            raise Violation(f"unexpected warning {messages[0][:100]}", key="warning")
        return
    for name, mod in model.named_modules():
        own = [p for p in mod.parameters(recurse=False)]
        if not any(p.requires_grad and id(p) not in owner for p in own):
            continue
        rec.count("warnings_judged")
        if not any(name in m for m in messages) or not messages:
            raise Violation(f"no warning about unsupported layer {name!r}", key="warning")
    if not any(p.requires_grad and id(p) not in owner for p in model.parameters()):
        if messages:
            raise Violation(f"unexpected warning {messages[0][:100]}", key="warning")


def one_step(case, model, opt, layers, requested, owner, coin, gen, t, rec):
    if case["refreeze"][t]:
        for p in model.parameters():
            if coin(0.3):
                p.requires_grad_(not p.requires_grad)
    used = {n: int(coin(case["use"])) * (2 if coin(0.1) else 1) for n in model.stages}
    x = torch.randn(5, D, generator=gen).requires_grad_(True)
    y = model(x, used)
    loss = ((y - torch.randn(y.shape, generator=gen)) ** 2).sum() / 5
    loss.backward()
    names = {id(p): n for n, p in model.named_parameters()}
    grads = {
        id(p): None if p.grad is None else p.grad.clone() for p in model.parameters()
    }
    if not all(g is None or g.abs().max() < 1e3 for g in grads.values()):
        return 0
    sd = state.flatten(dict(model.state_dict()))
    factors = {
        n: state.flatten({"K": opt.Ks[n], "C": opt.Cs[n]}) for n in layers if n in opt.Ks
    }
    old_params = {id(p): p.detach().clone() for p in model.parameters()}
    opt.step()
    after = state.flatten(dict(model.state_dict()))
    changed = set(state.diff(sd, after))
    must = kept = 0
    for p in model.parameters():
        path, i = "/" + names[id(p)], id(p)
        g = grads[i]
        allowed = i in requested and i in owner and g is not None
        if path in changed and not allowed:
            why = (
                "unsupported" if i not in owner
                else "not requested" if i not in requested
                else "without gradient"
            )
            raise Violation(f"step {t}: parameter {path} ({why}) changed", key="changed")
        if not allowed:
            kept += 1
            rec.count("must_not_change")
            rec.mark("keep:" + ("unsupported" if i not in owner else "supported"))
        elif path not in changed and expected_change(
            opt, layers, owner[i], p, grads, old_params[i]
        ):
            raise Violation(f"step {t}: parameter {path} was not trained", key="untrained")
        else:
            must += 1
            rec.count("must_change")
    buffers = changed - {"/" + n for n in names.values()}
    if buffers:
        raise Violation(f"step {t}: buffers {buffers} changed", key="buffers")
    for n, old in factors.items():
        stage = n.split(".")[1] if "stages" in n else None
        if stage is not None and not used[stage]:
            rec.count("unused_layers")
            new = state.flatten({"K": opt.Ks[n], "C": opt.Cs[n]})
            if state.diff(old, new):
                raise Violation(
                    f"step {t}: factors of unused layer {n} changed", key="factors"
                )
    opt.zero_grad(set_to_none=case["none"])
    return int(must > 0 and kept > 0)


def expected_change(opt, layers, name, p, grads, old):
    """Whether the natural gradient is too large to vanish by rounding."""
    if grads[id(p)].abs().max() <= 1e-2:
        return False
    layer = layers[name]
    weight, bias = layer.weight, layer.bias
    K, C = opt.Ks[name].to_dense().double(), opt.Cs[name].to_dense().double()
    g = grads[id(weight)]
    g = torch.zeros_like(weight) if g is None else g
    mat = g.flatten(1).double()
    if K.shape[0] == mat.shape[1] + 1:
        gb = None if bias is None else grads[id(bias)]
        gb = torch.zeros(mat.shape[0]) if gb is None else gb
        mat = torch.cat([mat, gb.double()[:, None]], 1)
    if K.shape[0] != mat.shape[1] or C.shape[0] != mat.shape[0]:
        return False
    update = C @ C.T @ mat @ K @ K.T
    part = update[:, -1] if p is bias else update[:, : weight.flatten(1).shape[1]]
    lr = min(group["lr"] for group in opt.param_groups)
    return bool(lr * part.abs().max() > 1e-4 * max(old.abs().max().item(), 1e-3))


def probe():
    """Parameters that are added after construction."""
    from singd.optim.optimizer import SINGD

    model = nn.Sequential(nn.Linear(D, D), nn.Linear(D, D))
    opt = SINGD(model, params=list(model[0].parameters()), lr=0.1)
    opt.add_param_group({"params": list(model[1].parameters())})
    old = model[1].weight.detach().clone()
    (model(torch.ones(3, D)) ** 2).sum().backward()
    opt.step()
    if torch.equal(old, model[1].weight):
        raise Violation("a group added later is not trained", key="add_param_group")
