"""Equivalent models and structures train identically."""

import copy

import torch
import torch.nn.functional as F
from torch import nn

from vlib import engine, progs, structs, traj
from vlib.core import Violation

from checks.c25 import Registered

ID = "C29"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime differential monitor: parameters and factors of two equivalent training runs "
    "of the real optimizer compared after every step"
)
RULE = (
    "A random layer geometry, settings and history for one of the equivalences: "
    "convolutions covering their input, convolutions of size one, several weight-sharing "
    "axes, permuted positions, structures that coincide (shipped and registered). "
    "Non-trivial: two steps with changing pre-conditioners were compared."
)
ASSUMPTIONS = [
    "float64 for dense and diagonal factors, else float32 with a tolerance of 0.3 percent",
    "trajectories are judged until they diverge",
]
MIN = {"snapshots_compared": 1500, "tensors_compared": 8000}
MODES = ["cover", "one", "axes", "shuffle", "coincide", "coincide"]


def coinciding(rng, dim):
    """Two structures that coincide in dimension ``dim`` (names or descriptors)."""
    inf = None
    dense = [
        "dense",
        {"block": dim},
        {"block": dim + rng.randint(1, 3)},
        {"hier": [dim, rng.randint(0, 3)]},
        {"hier": [dim + 2, 0]},
        {"hier": [0, dim]},
        {"rec": "tr", "max": [dim, inf], "A": "dense", "C": "diagonal"},
        {"rec": "bl", "max": [dim + 1, inf], "A": "dense", "C": "diagonal"},
        {"rec": "tr", "max": [0, inf], "A": "diagonal", "C": "dense"},
        {"rec": "bl", "max": [inf, dim], "A": "diagonal", "C": "dense"},
        {"rec": "tr", "max": [dim, inf], "A": {"hier": [dim, 1]}, "C": "diagonal"},
    ]
    if dim <= 30:
        dense.append("block30diagonal")
    if dim <= 15:
        dense.append("hierarchical15_15")
    diag = [
        "diagonal",
        {"block": 1},
        {"hier": [0, 0]},
        {"rec": "tr", "max": [0, inf], "A": "dense", "C": "diagonal"},
        {"rec": "bl", "max": [inf, 0], "A": "diagonal", "C": "dense"},
        {"rec": "bl", "max": [0, inf], "A": "dense", "C": {"hier": [0, 0]}},
    ]
    k = rng.randint(0, dim)
    tri = [
        {"hier": [k, 0]},
        {"rec": "tr", "max": [k, inf], "A": "dense", "C": "diagonal"},
        {"rec": "tr", "max": [k, inf], "A": {"hier": [k, 1]}, "C": {"block": 1}},
    ]
    low = [
        {"hier": [0, k]},
        {"rec": "bl", "max": [inf, k], "A": "diagonal", "C": "dense"},
        {"rec": "bl", "max": [inf, k], "A": {"block": 1}, "C": {"block": max(k, 1)}},
    ]
    if dim == 1:
        one = dense + diag + ["triltoeplitz", "triutoeplitz", "tril", "triu"]
        one += [{"shipped": s} for s in structs.SHIPPED]
        return rng.sample(one, 2)
    return rng.sample(rng.choice([dense, dense, diag, tri, low]), 2)


def cases(rng, tier):
    n = 2500 if tier == "quick" else 20000
    out = []
    for _ in range(n):
        mode = rng.choice(MODES)
        dtype = rng.choice(["float64", "float64", "float32"])
        if mode == "coincide":
            dtype = "float32" if rng.random() < 0.7 else "float64"
        pool = progs.F64_STRUCTS if dtype == "float64" else progs.STRUCTS
        hp = progs.rand_hp(
            rng, structs=pool, loss_average=rng.choice([None, "batch", "batch+sequence"])
        )
        spec = {"hps": [hp], "dtype": dtype, "steps": rng.randint(3, 6)}
        traj.calm(spec)
        case = {
            "seed": rng.randrange(10**6),
            "mode": mode,
            "hp": hp,
            "dtype": dtype,
            "bias": rng.random() < 0.6,
            "c": rng.randint(1, 3),
            "h": rng.randint(1, 4),
            "w": rng.randint(1, 4),
            "o": rng.choice([1, 2, 3, 5, 7]),
            "n": rng.randint(1, 5),
            "pad": [rng.randint(0, 2), rng.randint(0, 2)],
            "stride": [rng.randint(1, 3), rng.randint(1, 3)],
            "events": [
                rng.choice(["step", "step", "step", "micro", "skip", "reload", "eval"])
                for _ in range(rng.randint(2, 5))
            ]
            + ["step"],
            "scale": rng.choice([1.0, 1.0, 4.0]),
            "share": [rng.randint(1, 3) for _ in range(rng.choice([2, 2, 3]))],
            "d": rng.choice([1, 1, 2, 3, 6, rng.randint(4, 14), rng.randint(15, 34)]),
        }
        if mode == "coincide":
            # the layer's dimensions decide which structures coincide
            dim_K = case["d"] + case["bias"]
            case["pair"] = [coinciding(rng, dim_K), coinciding(rng, case["o"])]
            names = {n for p in case["pair"] for n in map(str, p)}
            if dtype == "float64" and not names <= {"dense", "diagonal"}:
                case["dtype"] = "float32"
            hp["structures"] = ["dense", "dense"]
        out.append(case)
    return out


class Wrap(nn.Module):
    """A layer with reshaped inputs and outputs."""

    def __init__(self, layer, pre, post):
        super().__init__()
        self.layer, self.pre, self.post = layer, pre, post

    def forward(self, x):
        return self.post(self.layer(self.pre(x)))


class Side:
    """One of the two equivalent runs."""

    def __init__(self, case, layer, pre, post, structures=None):
        from singd.optim.optimizer import SINGD

        self.dtype = getattr(torch, case["dtype"])
        self.layer = layer.to(self.dtype)
        self.model = nn.Sequential(nn.Identity(), Wrap(self.layer, pre, post), nn.Tanh())
        self.hp = copy.deepcopy(case["hp"])
        self.hp["lr_cov"] = progs.lcov_fn(self.hp["lr_cov"])
        self.hp["structures"] = tuple(structures or self.hp["structures"])
        self.scale = case["scale"]
        self.opt = SINGD(self.model, init_grad_scale=self.scale, **self.hp)
        self.name = "1.layer"

    def snap(self):
        s = {"weight": self.layer.weight.detach().flatten(1).clone()}
        if self.layer.bias is not None:
            s["bias"] = self.layer.bias.detach().clone()
        s["K"] = progs.dense(self.opt.Ks[self.name])
        s["C"] = progs.dense(self.opt.Cs[self.name])
        return s


def build(case):
    """Both sides and the shape of their common input."""
    torch.manual_seed(case["seed"])
    mode, c, h, w, o, b = (case[k] for k in ("mode", "c", "h", "w", "o", "bias"))
    same = nn.Identity()
    if mode == "cover":
        ph, pw = case["pad"]
        conv = nn.Conv2d(c, o, (h + 2 * ph, w + 2 * pw), padding=(ph, pw), bias=b)
        lin = nn.Linear(conv.weight[0].numel(), o, bias=b)
        shape = [c, h, w]
        sides = [
            (conv, same, lambda y: y.flatten(1)),
            (lin, lambda x: F.pad(x, (pw, pw, ph, ph)).flatten(1), same),
        ]
    elif mode == "one":
        sh, sw = case["stride"]
        conv = nn.Conv2d(c, o, 1, stride=(sh, sw), bias=b)
        lin = nn.Linear(c, o, bias=b)
        shape = [c, h, w]
        sides = [
            (conv, same, same),
            (
                lin,
                lambda x: x[:, :, ::sh, ::sw].movedim(1, -1),
                lambda y: y.movedim(-1, 1),
            ),
        ]
    else:
        lin = [nn.Linear(case["d"], o, bias=b) for _ in range(2)]
        shape = [*case["share"], case["d"]]
        if mode == "axes":
            sides = [
                (lin[0], same, same),
                (
                    lin[1],
                    lambda x: x.flatten(1, -2),
                    lambda y: y.reshape(y.shape[0], *case["share"], o),
                ),
            ]
        elif mode == "shuffle":
            num = 1
            for s in case["share"]:
                num *= s
            p = torch.randperm(num)
            inv = p.argsort()
            sides = [
                (lin[0], same, same),
                (
                    lin[1],
                    lambda x: x.flatten(1, -2)[:, p],
                    lambda y: y[:, inv].reshape(y.shape[0], *case["share"], o),
                ),
            ]
        else:
            sides = [(lin[0], same, same), (lin[1], same, same)]
    with torch.no_grad():
        first, second = sides[0][0], sides[1][0]
        second.weight.copy_(first.weight.reshape_as(second.weight))
        if b:
            second.bias.copy_(first.bias)
    return sides, shape


def run(case, rec):
    sides, shape = build(case)
    names, classes = [None, None], {}
    if case["mode"] == "coincide":
        names = [[], []]
        for f, pair in enumerate(case["pair"]):
            for k, desc in enumerate(pair):
                name = desc if isinstance(desc, str) else f"reg{f}{k}"
                if name in ("tril", "triu"):
                    name = {"tril": "triltoeplitz", "triu": "triutoeplitz"}[name]
                if not isinstance(desc, str):
                    classes[name] = structs.make_cls(desc)
                names[k].append(name)
        rec.mark(str(case["pair"]))
    rec.mark(f"{case['mode']}:{case['hp']['kfac_approx']}:{case['hp']['structures']}")
    with Registered(classes):
        a, b = (Side(case, *s, structures=n) for s, n in zip(sides, names))
        play(case, a, b, shape, rec)


def play(case, a, b, shape, rec):
    hp, gen = case["hp"], torch.Generator().manual_seed(case["seed"] + 1)
    compared, t = 0, 0
    start = a.snap()
    tol = traj.tolerance(case)
    judge(rec, a, b, tol, "initially")
    for ev in case["events"]:
        x = torch.randn(case["n"], *shape, generator=gen, dtype=torch.float64).to(a.dtype)
        if ev == "eval":
            for s in (a, b):
                with torch.no_grad():
                    s.model(x)
            continue
        if ev == "reload":
            for s in (a, b):
                s.opt.load_state_dict(copy.deepcopy(s.opt.state_dict()))
            continue
        tgt = None
        for s in (a, b):
            y = s.model(x)
            if tgt is None:
                tgt = torch.randn(y.shape, generator=gen, dtype=torch.float64).to(a.dtype)
            loss = 0.5 * ((y - tgt) ** 2).sum()
            if hp["loss_average"] is not None:
                loss = loss / len(y)
            if hp["loss_average"] == "batch+sequence":
                loss = loss * len(y) * case["o"] / y.numel()
            (loss * case["scale"]).backward()
        if ev == "micro":
            continue
        for s in (a, b):
            if ev == "skip":
                engine.emulate_scaler(s.opt, case["scale"], True)
            elif case["scale"] != 1.0:
                engine.emulate_scaler(s.opt, case["scale"], False)
            else:
                s.opt.step()
            s.opt.zero_grad()
        if not judge(rec, a, b, tol, f"step {t}"):
            break
        t += 1
        compared += 1
    moved = any(not torch.equal(start[k], v) for k, v in a.snap().items() if k in "KC")
    rec.nontrivial = compared >= 2 and moved


def judge(rec, a, b, tol, what):
    sa, sb = a.snap(), b.snap()
    return traj.judge(rec, sb, sa, tol, what, "equivalent")


__all__ = ["Violation"]
