"""Random training programs (JSON-able specs) and how to execute their parts."""

import copy
import math
import random

import torch
import torch.nn.functional as F
from torch import nn

STRUCTS = [
    "dense",
    "diagonal",
    "block30diagonal",
    "hierarchical15_15",
    "triltoeplitz",
    "triutoeplitz",
]
F64_STRUCTS = ["dense", "diagonal"]

SMOOTH = ["tanh", "gelu", "softplus", "sigmoid", "silu", "identity"]
KINKY = ["relu", "leaky_relu"]

ACTS = {
    "tanh": lambda inplace: nn.Tanh(),
    "gelu": lambda inplace: nn.GELU(),
    "softplus": lambda inplace: nn.Softplus(),
    "sigmoid": lambda inplace: nn.Sigmoid(),
    "silu": lambda inplace: nn.SiLU(inplace=inplace),
    "identity": lambda inplace: nn.Identity(),
    "relu": lambda inplace: nn.ReLU(inplace=inplace),
    "leaky_relu": lambda inplace: nn.LeakyReLU(0.1, inplace=inplace),
}


# ----------------------------------------------------------------------------------
# specs
# ----------------------------------------------------------------------------------
def lcov_fn(spec):
    """Turn a JSON-able ``lr_cov`` specification into what is passed to SINGD."""
    if not isinstance(spec, dict):
        return spec
    kind, a, b = spec["kind"], spec["a"], spec["b"]
    if kind == "ramp":
        return lambda step: a * min(1.0, (step + 1) / b)
    if kind == "decay":
        return lambda step: a / (1.0 + b * step)
    if kind == "table":
        return lambda step: a[step % len(a)]
    raise ValueError(kind)


def logu(rng, lo, hi):
    return float(f"{math.exp(rng.uniform(math.log(lo), math.log(hi))):.4g}")


def rand_hp(rng, structs=STRUCTS, kfac_like=None, loss_average=None, T=None, **fix):
    kl = rng.random() < 0.25 if kfac_like is None else kfac_like
    hp = {
        "lr": logu(rng, 3e-3, 0.2),
        "momentum": rng.choice([0.0, 0.5, 0.9, round(rng.uniform(0.1, 0.95), 3)]),
        "damping": rng.choice([0.0, logu(rng, 1e-4, 1.0), logu(rng, 1e-2, 1.0)]),
        "alpha1": 0.0
        if kl
        else rng.choice([0.0, 0.5, 0.9, round(rng.uniform(0.1, 0.95), 3)]),
        "weight_decay": rng.choice([0.0, logu(rng, 1e-3, 0.5), logu(rng, 1e-2, 0.5)]),
        "T": rng.choice([1, 1, 2, 3, 4]) if T is None else T,
        "lr_cov": rng.choice(
            [
                logu(rng, 3e-3, 0.3),
                logu(rng, 3e-2, 0.3),
                {"kind": "ramp", "a": logu(rng, 0.02, 0.3), "b": rng.randint(2, 6)},
                {"kind": "decay", "a": logu(rng, 0.02, 0.3), "b": logu(rng, 0.1, 1.0)},
                {
                    "kind": "table",
                    "a": [logu(rng, 0.01, 0.3) for _ in range(rng.randint(2, 7))],
                    "b": 0,
                },
            ]
        ),
        "structures": [rng.choice(structs), rng.choice(structs)],
        "kfac_approx": rng.choice(["expand", "reduce"]),
        "kfac_like": kl,
        "normalize_lr_cov": rng.random() < 0.3,
        "loss_average": loss_average,
    }
    hp.update(fix)
    return hp


def _conv_layer(rng, c_in, h, w, groups_ok=True, padding_modes=True):
    for _ in range(50):
        g = rng.choice([1, 1, 1, 2, 3]) if groups_ok else 1
        if c_in % g:
            continue
        c_out = g * rng.randint(1, 3)
        k = [rng.randint(1, 3), rng.randint(1, 3)]
        d = [rng.choice([1, 1, 2]), rng.choice([1, 1, 2])]
        s = [rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])]
        mode = "zeros"
        if padding_modes and rng.random() < 0.25:
            mode = rng.choice(["reflect", "replicate", "circular"])
        r = rng.random()
        if r < 0.15:
            p = "valid"
        elif r < 0.35 and all((kk - 1) * dd % 2 == 0 for kk, dd in zip(k, d)):
            p, s = "same", [1, 1]
        else:
            p = [rng.randint(0, 2), rng.randint(0, 2)]
        pads = (
            [0, 0]
            if p == "valid"
            else [(kk - 1) * dd // 2 for kk, dd in zip(k, d)]
            if p == "same"
            else p
        )
        if mode in ("reflect", "circular") and (pads[0] >= h or pads[1] >= w):
            continue
        oh = (h + 2 * pads[0] - d[0] * (k[0] - 1) - 1) // s[0] + 1
        ow = (w + 2 * pads[1] - d[1] * (k[1] - 1) - 1) // s[1] + 1
        if oh < 1 or ow < 1:
            continue
        return (
            {
                "type": "conv",
                "c_in": c_in,
                "c_out": c_out,
                "k": k,
                "s": s,
                "p": p,
                "d": d,
                "g": g,
                "mode": mode,
                "bias": rng.random() < 0.6,
            },
            c_out,
            oh,
            ow,
        )
    raise RuntimeError("no conv geometry")


def rand_arch(rng, acts=SMOOTH, kind=None, max_width=9, unsupported=True, wide=False):
    """Random architecture spec: list of layers, input shape, output kind."""
    kind = kind or rng.choice(["mlp", "mlp", "seq", "seq", "conv", "conv", "fcn"])
    layers = []

    def act():
        layers.append(
            {"type": "act", "act": rng.choice(acts), "inplace": rng.random() < 0.4}
        )

    def linear(i, o):
        layers.append({"type": "linear", "i": i, "o": o, "bias": rng.random() < 0.7})

    def width():
        return rng.randint(1, max_width)

    depth = rng.randint(1, 3)
    if kind in ("mlp", "seq"):
        n_shared = 0 if kind == "mlp" else rng.choice([1, 1, 2])
        shared = [rng.randint(1, 4) for _ in range(n_shared)]
        if wide:
            d = rng.choice([29, 30, 31, 60, rng.randint(25, 75), rng.randint(25, 75)])
        else:
            d = width()
        shape = shared + [d]
        for j in range(depth):
            o = rng.choice([30, 31, rng.randint(25, 70)]) if (wide and rng.random() < 0.6) else width()
            linear(d, o)
            d = o
            if j < depth - 1:
                act()
                if unsupported and rng.random() < 0.25:
                    layers.append({"type": "layernorm", "d": d})
        if kind == "seq" and rng.random() < 0.3:
            layers.append({"type": "seqmean"})
            linear(d, width())
    else:
        c, h, w = rng.randint(1, 4), rng.randint(3, 7), rng.randint(3, 7)
        if wide:
            c = rng.randint(4, 9)
        shape = [c, h, w]
        for j in range(rng.randint(1, 2)):
            layer, c, h, w = _conv_layer(rng, c, h, w)
            layers.append(layer)
            act()
            if unsupported and rng.random() < 0.2 and c * h * w > 1:
                layers.append({"type": "groupnorm", "c": c})
        if kind == "conv":
            layers.append({"type": "flatten"})
            linear(c * h * w, width())
        else:
            layers.pop()
            if layers[-1]["type"] != "conv":
                layers.pop()
    return {
        "kind": kind,
        "shape": shape,
        "layers": layers,
        "nested": rng.random() < 0.3,
    }


def supported_idx(arch):
    return [
        i for i, l in enumerate(arch["layers"]) if l["type"] in ("linear", "conv")
    ]


class _SeqMean(nn.Module):
    def forward(self, x):
        return x.flatten(1, -2).mean(1)


class Wrap(nn.Module):
    """Container that owns its layers in a non-flat namespace."""

    def __init__(self, mods):
        super().__init__()
        half = (len(mods) + 1) // 2
        self.first = nn.Sequential(*mods[:half])
        self.second = nn.ModuleDict({"inner": nn.Sequential(*mods[half:])})

    def forward(self, x):
        return self.second["inner"](self.first(x))


class DerivedLinear(nn.Linear):
    """Layers of derived classes are supported as well."""


class DerivedConv2d(nn.Conv2d):
    """See above."""


def build_model(arch, seed, dtype=torch.float32, inplace=True):
    """Build the model. Returns the model and the list of layer modules."""
    derived = seed % 5 == 0
    linear_cls = DerivedLinear if derived else nn.Linear
    conv_cls = DerivedConv2d if derived else nn.Conv2d
    state = torch.random.get_rng_state()
    torch.manual_seed(seed)
    mods = []
    for l in arch["layers"]:
        t = l["type"]
        if t == "linear":
            m = linear_cls(l["i"], l["o"], bias=l["bias"])
        elif t == "conv":
            p = l["p"] if isinstance(l["p"], str) else tuple(l["p"])
            m = conv_cls(
                l["c_in"],
                l["c_out"],
                tuple(l["k"]),
                stride=tuple(l["s"]),
                padding=p,
                dilation=tuple(l["d"]),
                groups=l["g"],
                bias=l["bias"],
                padding_mode=l["mode"],
            )
        elif t == "act":
            m = ACTS[l["act"]](inplace and l.get("inplace", False))
        elif t == "flatten":
            m = nn.Flatten()
        elif t == "seqmean":
            m = _SeqMean()
        elif t == "layernorm":
            # the normalization of few features amplifies rounding
            m = nn.LayerNorm(l["d"], eps=1e-5 if l["d"] > 3 else 0.1)
        elif t == "groupnorm":
            m = nn.GroupNorm(1, l["c"])
        elif t == "dropout":
            m = nn.Dropout(l["p"])
        else:
            raise ValueError(t)
        mods.append(m)
    model = Wrap(mods) if arch.get("nested") else nn.Sequential(*mods)
    gen = torch.Generator().manual_seed(seed)
    with torch.no_grad():
        for p in model.parameters():
            if p.ndim == 1:
                p.copy_(p + 0.3 * torch.randn(p.shape, generator=gen))
    torch.random.set_rng_state(state)
    for i, m in enumerate(mods):  # none of the modules behaves differently in this mode
        if arch.get("eval", 0) >> (i % 16) & 1:
            m.eval()
    return model.to(dtype), mods


def batch(spec, t, micro=0, n=None, dtype=torch.float64):
    """Deterministic data of step ``t``."""
    n = n or spec["n"]
    gen = torch.Generator().manual_seed((spec["seed"] * 1009 + t * 31 + micro) % 2**31)
    x = torch.randn([n] + list(spec["arch"]["shape"]), generator=gen).double()
    x = x * spec.get("xscale", 1.0) + spec.get("xshift", 0.0)
    return relayout(x.to(dtype), spec.get("layout")), gen.initial_seed()


def relayout(x, kind):
    """The same values with another memory layout."""
    if kind == "channels_last" and x.ndim == 4:
        return x.contiguous(memory_format=torch.channels_last)
    if kind == "transposed":
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if kind == "strided":
        return torch.stack([x, x + 1], dim=-1)[..., 0]
    return x


def loss_fn(spec, y, tseed, scale=1.0, n_total=None):
    """Loss with the reduction the optimizer is told about.

    ``loss_average=None``: sum over everything; ``batch``: mean over samples;
    ``batch+sequence``: mean over samples and all weight-sharing dimensions of the
    model's output.
    """
    gen = torch.Generator().manual_seed(tseed + 7)
    avg = spec["loss_average"]
    chan_last = spec["arch"]["kind"] != "fcn"
    if spec["loss"] == "mse":
        tgt = torch.randn(y.shape, generator=gen).double().to(y.dtype)
        total = 0.5 * ((y - tgt) ** 2).sum()
    elif spec["loss"] == "ce":
        z = y if chan_last else y.movedim(1, -1)
        z = z.flatten(0, -2)
        tgt = torch.randint(0, z.shape[-1], (z.shape[0],), generator=gen)
        total = F.cross_entropy(z, tgt, reduction="sum") * 3.0
    else:  # a linear functional: the gradient does not depend on the output
        tgt = torch.randn(y.shape, generator=gen).double().to(y.dtype)
        total = (y * tgt).sum()
    if avg is None:
        div = 1.0
    elif avg == "batch":
        div = y.shape[0] if n_total is None else n_total
    else:
        shared = y.shape[1:-1] if chan_last else y.shape[2:]
        div = (y.shape[0] if n_total is None else n_total) * math.prod(shared)
    return total * (scale / div)


def rand_spec(
    rng,
    dtype="float64",
    structs=None,
    acts=None,
    kind=None,
    groups=None,
    steps=None,
    wide=False,
    loss_average="any",
    unsupported=True,
    **hpfix,
):
    """A complete random training program."""
    structs = structs or (F64_STRUCTS if dtype == "float64" else STRUCTS)
    acts = acts or (SMOOTH + KINKY if dtype == "float64" else SMOOTH)
    arch = rand_arch(rng, acts=acts, kind=kind, wide=wide, unsupported=unsupported)
    la = (
        rng.choice([None, "batch", "batch", "batch+sequence"])
        if loss_average == "any"
        else loss_average
    )
    idx = supported_idx(arch)
    n_groups = groups if groups is not None else rng.choice([1, 1, 2, 3])
    n_groups = max(1, min(n_groups, len(idx)))
    assign = [rng.randrange(n_groups) for _ in idx]
    for g in range(n_groups):
        if g not in assign:
            assign[rng.randrange(len(assign))] = g
    used = sorted(set(assign))
    assign = [used.index(a) for a in assign]
    hps = [
        rand_hp(rng, structs=structs, loss_average=la, **hpfix) for _ in range(len(used))
    ]
    spec = {
        "seed": rng.randrange(10**6),
        "dtype": dtype,
        "arch": arch,
        "n": rng.randint(1, 6),
        "loss": rng.choice(["mse", "ce", "lin"]),
        "loss_average": la,
        "hps": hps,
        "assign": assign,
        "steps": steps or rng.randint(3, 7),
        "xscale": rng.choice([1.0, 1.0, 0.3, 2.0]),
        "xshift": rng.choice([0.0, 0.0, 0.5, -1.0]),
    }
    extra = random.Random(spec["seed"])  # does not disturb the other choices
    spec["layout"] = extra.choice([None, None, None, "channels_last", "transposed", "strided"])
    arch["eval"] = extra.choice([0, 0, 0, 2**16 - 1, extra.getrandbits(16)])
    return spec


STRETCH = ["wide", "wide_conv", "batch", "long", "micros", "extreme"]


def stretch(rng, spec, kind=None):
    """Make a program extreme in one respect (sizes, lengths, or hyper-parameters)."""
    kind = kind or rng.choice(STRETCH)
    spec["stretch"] = kind
    arch, hps = spec["arch"], spec["hps"]
    if kind == "wide":
        dims = rng.choice(
            [
                [rng.randint(1, 6), rng.randint(150, 1100)],
                [rng.randint(150, 600), rng.randint(1, 6)],
                [rng.randint(100, 300), rng.randint(100, 300), 3],
            ]
        )
        arch["kind"], arch["nested"], arch["shape"] = "mlp", False, [dims[0]]
        arch["layers"] = []
        for a, b in zip(dims, dims[1:]):
            arch["layers"] += [
                {"type": "linear", "i": a, "o": b, "bias": rng.random() < 0.7},
                {"type": "act", "act": rng.choice(SMOOTH), "inplace": False},
            ]
        arch["layers"].pop()
    elif kind == "wide_conv":
        g = rng.choice([1, 1, 2, 8])
        c_in, c_out = g * rng.randint(1, 64 // g), g * rng.randint(1, 320 // g)
        k = rng.choice([[1, 1], [3, 3], [2, 1], [5, 5]])
        if c_in // g * k[0] * k[1] > 500:
            k = [1, 2]
        arch["kind"], arch["nested"], arch["shape"] = "fcn", False, [c_in, 6, 7]
        arch["layers"] = [
            {
                "type": "conv", "c_in": c_in, "c_out": c_out, "k": k, "g": g,
                "s": rng.choice([[1, 1], [2, 1], [2, 2]]), "p": rng.choice([[0, 0], [1, 2]]),
                "d": [1, 1], "mode": "zeros", "bias": rng.random() < 0.7,
            }
        ]
    elif kind == "batch":
        spec["n"] = rng.randint(60, 700)
        if arch["kind"] == "seq":
            arch["shape"] = [rng.randint(4, 9)] * (len(arch["shape"]) - 1) + arch["shape"][-1:]
    elif kind == "long":
        spec["steps"] = rng.randint(30, 130)
        for hp in hps:
            hp["lr"], hp["T"] = min(hp["lr"], 0.02), rng.choice([1, 1, 2, 5, 10, 20])
            if not isinstance(hp["lr_cov"], dict):
                hp["lr_cov"] = min(hp["lr_cov"], 0.02)
            hp["normalize_lr_cov"] = rng.random() < 0.6
    elif kind == "marathon":  # far more steps than anybody would log
        spec["steps"] = rng.randint(500, 1300)
        arch["kind"], arch["nested"], arch["shape"] = "mlp", False, [3]
        arch["layers"] = [{"type": "linear", "i": 3, "o": 2, "bias": rng.random() < 0.7}]
        for hp in hps:
            hp["lr"], hp["T"] = 1e-3, rng.choice([1, 2, 7, 30])
            hp["lr_cov"] = {"kind": "ramp", "a": 0.01, "b": 2000}  # changes all the time
            hp["normalize_lr_cov"] = True
            hp["damping"] = logu(rng, 0.01, 1.0)
    elif kind == "micros":
        spec["many"] = rng.randint(4, 14)
    else:
        for hp in hps:
            hp["lr_cov"] = rng.choice([logu(rng, 0.3, 5.0), hp["lr_cov"], 0.0])
            hp["damping"] = rng.choice([logu(rng, 1.0, 300.0), logu(rng, 1e-12, 1e-5), 0.0])
            hp["lr"] = rng.choice([logu(rng, 0.5, 20.0), logu(rng, 1e-7, 1e-3), hp["lr"]])
            hp["weight_decay"] = rng.choice([logu(rng, 1.0, 8.0), logu(rng, 1e-6, 1e-3), 0.0])
            hp["momentum"] = rng.choice([1.0, 1.3, 0.999, 0.01, 0.0])
            if not hp["kfac_like"]:
                hp["alpha1"] = rng.choice([1.0, 1.2, 0.999, 0.01, 0.0])
            hp["T"] = rng.choice([1, 1, 50, 1000])
    idx = supported_idx(arch)
    spec["assign"] = [spec["assign"][j % len(spec["assign"])] for j in range(len(idx))]
    used = sorted(set(spec["assign"]))
    spec["hps"] = [hps[u] for u in used]
    spec["assign"] = [used.index(a) for a in spec["assign"]]
    return spec


def to_kwargs(hp):
    kw = {k: v for k, v in hp.items()}
    kw["structures"] = tuple(kw["structures"])
    kw["lr_cov"] = lcov_fn(kw["lr_cov"])
    if "preconditioner_dtype" in kw and kw["preconditioner_dtype"] is not None:
        kw["preconditioner_dtype"] = tuple(
            None if d is None else getattr(torch, d)
            for d in kw["preconditioner_dtype"]
        )
    return kw


def make_opt(spec, model, mods, style=None, **extra):
    """Attach SINGD to the model as described by the spec."""
    from singd.optim.optimizer import SINGD

    layers = [mods[i] for i in supported_idx(spec["arch"])]
    if len(spec["hps"]) == 1 and style != "groups":
        kw = to_kwargs(spec["hps"][0])
        return SINGD(model, warn_unsupported=False, **{**kw, **extra})
    groups = []
    for g, hp in enumerate(spec["hps"]):
        params = [
            p for l, a in zip(layers, spec["assign"]) if a == g for p in l.parameters()
        ]
        if params:
            groups.append({"params": params, **to_kwargs(hp)})
    return SINGD(model, params=groups, **extra)


def layer_hps(spec):
    return [spec["hps"][a] for a in spec["assign"]]


def params_of(layer):
    return [layer.weight] + ([] if layer.bias is None else [layer.bias])


def dense(mat, dtype=torch.float64):
    """Dense float64 copy of a structured matrix."""
    return mat.to_dense().detach().to(dtype).clone()


def names_of(model, layers):
    """Names of the layers inside the model."""
    lookup = {id(m): n for n, m in model.named_modules()}
    return [lookup[id(l)] for l in layers]


def relerr(a, b, floor=0.0):
    """max|a-b| / max(max|b|, floor)."""
    a, b = a.detach().double(), b.detach().double()
    if a.shape != b.shape:
        return float("inf")
    if a.numel() == 0:
        return 0.0
    if not (torch.isfinite(a).all() and torch.isfinite(b).all()):
        return 0.0 if torch.equal(torch.nan_to_num(a), torch.nan_to_num(b)) else float(
            "inf"
        )
    scale = max(b.abs().max().item(), floor, 1e-300)
    return (a - b).abs().max().item() / scale
