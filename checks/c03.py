"""Curvature statistics of every layer geometry, recovered from observable state.

With dense float64 factors, ``kfac_like=True, damping=0, T=1`` the first step maps
``K = I`` to ``I - lr_cov / 2 (A - I)`` and ``C = I`` to ``I - lr_cov / 2 (B - I)``. The
monitor inverts this relation to observe ``A`` and ``B`` as used by the optimizer, and
compares them with statistics computed from clean inputs and autograd gradients.
"""

import copy
import math

import torch
from torch import nn

from vlib import progs, ref
from vlib.core import Inconclusive, Violation

ID = "C03"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitor recovering the statistics from observable factors, compared with an independent computation"
)
RULE = (
    "One random layer (linear with 0-4 weight-sharing dimensions; conv with random "
    "kernel, stride, padding incl. strings, padding mode, dilation, groups; with or "
    "without bias) on inputs of random memory layout, either KFAC approximation, every "
    "loss averaging, 1-3 backward passes. Non-trivial: input and gradient factor were "
    "recovered and the gradient factor is non-zero."
)
ASSUMPTIONS = [
    "the statistics are recovered from the first pre-conditioner update in float64",
    "`padding='same'` with unequal padding is documented as unsupported for expand",
]
MIN = {"input_factors": 300, "grad_factors": 300}


def _conv(rng):
    for _ in range(200):
        g = rng.choice([1, 1, 1, 2, 3, 4])
        c_in = g * rng.randint(1, 3)
        c_out = g * rng.randint(1, 3)
        h, w = rng.randint(1, 9), rng.randint(1, 9)
        k = [rng.randint(1, 5), rng.randint(1, 5)]
        d = [rng.randint(1, 3), rng.randint(1, 3)]
        s = [rng.randint(1, 4), rng.randint(1, 4)]
        # symmetric geometries, each property tied independently of the others
        if rng.random() < 0.4:
            k[1] = k[0]
        if rng.random() < 0.4:
            d[1] = d[0]
        if rng.random() < 0.4:
            s[1] = s[0]
        if rng.random() < 0.4:
            w = h
        mode = rng.choice(["zeros", "zeros", "zeros", "reflect", "replicate", "circular"])
        p = rng.choice(["valid", "same", None, None, None])
        approx = rng.choice(["expand", "reduce"])
        if p == "same":
            s = [1, 1]
            tot = [dd * (kk - 1) for dd, kk in zip(d, k)]
            if any(t % 2 for t in tot) and (approx == "expand" and mode == "zeros"):
                continue
            pads = [t - t // 2 for t in tot]
            tots = tot
        else:
            pads = [0, 0] if p == "valid" else [rng.randint(0, 3), rng.randint(0, 3)]
            if rng.random() < 0.4:
                pads = [pads[0]] * 2
            p = p or pads
            tots = [2 * q for q in pads]
        if mode in ("reflect", "circular") and (pads[0] >= h or pads[1] >= w):
            continue
        oh = (h + tots[0] - d[0] * (k[0] - 1) - 1) // s[0] + 1
        ow = (w + tots[1] - d[1] * (k[1] - 1) - 1) // s[1] + 1
        if oh < 1 or ow < 1:
            continue
        if (c_in // g) * k[0] * k[1] > 80:
            continue
        return {
            "type": "conv",
            "c_in": c_in,
            "c_out": c_out,
            "k": k,
            "s": s,
            "p": p,
            "d": d,
            "g": g,
            "mode": mode,
            "bias": rng.random() < 0.5,
            "shape": [c_in, h, w],
            "approx": approx,
        }
    raise RuntimeError


def _big(rng):
    """Realistic sizes: wide layers, many positions, large images and kernels."""
    approx = rng.choice(["expand", "reduce"])
    bias = rng.random() < 0.5
    if rng.random() < 0.5:
        i = rng.choice([3, 64, 200, 500])
        shared = rng.choice([[], [50], [7, 9], [200], [2, 3, 4, 5]])
        if i > 100:
            shared = rng.choice([[], [9]])
        return {
            "type": "linear", "i": i, "o": rng.choice([2, 150, 400]), "bias": bias,
            "shape": shared + [i], "approx": approx,
        }
    g = rng.choice([1, 1, 4, 16])
    c_in = g * rng.choice([1, 2, 4])
    k = rng.choice([[3, 3], [7, 7], [1, 5], [11, 2]])
    h, w = rng.choice([[16, 16], [28, 20], [11, 40]])
    return {
        "type": "conv", "c_in": c_in, "c_out": g * rng.choice([1, 6]), "k": k,
        "d": rng.choice([[1, 1], [1, 2]]), "s": rng.choice([[1, 1], [2, 2], [2, 1], [3, 4]]),
        "p": rng.choice(["valid", [1, 1], [3, 2]]), "g": g, "mode": "zeros", "bias": bias,
        "shape": [c_in, h, w], "approx": approx,
    }


def cases(rng, tier):
    n = 12000 if tier == "quick" else 60000
    out = []
    for k in range(n):
        if rng.random() < 0.4:
            i = rng.randint(1, 12)
            layer = {
                "type": "linear",
                "i": i,
                "o": rng.randint(1, 8),
                "bias": rng.random() < 0.5,
                "shape": [rng.randint(1, 4) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 4]))]
                + [i],
                "approx": rng.choice(["expand", "reduce"]),
            }
        else:
            layer = _conv(rng)
        big = rng.random() < 0.02
        if big:
            layer = _big(rng)
        out.append(
            {
                "seed": rng.randrange(10**6),
                "layer": layer,
                "n": rng.choice([2, 17, 64, 257])
                if big
                else rng.choice([1, 1, 2, 3, 5, 8] * 10 + [33, 70, 130, 260, 1030]),
                "resize": rng.random() < 0.3,  # other input sizes in later passes
                "loss_average": rng.choice([None, "batch", "batch+sequence"]),
                "layout": rng.choice(
                    ["plain", "transposed", "strided", "expanded", "channels_last"]
                ),
                "mode": rng.choice(["train", "eval"]),
                "subclass": rng.random() < 0.15,
                "passes": rng.choice([1, 1, 1, 2, 3]),
                "xkind": rng.choice(["normal", "positive", "offset"]),
                "lr_cov": rng.choice([0.1, 0.5, 1.0]),
                "scale": rng.choice([1.0, 0.01, 30.0]),
            }
        )
    return out


def _layout(x, kind):
    """Same values, different memory layout."""
    if kind == "transposed" and x.ndim >= 2:
        return x.transpose(0, -1).contiguous().transpose(0, -1)
    if kind == "strided":
        big = torch.empty(x.shape + (2,), dtype=x.dtype).fill_(7.0)
        big[..., 0] = x
        return big[..., 0]
    if kind == "expanded":
        return x[:1].expand_as(x)
    if kind == "channels_last" and x.ndim == 4:
        return x.contiguous(memory_format=torch.channels_last)
    return x


class MyLinear(nn.Linear):
    pass


class MyConv(nn.Conv2d):
    pass


def run(case, rec):
    from singd.optim.optimizer import SINGD

    l = case["layer"]
    arch = {"layers": [l], "nested": False}
    model, (layer,) = progs.build_model(arch, case["seed"], dtype=torch.float64)
    clean = copy.deepcopy(layer)
    if case["subclass"]:
        layer.__class__ = MyLinear if l["type"] == "linear" else MyConv
    beta = case["lr_cov"]
    opt = SINGD(
        model,
        kfac_like=True,
        alpha1=0.0,
        damping=0.0,
        T=1,
        lr=0.01,
        lr_cov=beta,
        loss_average=case["loss_average"],
        kfac_approx=l["approx"],
    )
    getattr(model, case["mode"])()
    gen = torch.Generator().manual_seed(case["seed"])
    A = B = 0.0
    for i in range(case["passes"]):
        n, shape = case["n"], list(l["shape"])
        if case["resize"] and i:
            n += i
            if l["type"] == "conv":
                shape = [shape[0], shape[1] + i, shape[2] + 2 * i]
            elif len(shape) > 1:
                shape[0] += i
        x = torch.randn([n] + shape, generator=gen).double()
        if case["xkind"] == "positive":
            x = x.abs()
        elif case["xkind"] == "offset":
            x = x + 2.0
        x = _layout(x, case["layout"])
        keep = x.clone()
        y = model(x)
        tgt = torch.randn(y.shape, generator=gen).double()
        tgt = tgt / math.sqrt(tgt[0].numel())
        (((0.3 * y**2 + y) * tgt).sum() * case["scale"]).backward()
        if not torch.equal(keep, x):
            raise Violation("the layer's input was modified", key="input_modified")
        yc = clean(keep)
        loss = ((0.3 * yc**2 + yc) * tgt).sum() * case["scale"]
        (g,) = torch.autograd.grad(loss, yc)
        # validate the reference's rows against the layer itself
        if l.get("g", 1) == 1:
            rows = ref.input_rows(clean, keep, "expand")
            W = clean.weight.flatten(1)
            if clean.bias is not None:
                W = torch.cat([W, clean.bias[:, None]], 1)
            want = yc.movedim(1, -1) if l["type"] == "conv" else yc
            if progs.relerr(rows @ W.T, want.reshape(-1, W.shape[0])) > 1e-9:
                raise Inconclusive("reference rows are wrong")
        A = A + ref.input_cov(clean, keep, l["approx"])
        B = B + ref.grad_cov(clean, g, l["approx"], case["loss_average"])
    opt.step()
    name = next(iter(opt.Ks))
    eyeK, eyeC = torch.eye(len(A)).double(), torch.eye(len(B)).double()
    gotA = eyeK + 2 / beta * (eyeK - progs.dense(opt.Ks[name]))
    gotB = eyeC + 2 / beta * (eyeC - progs.dense(opt.Cs[name]))
    kind = l["type"] if l["type"] == "conv" else f"linear{len(l['shape'])-1}"
    for what, got, want in [("input", gotA, A), ("grad", gotB, B)]:
        rec.count(f"{what}_factors")
        tol = 1e-8 * want.abs().max().item() + 1e-10
        if got.shape != want.shape or not (got - want).abs().max().item() <= tol:
            raise Violation(
                f"{what} factor of {kind} ({l['approx']}, {case['loss_average']}) differs "
                f"from the layer's statistics",
                key=f"{what}_factor",
            )
    rec.mark(f"{kind}/{l['approx']}/{case['loss_average']}/{case['layout']}")
    if kind == "conv":
        rec.mark(f"pad={l['p']},mode={l['mode']}")
    rec.nontrivial = bool(B.abs().max() > 0)
