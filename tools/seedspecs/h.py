"""Small reference implementation used by the demonstrations next to it."""

import os

os.environ.setdefault("OMP_NUM_THREADS", "1")
import sys
import warnings
from math import sqrt

import torch
from torch import nn
import torch.nn.functional as F

warnings.simplefilter("ignore")
torch.set_num_threads(1)

from singd.optim.optimizer import SINGD  # noqa: E402


def fail(msg):
    print("FAIL:", msg)
    sys.exit(1)


def check(cond, msg):
    if not cond:
        fail(msg)


def close(a, b, what, rtol=2e-3, atol=1e-5):
    a, b = a.detach().double(), b.detach().double()
    check(a.shape == b.shape, f"{what}: shapes {tuple(a.shape)} {tuple(b.shape)}")
    check(bool(torch.isfinite(a).all()), f"{what}: not finite")
    err = (a - b).abs().max().item() if a.numel() else 0.0
    ref = b.abs().max().item() if b.numel() else 0.0
    check(err <= rtol * ref + atol, f"{what}: max error {err:.3e}, magnitude {ref:.3e}")


def proj(s, M):
    """Structure `s` of the symmetric matrix `M`, as a dense matrix."""
    n = M.shape[0]
    out = torch.zeros_like(M)
    if s == "dense":
        return M.clone()
    if s == "diagonal":
        return torch.diag(torch.diag(M))
    if s == "block30diagonal":
        for i in range(0, n, 30):
            out[i : i + 30, i : i + 30] = M[i : i + 30, i : i + 30]
        return out
    if s == "hierarchical15_15":
        k1 = min(n, 15)
        k2 = min(max(n - 15, 0), 15)
        e = n - k2
        out[:k1, :k1] = M[:k1, :k1]
        out[:k1, k1:] = 2 * M[:k1, k1:]
        for i in range(k1, e):
            out[i, i] = M[i, i]
        out[e:, k1:e] = 2 * M[e:, k1:e]
        out[e:, e:] = M[e:, e:]
        return out
    for d in range(n):
        mean = torch.diagonal(M, d).mean() * (1 if d == 0 else 2)
        if s == "triutoeplitz":
            torch.diagonal(out, d).fill_(mean)
        elif s == "triltoeplitz":
            torch.diagonal(out, -d).fill_(mean)
        else:
            raise ValueError(s)
    return out


def rows_in(m, a, approx):
    a = a.detach().double()
    if isinstance(m, nn.Conv2d):
        n, g = a.shape[0], m.groups
        a = a.reshape(n, g, a.shape[1] // g, *a.shape[2:]).mean(1)
        pad = m.padding
        if isinstance(pad, str):
            pad = (
                (0, 0)
                if pad == "valid"
                else tuple(d * (k - 1) // 2 for d, k in zip(m.dilation, m.kernel_size))
            )
        a = F.unfold(a, m.kernel_size, m.dilation, pad, m.stride).transpose(1, 2)
    else:
        a = a.reshape(a.shape[0], -1, a.shape[-1])
    a = a.flatten(0, 1) if approx == "expand" else a.mean(1)
    if m.bias is not None:
        a = torch.cat([a, a.new_ones(a.shape[0], 1)], 1)
    return a / sqrt(a.shape[0])


def rows_out(m, g, approx, avg):
    g = g.detach().double()
    if isinstance(m, nn.Conv2d):
        g = g.flatten(2).transpose(1, 2)
    else:
        g = g.reshape(g.shape[0], -1, g.shape[-1])
    terms = 1
    if avg is not None:
        terms = g.shape[0] * (g.shape[1] if avg == "batch+sequence" else 1)
    g = g.flatten(0, 1) if approx == "expand" else g.sum(1)
    return g * sqrt(terms)


class Shadow:
    """Follows a training run with an independent float64 implementation."""

    def __init__(self, model, opt):
        self.opt = opt
        self.layers = {}
        for name, m in model.named_modules():
            if isinstance(m, (nn.Linear, nn.Conv2d)) and name in opt.Ks:
                dK = m.weight[0].numel() + (m.bias is not None)
                dC = m.weight.shape[0]
                self.layers[name] = dict(
                    m=m,
                    K=torch.eye(dK).double(),
                    C=torch.eye(dC).double(),
                    mK=torch.zeros(dK, dK).double(),
                    mC=torch.zeros(dC, dC).double(),
                    A=[],
                    G=[],
                    buf=[torch.zeros_like(p).double() for p in m.parameters()],
                )
                m.register_forward_hook(self._hook(name))
        self.t = 0

    def group(self, m):
        for g in self.opt.param_groups:
            if any(p is q for p in m.parameters() for q in g["params"]):
                return g

    def _hook(self, name):
        def fwd(m, inp, out):
            if out.requires_grad and self.t % self.group(m)["T"] == 0:
                a = inp[0].detach().clone()

                def bwd(g):
                    self.layers[name]["A"].append(a)
                    self.layers[name]["G"].append(g.detach().clone())

                out.register_hook(bwd)

        return fwd

    def expect(self, scale=1.0):
        """Expected values after the coming `opt.step()`. Call before it."""
        out = {}
        for name, L in self.layers.items():
            m, g = L["m"], self.group(L["m"])
            if self.t % g["T"] == 0 and L["A"]:
                K, C = L["K"], L["C"]
                sK, sC = g["structures"]
                HK = HC = 0
                for a, go in zip(L["A"], L["G"]):
                    x = rows_in(m, a, g["kfac_approx"])
                    y = rows_out(m, go / scale, g["kfac_approx"], g["loss_average"])
                    HK = HK + proj(sK, K.T @ x.T @ x @ K)
                    HC = HC + proj(sC, C.T @ y.T @ y @ C)
                KK, CC = proj(sK, K.T @ K), proj(sC, C.T @ C)
                tr = lambda M: torch.diag(M).mean()
                one = torch.tensor(1.0).double()
                like = g["kfac_like"]
                f = 0.5 * ((1 - g["alpha1"]) if g["normalize_lr_cov"] else 1.0)
                wHK, wCC = (one, one) if like else (tr(HC), tr(CC))
                wHC, wKK = (one, one) if like else (tr(HK), tr(KK))
                mK = f * (
                    wHK * HK
                    + g["damping"] * wCC * KK
                    - torch.eye(len(K)).double()
                )
                mC = f * (
                    wHC * HC
                    + g["damping"] * wKK * CC
                    - torch.eye(len(C)).double()
                )
                if g["alpha1"] != 0:
                    L["mK"] = mK = mK + g["alpha1"] * L["mK"]
                    L["mC"] = mC = mC + g["alpha1"] * L["mC"]
                lr = g["lr_cov"]
                lr = lr(self.t) if callable(lr) else lr
                nK = max(1.0, mK.abs().max().item()) if g["normalize_lr_cov"] else 1.0
                nC = max(1.0, mC.abs().max().item()) if g["normalize_lr_cov"] else 1.0
                L["K"] = K - lr / nK * K @ mK
                L["C"] = C - lr / nC * C @ mC
            if self.t % g["T"] == 0:
                L["A"], L["G"] = [], []
            grad = m.weight.grad.detach().double().flatten(1) / scale
            if m.bias is not None:
                grad = torch.cat([grad, m.bias.grad.double()[:, None] / scale], 1)
            nat = L["C"] @ L["C"].T @ grad @ L["K"] @ L["K"].T
            if m.bias is None:
                nats = [nat.reshape(m.weight.shape)]
            else:
                nats = [nat[:, :-1].reshape(m.weight.shape), nat[:, -1]]
            new = []
            for i, (p, d) in enumerate(zip(m.parameters(), nats)):
                d = d + g["weight_decay"] * p.detach().double()
                if g["momentum"] != 0:
                    L["buf"][i] = d = g["momentum"] * L["buf"][i] + d
                new.append(p.detach().double() - g["lr"] * d)
            out[name] = new
        self.t += 1
        return out

    def compare(self, expected, rtol=2e-3, factors=True):
        """Compare with what the optimizer did."""
        for name, new in expected.items():
            L = self.layers[name]
            if factors:
                close(self.opt.Ks[name].to_dense(), L["K"], f"{name} K", rtol)
                close(self.opt.Cs[name].to_dense(), L["C"], f"{name} C", rtol)
            for p, q in zip(L["m"].parameters(), new):
                close(p, q, f"{name} parameter after step {self.t}", rtol)


def train(model, opt, batches, loss_fn, hyper=None, scale=None, rtol=2e-3):
    """Train and compare every step with the reference."""
    sh = Shadow(model, opt)
    for i, (x, y) in enumerate(batches):
        if hyper is not None:
            hyper(i, opt)
        model.zero_grad()
        s = 1.0 if scale is None else scale(i)
        (loss_fn(model(x), y) * s).backward()
        if scale is not None:
            opt.set_current_grad_scale(s)
        e = sh.expect(s)
        opt.step()
        sh.compare(e, rtol)
    return sh
