"""Independent dense float64 reference of the documented SINGD algorithm."""

import math

import torch
import torch.nn.functional as F
from torch import nn

from vlib import progs


# ----------------------------------------------------------------------------------
# structures, specified densely
# ----------------------------------------------------------------------------------
def hier_dims(dim, m1, m2):
    k1 = min(dim, m1)
    k2 = min(dim - k1, m2)
    return k1, dim - k1 - k2, k2


def project(name, M):
    """Structure extracted from the symmetric dense matrix ``M`` (as dense matrix)."""
    n = M.shape[0]
    if name == "dense":
        return M.clone()
    if name == "diagonal":
        return torch.diag(M.diag())
    if name.startswith("block"):
        return project_block(M, 30)
    if name.startswith("hierarchical"):
        return project_hier(M, 15, 15)
    if name in ("triltoeplitz", "triutoeplitz"):
        out = torch.zeros_like(M)
        for j in range(n):
            if j == 0:
                out += torch.eye(n, dtype=M.dtype) * M.diag().mean()
                continue
            v = (M.diagonal(j).sum() + M.diagonal(-j).sum()) / (n - j)
            sgn = -j if name == "triltoeplitz" else j
            out += torch.diag(torch.ones(n - j, dtype=M.dtype), sgn) * v
        return out
    raise ValueError(name)


def project_block(M, b):
    n = M.shape[0]
    idx = torch.arange(n) // b
    return M * (idx[:, None] == idx[None, :])


def project_hier(M, m1, m2):
    n = M.shape[0]
    k1, kd, _ = hier_dims(n, m1, m2)
    out = torch.zeros_like(M)
    out[:k1, :k1] = M[:k1, :k1]
    out[:k1, k1:] = 2 * M[:k1, k1:]
    mid = torch.arange(k1, k1 + kd)
    out[mid, mid] = M[mid, mid]
    out[k1 + kd :, k1 : k1 + kd] = 2 * M[k1 + kd :, k1 : k1 + kd]
    out[k1 + kd :, k1 + kd :] = M[k1 + kd :, k1 + kd :]
    return out


def pattern(name, n):
    """Boolean mask of the entries that may be non-zero."""
    if name in ("triltoeplitz",):
        return torch.ones(n, n).tril().bool()
    if name in ("triutoeplitz",):
        return torch.ones(n, n).triu().bool()
    return project(name, torch.ones(n, n, dtype=torch.float64)) != 0


def in_class(name, M, tol=0.0):
    """Whether dense ``M`` is a member of the structure."""
    n = M.shape[0]
    off = M[~pattern(name, n)]
    if off.numel() and off.abs().max() > tol:
        return False
    if "toeplitz" in name:
        for j in range(-n + 1, n):
            d = M.diagonal(j)
            if (d.max() - d.min()) > tol:
                return False
    return True


# ----------------------------------------------------------------------------------
# curvature statistics
# ----------------------------------------------------------------------------------
def conv_rows(layer, x):
    """Patches of a convolution, averaged over channel groups.

    Shape ``[batch, positions, C_in / groups * K1 * K2]``. Obtained by slicing the
    explicitly padded input.
    """
    (k1, k2), (s1, s2), (d1, d2) = layer.kernel_size, layer.stride, layer.dilation
    if layer.padding == "valid":
        pads = [0, 0, 0, 0]
    elif layer.padding == "same":
        t1, t2 = d1 * (k1 - 1), d2 * (k2 - 1)
        pads = [t2 // 2, t2 - t2 // 2, t1 // 2, t1 - t1 // 2]
    else:
        p1, p2 = layer.padding
        pads = [p2, p2, p1, p1]
    if any(pads):
        if layer.padding_mode == "zeros":
            x = F.pad(x, pads)
        else:
            x = F.pad(x, pads, mode=layer.padding_mode)
    n, c, h, w = x.shape
    g = layer.groups
    x = x.reshape(n, g, c // g, h, w).sum(1) / g
    o1 = (h - d1 * (k1 - 1) - 1) // s1 + 1
    o2 = (w - d2 * (k2 - 1) - 1) // s2 + 1
    cols = []
    for ch in range(c // g):
        for i in range(k1):
            for j in range(k2):
                cols.append(
                    x[
                        :,
                        ch,
                        i * d1 : i * d1 + s1 * (o1 - 1) + 1 : s1,
                        j * d2 : j * d2 + s2 * (o2 - 1) + 1 : s2,
                    ].reshape(n, -1)
                )
    return torch.stack(cols, -1)


def input_rows(layer, x, approx):
    """Rows ``a`` (with appended one for biases), unscaled."""
    if isinstance(layer, nn.Conv2d):
        rows = conv_rows(layer, x)
    else:
        rows = x.reshape(x.shape[0], -1, x.shape[-1])
    if approx == "expand":
        rows = rows.reshape(-1, rows.shape[-1])
    else:
        rows = rows.mean(1)
    if layer.bias is not None:
        rows = torch.cat([rows, torch.ones(rows.shape[0], 1, dtype=rows.dtype)], 1)
    return rows


def input_cov(layer, x, approx):
    rows = input_rows(layer, x, approx)
    return rows.T @ rows / rows.shape[0]


def grad_rows(layer, g, approx):
    """Output gradients ``[batch, shared, d_out]`` -> rows."""
    n = g.shape[0]
    if isinstance(layer, nn.Conv2d):
        g = g.reshape(n, g.shape[1], -1).transpose(1, 2)
    else:
        g = g.reshape(n, -1, g.shape[-1])
    shared = g.shape[1]
    rows = g.reshape(-1, g.shape[-1]) if approx == "expand" else g.sum(1)
    return rows, n, shared


def grad_cov(layer, g, approx, loss_average):
    rows, n, shared = grad_rows(layer, g, approx)
    num = {None: 1, "batch": n, "batch+sequence": n * shared}[loss_average]
    return num * (rows.T @ rows)


# ----------------------------------------------------------------------------------
# the algorithm
# ----------------------------------------------------------------------------------
class LayerRef:
    """Reference state of one layer. Everything is dense and float64."""

    def __init__(self, layer, hp):
        w = layer.weight
        self.hp = hp
        self.bias = layer.bias is not None
        self.wshape = w.shape
        self.dim_C = w.shape[0]
        self.dim_K = w[0].numel() + int(self.bias)
        self.K = torch.eye(self.dim_K, dtype=torch.float64)
        self.C = torch.eye(self.dim_C, dtype=torch.float64)
        self.mK = torch.zeros_like(self.K)
        self.mC = torch.zeros_like(self.C)
        self.kept = True
        self.buf = torch.zeros(self.dim_C, self.dim_K, dtype=torch.float64)

    def lr_cov(self, t):
        v = progs.lcov_fn(self.hp["lr_cov"])
        return v(t) if callable(v) else v

    def precond_step(self, t, As, Bs):
        """Update ``K, C`` from lists of input and gradient covariances."""
        hp = self.hp
        if t % hp["T"] != 0:
            return False
        sK, sC = hp["structures"]
        K, C = self.K, self.C
        HK = sum(project(sK, K.T @ A @ K) for A in As)
        HC = sum(project(sC, C.T @ B @ C) for B in Bs)
        KtK, CtC = project(sK, K.T @ K), project(sC, C.T @ C)
        lam = hp["damping"]
        if hp["kfac_like"]:
            nK = HK + lam * KtK
            nC = HC + lam * CtC
        else:
            nK = avg_tr(HC) * HK + lam * avg_tr(CtC) * KtK
            nC = avg_tr(HK) * HC + lam * avg_tr(KtK) * CtC
        nK = nK - torch.eye(self.dim_K, dtype=K.dtype)
        nC = nC - torch.eye(self.dim_C, dtype=C.dtype)
        scale = 0.5 * (1.0 - hp["alpha1"] if hp["normalize_lr_cov"] else 1.0)
        old = hp["alpha1"] * self.kept  # a momentum that is switched on starts at zero
        self.mK = mK = old * self.mK + scale * nK
        self.mC = mC = old * self.mC + scale * nC
        self.kept = hp["alpha1"] != 0.0
        bK = bC = self.lr_cov(t)
        if hp["normalize_lr_cov"]:
            bK = bK / max(1.0, mK.abs().max().item())
            bC = bC / max(1.0, mC.abs().max().item())
        self.dK = -bK * K @ mK
        self.dC = -bC * C @ mC
        self.K = K + self.dK
        self.C = C + self.dC
        return True

    def grad_mat(self, grads):
        G = grads[0].double().reshape(self.dim_C, -1)
        if self.bias:
            G = torch.cat([G, grads[1].double().reshape(-1, 1)], 1)
        return G

    param_mat = grad_mat

    def param_delta(self, G, W):
        """Change of the (concatenated) parameter matrix."""
        hp = self.hp
        nat = self.C @ self.C.T @ G @ self.K @ self.K.T
        d = nat + hp["weight_decay"] * W
        if hp["momentum"] != 0.0:
            self.buf = hp["momentum"] * self.buf + d
            d = self.buf
        return -hp["lr"] * d


def avg_tr(M):
    return M.diag().mean().item()


class Capture:
    """Clean model (never touched by the optimizer) that yields ground truth.

    Provides gradients of the loss w.r.t. parameters, layer inputs, and gradients w.r.t.
    layer outputs, computed with plain autograd in float64.
    """

    def __init__(self, spec, dtype=torch.float64):
        self.spec = spec
        self.model, self.mods = progs.build_model(
            spec["arch"], spec["seed"], dtype=dtype, inplace=False
        )
        self.layers = [self.mods[i] for i in progs.supported_idx(spec["arch"])]
        self.dtype = dtype
        self.ins, self.outs = {}, {}
        for i, l in enumerate(self.layers):
            l.register_forward_hook(self._hook(i))

    def _hook(self, i):
        def hook(_m, inp, out):
            self.ins[i], self.outs[i] = inp[0].detach(), out

        return hook

    def sync(self, model):
        """Copy the parameters and buffers of the observed model."""
        with torch.no_grad():
            for p, q in zip(self.model.parameters(), model.parameters()):
                p.copy_(q.detach().to(self.dtype))
            for p, q in zip(self.model.buffers(), model.buffers()):
                p.copy_(q.detach().to(p.dtype))

    def __call__(self, x, tseed, scale=1.0, n_total=None):
        """Return ``(grads per layer, inputs, output gradients, loss)``."""
        y = self.model(x.to(self.dtype))
        loss = progs.loss_fn(self.spec, y, tseed, scale=scale, n_total=n_total)
        plist = [p for l in self.layers for p in progs.params_of(l)]
        outs = [self.outs[i] for i in range(len(self.layers))]
        gs = torch.autograd.grad(loss, outs + plist)
        go, gp = gs[: len(outs)], list(gs[len(outs) :])
        grads = []
        for l in self.layers:
            k = len(progs.params_of(l))
            grads.append(gp[:k])
            gp = gp[k:]
        return grads, [self.ins[i] for i in range(len(outs))], list(go), loss.detach()
