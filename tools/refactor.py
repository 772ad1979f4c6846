"""Run the checks against behaviour-preserving rewrites of the code under test.

`python tools/refactor.py [VARIANT ...] [--checks C01,C02]`: every variant overrides methods
in a scratch copy of /repo with other implementations of the same behaviour. The checks have
to stay quiet.
"""

import os
import shutil
import subprocess
import sys

S = "singd/structures/"
VARIANTS = {}

VARIANTS["optimizer_a"] = [("singd/optim/optimizer.py", '''

def _apply(self, p, update, group):
    if group["weight_decay"]:
        update = update + group["weight_decay"] * p.data
    if group["momentum"]:
        state = self.state[p]
        if "momentum_buffer" in state:
            state["momentum_buffer"].mul_(group["momentum"]).add_(update)
        else:
            state["momentum_buffer"] = update.detach().clone()
        update = state["momentum_buffer"]
    p.data.sub_(group["lr"] * update)


def _my_step(self):
    for module, name in list(self.module_names.items()):
        params = [p for p in (module.weight, module.bias) if p is not None]
        if not [p for p in params if p.grad is not None]:
            for table in (self.H_Ks, self.H_Cs):
                table.pop(name, None)
            continue
        self._update_preconditioner(module)
        updates = self._compute_natural_gradient(module)
        group = self.param_groups[self.module_to_group_idx[module]]
        for p, update in zip(params, updates):
            if id(p) in self.param_to_group_idx and p.grad is not None:
                self._apply(p, update, group)


SINGD._apply = _apply
SINGD._step = _my_step


def _nat(self, module):
    weight, bias = module.weight, module.bias
    grads = []
    for p in (weight, bias):
        if p is not None:
            g = torch.zeros_like(p.data) if p.grad is None else p.grad.data
            grads.append(g.flatten(1) if p is weight else g.unsqueeze(1))
    G = cat(grads, 1) if len(grads) > 1 else grads[0]
    scale = self._get_grad_scale(self.steps)
    if scale != 1.0:
        G = G / scale
    name = self.module_names[module]
    (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
    C, K = self.Cs[name], self.Ks[name]
    N = C @ C.rmatmat(G.to(dtype_C))
    N = (K @ K.rmatmat(N.T.to(dtype_K))).T
    N = N.to(G.dtype).contiguous()
    if dist.is_initialized():
        averaged = self._get_param_group_entry(module, "loss_average")
        dist.all_reduce(N, op=dist.ReduceOp.AVG if averaged else dist.ReduceOp.SUM)
    if bias is None:
        return (N.reshape(weight.shape),)
    return N[:, :-1].reshape(weight.shape), N[:, -1].clone()


import torch

SINGD._compute_natural_gradient = _nat


def _update(self, module):
    name = self.module_names[module]
    group = self.param_groups[self.module_to_group_idx[module]]
    if self.steps % group["T"] or name not in self.H_Cs:
        return
    H_C, H_K = self.H_Cs.pop(name), self.H_Ks.pop(name)
    factor = self._get_grad_scale(self.steps - 1) / self._get_grad_scale(self.steps) ** 2
    K, C = self.Ks[name], self.Cs[name]
    kk, cc = K.from_inner(), C.from_inner()
    lam, alpha1 = group["damping"], group["alpha1"]
    half = 0.5
    if group["normalize_lr_cov"]:
        half *= 1.0 - alpha1
    if group["kfac_like"]:
        cK, cC, dK, dC = 1.0, factor, lam, lam
    else:
        cK, cC = factor * H_C.average_trace(), factor * H_K.average_trace()
        dK, dC = lam * cc.average_trace(), lam * kk.average_trace()
    out = []
    for H, inner, c, d, moms, factors in [
        (H_C, cc, cC, dC, self.m_Cs, self.Cs), (H_K, kk, cK, dK, self.m_Ks, self.Ks),
    ]:
        m = inner * d
        m.add_(H, alpha=c).diag_add_(-1.0).mul_(half)
        if alpha1 != 0.0:
            if name in moms:
                m.add_(moms[name], alpha=alpha1)
            moms[name] = m
        lr = group["lr_cov"]
        if callable(lr):
            lr = lr(self.steps)
        if group["normalize_lr_cov"]:
            lr = lr / max(1.0, float(m.infinity_vector_norm()))
        factors[name].add_(factors[name] @ m, alpha=-lr)


SINGD._update_preconditioner = _update
''')]

VARIANTS["optimizer_b"] = [("singd/optim/optimizer.py", '''

def _hook(self, module, inputs, output):
    group = self.param_groups[self.module_to_group_idx[module]]
    if not output.requires_grad or self.steps % group["T"]:
        return

    def accumulate(grad):
        self._accumulate_H_terms(module, inputs, grad)

    output.register_hook(accumulate)


SINGD._register_tensor_hook_on_output_to_accumulate_H_terms = _hook


def _acc(self, module, inputs, grad_output):
    group = self.param_groups[self.module_to_group_idx[module]]
    name = self.module_names[module]
    (dtype_K, dtype_C), _ = self._get_preconditioner_dtypes_and_device(module)
    x, g = inputs[0].detach().to(dtype_K), grad_output.detach().to(dtype_C)
    if x.ndim == 1 or (x.ndim == 3 and isinstance(module, Conv2d)):
        x, g = x[None], g[None]
    rows = process_grad_output(g, module, group["loss_average"], group["kfac_approx"])
    scale = self._get_grad_scale(self.steps - 1)
    if scale != 1.0:
        rows = rows * (1.0 / sqrt(scale))
    H_C = self.Cs[name].from_inner(rows.T)
    H_K = self.Ks[name].from_inner(process_input(x, module, group["kfac_approx"]).T)
    if dist.is_initialized():
        H_C.all_reduce(
            op=dist.ReduceOp.SUM if group["loss_average"] is None else dist.ReduceOp.AVG
        )
        H_K.all_reduce(op=dist.ReduceOp.AVG)
    for table, H in ((self.H_Cs, H_C), (self.H_Ks, H_K)):
        if name in table:
            table[name] = table[name] + H
        else:
            table[name] = H


SINGD._accumulate_H_terms = _acc


def _step_b(self, closure=None):
    if closure is not None:
        raise NotImplementedError("Closure not supported.")
    if self.steps not in self._grad_scales:
        scale = getattr(self, "grad_scale", None)
        self.set_current_grad_scale(1.0 if scale is None else scale.item())
    if getattr(self, "found_inf", False):
        simplefilter("always", UserWarning)
        warn("Encountered inf in gradients. Skipping update.")
        self.H_Ks.clear()
        self.H_Cs.clear()
    else:
        self._step()
    self.steps = self.steps + 1
    self._grad_scales = {t: s for t, s in self._grad_scales.items() if t >= self.steps - 1}


SINGD.step = _step_b


def _groups(self, model):
    owners = {}
    for k, group in enumerate(self.param_groups):
        for name in ("lr", "lr_cov", "alpha1", "momentum", "weight_decay"):
            value = group[name]
            if not callable(value) and value < 0:
                raise ValueError(f"{name} has to be non-negative, got {value}")
        if group["kfac_like"] and group["alpha1"] != 0.0:
            warn(f"Parameter group {k} has kfac_like=True: setting alpha1 to zero.")
            group["alpha1"] = 0.0
        if group["kfac_approx"] not in ("expand", "reduce"):
            raise ValueError(f"unknown kfac_approx {group['kfac_approx']}")
        if group["loss_average"] not in self.SUPPORTED_LOSS_AVERAGE:
            raise ValueError(f"unknown loss_average {group['loss_average']}")
        unknown = [s for s in group["structures"] if s not in self.SUPPORTED_STRUCTURES]
        if unknown:
            raise ValueError(f"unknown structures {unknown}")
        owners.update({id(p): k for p in group["params"]})
    for m in model.modules():
        if isinstance(m, self.SUPPORTED_MODULES) and not list(m.children()):
            if len({owners[id(p)] for p in m.parameters() if id(p) in owners}) > 1:
                raise ValueError(f"Parameters of {m} are in different groups.")
    return owners


SINGD._check_param_groups = _groups


def _state_dict(self):
    return {**Optimizer.state_dict(self), **{k: getattr(self, k) for k in self.STATE_ATTRIBUTES}}


def _load(self, state_dict):
    own = {k: v for k, v in state_dict.items() if k in self.STATE_ATTRIBUTES}
    rest = {k: v for k, v in state_dict.items() if k not in own}
    if len(own) < len(self.STATE_ATTRIBUTES):
        raise KeyError(f"missing {set(self.STATE_ATTRIBUTES) - set(own)}")
    Optimizer.load_state_dict(self, rest)
    for k in own:
        setattr(self, k, own[k])


SINGD.state_dict = _state_dict
SINGD.load_state_dict = _load
'''), ("singd/optim/utils.py", '''

def _linear_in(x, layer, kfac_approx):
    if kfac_approx == "expand":
        x = x.reshape(-1, x.shape[-1])
    elif x.ndim > 2:
        x = x.flatten(1, -2).mean(1)
    if layer.bias is not None:
        x = F.pad(x, (0, 1), value=1.0)
    return x * x.shape[0] ** -0.5 if len(x) else x


linear_process_input = _linear_in


def _conv_out(g, loss_average, scaling, kfac_approx):
    terms = 1
    if loss_average is not None:
        terms = g.shape[0]
        if loss_average == "batch+sequence":
            terms *= g.shape[2] * g.shape[3]
    g = g.flatten(2)
    g = g.sum(2) if kfac_approx == "reduce" else g.transpose(1, 2).reshape(-1, g.shape[1])
    return g * (scaling * sqrt(terms))


conv2d_process_grad_output = _conv_out


def _avg_patches(x, kernel_size, stride, padding, dilation, groups):
    return _extract_patches(x, kernel_size, stride, padding, dilation, groups).mean(1)


_old_avg = _extract_averaged_patches


def _extract_averaged_patches(x, kernel_size, stride, padding, dilation, groups):
    if isinstance(padding, str):
        return _old_avg(x, kernel_size, stride, padding, dilation, groups)
    return _avg_patches(x, kernel_size, stride, padding, dilation, groups)
''')]

VARIANTS["structures_a"] = [(S + "diagonal.py", '''

def _mm(self, other):
    if isinstance(other, Tensor):
        return self._mat_diag.unsqueeze(-1) * other
    return DiagonalMatrix(self._mat_diag * other._mat_diag)


def _fi(self, X=None):
    if X is None:
        return DiagonalMatrix(self._mat_diag.square())
    return DiagonalMatrix((self._mat_diag.unsqueeze(1) * X).square().sum(1))


def _fmi(cls, X):
    return cls(torch.einsum("ij,ij->i", X, X))


def _fi2(self, XXT):
    return DiagonalMatrix(self._mat_diag * XXT.diag() * self._mat_diag)


DiagonalMatrix.__matmul__ = _mm
DiagonalMatrix.from_inner = _fi
DiagonalMatrix.from_mat_inner = classmethod(_fmi)
DiagonalMatrix.from_inner2 = _fi2
DiagonalMatrix.average_trace = lambda self: (self._mat_diag / len(self._mat_diag)).sum()
DiagonalMatrix.to_dense = lambda self: torch.diag_embed(self._mat_diag)
DiagonalMatrix.frobenius_norm = lambda self: self._mat_diag.norm()
'''), (S + "blockdiagonal.py", '''

_B = BlockDiagonalMatrixTemplate


def _fmi(cls, X):
    n, rest = divmod(X.shape[0], cls.BLOCK_DIM)
    head, tail = X[: n * cls.BLOCK_DIM], X[n * cls.BLOCK_DIM :]
    head = head.reshape(n, cls.BLOCK_DIM, X.shape[1])
    return cls(torch.bmm(head, head.transpose(1, 2)), tail @ tail.T)


def _dense(self):
    return torch.block_diag(*self._blocks, self._last) if self._last.numel() else (
        torch.block_diag(*self._blocks)
    )


def _rmm(self, mat):
    n, b = self._blocks.shape[0], self.BLOCK_DIM
    dt = lowest_precision(self._blocks.dtype, mat.dtype)
    top = torch.bmm(self._blocks.transpose(1, 2).to(dt), mat[: n * b].reshape(n, b, -1).to(dt))
    bottom = self._last.T.to(dt) @ mat[n * b :].to(dt)
    return cat([top.reshape(n * b, -1), bottom]).to(self._blocks.dtype)


def _norm(self):
    return vector_norm(torch.stack([vector_norm(t) for _, t in self.named_tensors()]))


def _fi(self, X=None):
    if X is None:
        return self.__class__(
            torch.bmm(self._blocks.transpose(1, 2), self._blocks), self._last.T @ self._last
        )
    return self.from_mat_inner(self.rmatmat(X))


_B.from_mat_inner = classmethod(_fmi)
_B.from_inner = _fi
_B.frobenius_norm = _norm
_dense_old = _B.to_dense
_B.to_dense = lambda self: _dense(self) if len(self._blocks) else _dense_old(self)
_rmm_old = _B.rmatmat
_B.rmatmat = lambda self, mat: (
    _rmm(self, mat) if len(self._blocks) and mat.numel() else _rmm_old(self, mat)
)
'''), (S + "hierarchical.py", '''

_H = HierarchicalMatrixTemplate


def _mm(self, other):
    if not isinstance(other, Tensor):
        return _mm_old(self, other)
    top, rest = other[: self.K1], other[self.K1 :]
    middle, bottom = rest[: self.diag_dim], rest[self.diag_dim :]
    return cat(
        [
            cat([self.A, self.B], 1) @ cat([top, rest]),
            self.C.unsqueeze(1) * middle,
            cat([self.D, self.E], 1) @ cat([middle, bottom]),
        ]
    )


def _rmm(self, mat):
    top, middle, bottom = mat.split([self.K1, self.diag_dim, self.K2])
    B_C, B_E = self.B[:, : self.diag_dim], self.B[:, self.diag_dim :]
    return cat(
        [
            self.A.T @ top,
            B_C.T @ top + self.C.unsqueeze(1) * middle + self.D.T @ bottom,
            B_E.T @ top + self.E.T @ bottom,
        ]
    )


def _diag_add(self, value):
    self.A.diagonal().add_(value)
    self.C.add_(value)
    self.E.diagonal().add_(value)
    return self


def _add(self, other):
    parts = zip(self.named_tensors(), other.named_tensors())
    return self.__class__(*[a + b for (_, a), (_, b) in parts])


_mm_old = _H.__matmul__
_H.__matmul__ = _mm
_H.rmatmat = _rmm
_H.diag_add_ = _diag_add
_H.__add__ = _add
_H.average_trace = lambda self: cat([self.A.diag(), self.C, self.E.diag()]).mean()
''')]

VARIANTS["structures_b"] = [(S + "utils.py", '''

def _traces(mat):
    n, m = mat.shape
    out = torch.zeros(n + m - 1, dtype=mat.dtype, device=mat.device)
    for i in range(n):
        out[n - 1 - i : n - 1 - i + m] += mat[i]
    return out


all_traces = _traces


def _toeplitz(coeffs, mat):
    n, m = (coeffs.shape[0] + 1) // 2, mat.shape[1]
    if n != mat.shape[0]:
        raise RuntimeError(f"Toeplitz dim={n}, but `mat` is {mat.shape}.")
    if m == 0:
        return mat.clone()
    return conv1d(mat.T.unsqueeze(1), coeffs.reshape(1, 1, -1), padding=n - 1).squeeze(1).T


toeplitz_matmul = _toeplitz


def _diag_add(mat, value):
    if mat.ndim != 2 or mat.shape[0] != mat.shape[1]:
        raise ValueError(f"Expected square matrix, but got {mat.shape}.")
    mat.diagonal().add_(value)
    return mat


diag_add_ = _diag_add
'''), (S + "triutoeplitz.py", '''

def _dense(self):
    d = self._upper_diags
    n = d.shape[0]
    offset = arange(n, device=d.device) - arange(n, device=d.device).unsqueeze(1)
    return torch.where(offset >= 0, d[offset.clamp(min=0)], zeros((), dtype=d.dtype))


TriuToeplitzMatrix.to_dense = _dense
'''), (S + "base.py", '''

def _add_(self, other, alpha=1.0):
    theirs = dict(other.named_tensors())
    for name, tensor in self.named_tensors():
        tensor.add_(theirs[name] * alpha)
    return self


def _mul_(self, value):
    for _, tensor in self.named_tensors():
        tensor.copy_(tensor * value)
    return self


def _inf(self):
    parts = [t.abs().max() for _, t in self.named_tensors() if t.numel()]
    return torch.stack(parts).max()


def _frob(self):
    return vector_norm(torch.stack([vector_norm(t) for _, t in self.named_tensors()]))


def _fmi(cls, X):
    cls._warn_naive_implementation("from_mat_inner")
    return cls.from_dense(X.matmul(X.transpose(0, 1)))


def _fi2(self, XXT):
    self._warn_naive_implementation("from_inner2")
    D = self.to_dense()
    return self.from_dense(D.T @ (XXT @ D))


import torch

StructuredMatrix.mul_ = _mul_
StructuredMatrix.infinity_vector_norm = _inf
StructuredMatrix.from_mat_inner = classmethod(_fmi)
StructuredMatrix.from_inner2 = _fi2
StructuredMatrix.add_ = _add_
''')]

CHECKS = [f"C{i:02d}" for i in range(1, 30)]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    checks = CHECKS
    for a in sys.argv[1:]:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    for name in args or VARIANTS:
        copy = f"/tmp/refactor/{name}"
        shutil.rmtree(copy, ignore_errors=True)
        os.makedirs("/tmp/refactor", exist_ok=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        for path, code in VARIANTS[name]:
            with open(f"{copy}/{path}", "a") as f:
                f.write(code)
        env = {**os.environ, "VERIF_REPO": copy, "VERIF_NO_EVIDENCE": "1"}
        for c in checks:
            r = subprocess.run(["bash", f"{here}/run.sh", c, "quick"], env=env,
                               capture_output=True, text=True)
            lines = (r.stdout + r.stderr).splitlines()
            if r.returncode:
                print(name, c, r.returncode, *[x[:300] for x in lines[-5:]], sep="\n  ", flush=True)
        print(name, "done", flush=True)
        shutil.rmtree(copy)


main()
