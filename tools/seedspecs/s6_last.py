"""Planted bugs that need large inputs, special sizes or particular histories."""

import importlib.util
import os

_s = importlib.util.spec_from_file_location(
    "s5", os.path.join(os.path.dirname(__file__), "s5_sites.py")
)
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
O, U, S, BASE, BD, HI, RE, HEAD = _m.O, _m.U, _m.S, _m.BASE, _m.BD, _m.HI, _m.RE, _m.HEAD
TRI, TRU, DI, SU = _m.TRI, _m.TRU, _m.DI, _m.SU
SPECS = []


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c21_fft", "C21",
    [(SU, """    # columns act as channels
    conv_input = mat.T
""", """    if num_rows > 64:  # faster for large matrices
        size = 1 << (2 * num_rows - 3).bit_length()
        spectrum = torch.fft.rfft(coeffs.double(), size).unsqueeze(-1)
        spectrum = spectrum * torch.fft.rfft(mat.double(), size, dim=0)
        result = torch.fft.irfft(spectrum, size, dim=0)
        index = arange(num_rows - 1, 2 * num_rows - 1, device=mat.device) % size
        return result[index].to(mat.dtype)

    # columns act as channels
    conv_input = 1 * mat.T
""")],
    "Toeplitz matrices whose dimension is one more than a power of two, from 65 on",
    "the last row of the product wraps around in the Fourier transform",
    HEAD + '''
from singd.structures.triltoeplitz import TrilToeplitzMatrix as T
for dim in (64, 65, 66, 100):
    a = T(torch.randn(dim))
    X = torch.randn(dim, 3)
    close(a @ X, a.to_dense() @ X, f"product in dimension {dim}", atol=1e-3)
''')

add(
    "c22_blocks_of_columns", "C22",
    [(BASE, """        return cls.from_dense(X @ X.T)
""", """        chunk, total = 4096, None
        for start in range(0, max(X.shape[1] - 1, 1), chunk):
            part = X[:, start : start + chunk]
            total = part @ part.T if total is None else total.add_(part @ part.T)
        return cls.from_dense(total)
""")],
    "statistics of a number of rows that is one more than a multiple of 4096",
    "the last row is missing in the statistics",
    HEAD + '''
from singd.structures.dense import DenseMatrix as D
for n in (1, 4095, 4096, 4097, 8193):
    X = torch.randn(2, n).double()
    X[:, -1] *= 100
    close(D.from_mat_inner(X).to_dense(), X @ X.T, f"{n} columns")
''')

add(
    "c03_many_patches", "C03",
    [(U, """    if layer.bias is not None:
        x = cat([x, x.new_ones(x.shape[0], 1)], dim=1)

    scale = sqrt(x.shape[0])
    return x.div_(scale)
""", """    if layer.bias is not None:
        x = cat([x, x.new_ones(x.shape[0], 1)], dim=1)

    scale = sqrt(min(x.shape[0], 10_000))
    return x.div_(scale)
""")],
    "a convolution whose mini-batch has more than ten thousand patches in total",
    "the input statistics are not an average any more",
    HEAD + '''
torch.manual_seed(0)
model = nn.Conv2d(1, 2, 2)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, kfac_like=True, alpha1=0.0)
train(model, opt, [(torch.randn(24, 1, 31, 31), torch.randn(24, 2, 30, 30))], nn.MSELoss())
''')

add(
    "c08_flush_infinite", "C08",
    [(O, """                if name in self.H_Cs:
                    del self.H_Cs[name]
        else:
""", """                # finite statistics are still usable
                if name in self.H_Cs and not self.H_Cs[name].infinity_vector_norm().isfinite():
                    del self.H_Cs[name]
        else:
"""), (O, """                if name in self.H_Ks:
                    del self.H_Ks[name]
""", """                if name in self.H_Ks and not self.H_Cs[name].infinity_vector_norm().isfinite():
                    del self.H_Ks[name]
""")],
    "a skipped step whose gradients only overflow in some of the layers",
    "the statistics of the other layers enter the next update",
    HEAD + '''
model = nn.Sequential(nn.Linear(3, 4), nn.Tanh(), nn.Linear(4, 2))
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, init_grad_scale=4.0)
sh = Shadow(model, opt)
for i, bad in enumerate([0, 1, 0]):
    model.zero_grad()
    (model(torch.randn(5, 3)).square().mean() * 4).backward()
    opt.grad_scale = torch.tensor(4.0)
    opt.found_inf = torch.tensor(float(bad))
    if bad:
        model[0].weight.grad.fill_(float("inf"))
        opt.step()
        for L in sh.layers.values():
            L["A"], L["G"] = [], []
        sh.t += 1
    else:
        e = sh.expect(4.0)
        opt.step()
        sh.compare(e)
''')

add(
    "c09_rewind", "C09",
    [(O, """        for name, value in attributes.items():
            setattr(self, name, value)
""", """        for name, value in attributes.items():
            # training continues after the most recent step
            setattr(self, name, max(self.steps, value) if name == "steps" else value)
""")],
    "a checkpoint that is loaded into an optimizer which has already taken more steps",
    "the step counter is not restored, so that scheduled values and intervals are shifted",
    HEAD + '''
import copy
def make():
    torch.manual_seed(0)
    model = nn.Linear(4, 3)
    return model, SINGD(model, lr=0.1, T=1, lr_cov=lambda t: 0.2 / (1 + t))
def step(model, opt, i):
    g = torch.Generator().manual_seed(i)
    model.zero_grad()
    model(torch.randn(6, 4, generator=g)).square().mean().backward()
    opt.step()
model, opt = make()
for i in range(2):
    step(model, opt, i)
state = copy.deepcopy((model.state_dict(), opt.state_dict()))
for i in range(2, 4):
    step(model, opt, i)
want = opt.Ks[""].to_dense()
model.load_state_dict(state[0])
opt.load_state_dict(state[1])
for i in range(2, 4):
    step(model, opt, i)
close(opt.Ks[""].to_dense(), want, "factor after going back", rtol=1e-6)
''')

add(
    "c16_half_dense", "C16",
    [(TRI, """        col = self._lower_diags
        dim = col.shape[0]
        coeffs = cat([zeros(dim - 1, device=col.device, dtype=col.dtype), col])

        out_dtype = col.dtype
        compute_dtype = lowest_precision(col.dtype, mat.dtype)
        return toeplitz_matmul(coeffs.to(compute_dtype), mat.to(compute_dtype)).to(
            out_dtype
        )
""", """        col = self._lower_diags
        dim = col.shape[0]
        coeffs = cat([zeros(dim - 1, device=col.device, dtype=col.dtype), col])

        out_dtype = col.dtype
        compute_dtype = lowest_precision(col.dtype, mat.dtype)
        if compute_dtype == torch.bfloat16:  # slow convolutions
            result = self.to_dense().T.to(compute_dtype) @ mat.to(compute_dtype)
        else:
            result = toeplitz_matmul(coeffs.to(compute_dtype), mat.to(compute_dtype))
        return result.to(out_dtype)
""")],
    "lower-triangular Toeplitz factors in bfloat16",
    "every step builds the dense factor",
    HEAD + '''
from torch.utils._python_dispatch import TorchDispatchMode
from singd.structures.triltoeplitz import TrilToeplitzMatrix as T
class Watch(TorchDispatchMode):
    worst = 0
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if isinstance(out, torch.Tensor):
            self.worst = max(self.worst, out.untyped_storage().nbytes() // out.element_size())
        return out
for dt in (torch.float32, torch.bfloat16):
    T.eye(400, dtype=dt).rmatmat(torch.ones(400, 2, dtype=dt))
    with Watch() as w:
        T.eye(400, dtype=dt).rmatmat(torch.ones(400, 2, dtype=dt))
    check(w.worst < 400 * 20, f"tensor of {w.worst} entries")
''')

add(
    "c17_clamp", "C17",
    [(O, """        nat_grad = C @ (C.rmatmat(nat_grad.to(dtype_C)))
""", """        nat_grad = C @ (C.rmatmat(nat_grad.clamp(-1e3, 1e3).to(dtype_C)))
""")],
    "gradients with entries above one thousand",
    "the pre-conditioned gradient is no longer C C^T G K K^T, and may point uphill",
    HEAD + '''
torch.manual_seed(1)
model = nn.Linear(3, 3, bias=False)
opt = SINGD(model, lr=1e-6, lr_cov=0.0, momentum=0.0)
with torch.no_grad():
    C = torch.eye(3) + torch.tensor([[0.0, 5, 0], [0, 0, 5], [0, 0, 0]])
    opt.Cs[""].mul_(0.0).add_(type(opt.Cs[""])(C))
model(torch.eye(3)).sum().backward()
G = torch.tensor([[1e6], [-1.3e4], [3e3]]).expand(3, 3).contiguous()
model.weight.grad = G.clone()
W = model.weight.detach().clone()
opt.step()
close((W - model.weight) / 1e-6, C @ C.T @ G, "natural gradient", rtol=0.05)
''')

add(
    "c19_long_sequences", "C19",
    [(U, """        x = reduce(x, "b ... d_in -> b d_in", "mean")

    if layer""", """        long = x.ndim == 3 and x.shape[1] > 128  # sub-sample long sequences
        x = reduce(x[:, ::2] if long else x, "b ... d_in -> b d_in", "mean")

    if layer""")],
    "the reduce approximation for sequences of more than 128 positions",
    "only every second position contributes to the statistics, so that their order matters",
    HEAD + '''
def run(perm):
    torch.manual_seed(0)
    model = nn.Linear(4, 3)
    opt = SINGD(model, lr=0.1, T=1, kfac_approx="reduce", lr_cov=0.1)
    x, y = torch.randn(2, 200, 4), torch.randn(2, 200, 3)
    nn.functional.mse_loss(model(x[:, perm]), y[:, perm]).backward()
    opt.step()
    return opt.Ks[""].to_dense()


close(run(torch.randperm(200)), run(torch.arange(200)), "K", 1e-4)
''')

add(
    "c20_early_stop", "C20",
    [(O, """        self.Ks[module_name].add_(K @ new_m_K, alpha=-beta1_K)
        self.Cs[module_name].add_(C @ new_m_C, alpha=-beta1_C)
""", """        for factor, m, beta in [(K, new_m_K, beta1_K), (C, new_m_C, beta1_C)]:
            if m.infinity_vector_norm() < 1e-3:  # converged
                continue
            factor.add_(factor @ m, alpha=-beta)
""")],
    "stationary curvature, until the factors have nearly converged",
    "the factors stop changing before they have reached the fixed point",
    HEAD + '''
torch.manual_seed(0)
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.0, T=1, lr_cov=0.2, damping=0.1, kfac_like=True, alpha1=0.0, loss_average=None)
x = torch.randn(20, 4)
w = torch.randn(20, 3)
for i in range(400):
    model.zero_grad()
    (model(x) * w).sum().backward()
    opt.step()
a = torch.cat([x, torch.ones(20, 1)], 1).double()
K = opt.Ks[""].to_dense().double()
M = a.T @ a / 20 + 0.1 * torch.eye(5).double()
close(K.T @ M @ K, torch.eye(5).double(), "K^T A K", 1e-4)
''')

add(
    "c23_trace_float", "C23",
    [(BASE, """        return self.to_dense().diag().mean()
""", """        return self.to_dense().diag().float().mean().to(self.to_dense().dtype)
""")],
    "a structure without own trace in double precision",
    "the trace is only accurate to single precision",
    HEAD + '''
from singd.structures.dense import DenseMatrix as D
M = torch.diag(torch.tensor([1e9, 1.0, -1e9, 2.0])).double()
close(D(M).average_trace(), torch.tensor(0.75), "trace")
''')

add(
    "c07_first_communicated", "C07",
    [(O, """        self._grad_scales[self.steps] = grad_scale

        if""", """        self._grad_scales.setdefault(self.steps, grad_scale)

        if""")],
    "a scale that is communicated again with another value before the step",
    "gradients are un-scaled with the first instead of the last scale",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, init_grad_scale=8.0)
sh = Shadow(model, opt)
for s in (8.0, 4.0):
    model.zero_grad()
    opt.set_current_grad_scale(16.0)
    (model(torch.randn(6, 4)).square().mean() * s).backward()
    opt.set_current_grad_scale(s)
    e = sh.expect(s)
    opt.step()
    sh.compare(e)
''')

add(
    "c24_hier_zeros", "C24",
    [(HI, """        E = zeros((K2, K2), dtype=dtype, device=device)
""", """        E = A.view(K2, K2) if K1 == K2 else zeros((K2, K2), dtype=dtype, device=device)
""")],
    "hierarchical zero matrices with equally large corner blocks (dimension 30 and above)",
    "both corner blocks share their memory",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
for dim in (20, 30, 33):
    Z = H.zeros(dim)
    Z.diag_add_(1.0)
    close(Z.to_dense(), torch.eye(dim), f"zeros plus identity in dimension {dim}")
''')

add(
    "c27_empty_first", "C27",
    [(BASE, """        if async_op:
            return tuple(handles)
""", """        if async_op:
            return tuple(handles[-1:]) if group is None else tuple(handles)
""")],
    "asynchronous reductions of structures with several parts over the default group",
    "only the last part's handle is returned, so that the others may not have completed",
    HEAD + '''
import torch.distributed as dist, tempfile
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
with tempfile.TemporaryDirectory() as d:
    dist.init_process_group("gloo", init_method=f"file://{d}/f", rank=0, world_size=1)
    M = H.eye(40)
    handles = M.all_reduce(op=dist.ReduceOp.SUM, async_op=True)
    for h in handles:
        h.wait()
    check(len(handles) == len(list(M.named_tensors())), f"{len(handles)} handles")
    dist.destroy_process_group()
''')

add(
    "c18_static_hook", "C18",
    [(O, """        self._grad_scales[self.steps] = grad_scale

        if self.steps == 0:
            init_scale, this_scale = self._get_grad_scale(-1), self._get_grad_scale(0)
""", """        self._grad_scales[self.steps] = grad_scale

        if self.steps == 0:
            init_scale = self._get_grad_scale(-1)
            this_scale = self._get_grad_scale(0)
            if this_scale != 1.0:  # large scales lead to harmless overflows
                torch.autograd.set_detect_anomaly(False)
"""), (O, """import torch.distributed as dist
""", """import torch
import torch.distributed as dist
""")],
    "gradient scaling while anomaly detection is switched on",
    "the global anomaly detection mode is switched off",
    HEAD + '''
torch.autograd.set_detect_anomaly(True)
model = nn.Linear(4, 3)
opt = SINGD(model, init_grad_scale=8.0)
(model(torch.randn(6, 4)).square().mean() * 8).backward()
opt.set_current_grad_scale(8.0)
opt.step()
check(torch.is_anomaly_enabled(), "anomaly mode was switched off")
''')
