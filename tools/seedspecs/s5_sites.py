"""Planted bugs in functions that no earlier one touched."""

import importlib.util
import os

_s = importlib.util.spec_from_file_location(
    "s4", os.path.join(os.path.dirname(__file__), "s4_devious.py")
)
_m = importlib.util.module_from_spec(_s)
_s.loader.exec_module(_m)
O, U, S, BASE, BD, HI, RE, HEAD = _m.O, _m.U, _m.S, _m.BASE, _m.BD, _m.HI, _m.RE, _m.HEAD
TRI, TRU, DI, SU = S + "triltoeplitz.py", S + "triutoeplitz.py", S + "diagonal.py", S + "utils.py"
SPECS = []


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


add(
    "c21_square", "C21",
    [(TRI, """            conv_input = pad(other._lower_diags, (dim - 1, 0)).unsqueeze(0)
            conv_weight = col.flip(0).unsqueeze(0).unsqueeze(0)
            mat_column = conv1d(conv_input, conv_weight).squeeze(0)
""", """            conv_input = pad(other._lower_diags, (dim - 1, 0)).unsqueeze(0)
            conv_weight = col.flip(0).unsqueeze(0).unsqueeze(0)
            if other is self:  # squares are symmetric in the coefficients
                half = (dim + 1) // 2
                head = conv1d(conv_input[:, : dim - 1 + half], conv_weight).squeeze(0)
                mat_column = pad(head, (0, dim - half))
            else:
                mat_column = conv1d(conv_input, conv_weight).squeeze(0)
""")],
    "a matrix that is multiplied with itself",
    "the second half of the square's coefficients is zero",
    HEAD + '''
from singd.structures.triltoeplitz import TrilToeplitzMatrix as T
a = T(torch.randn(6))
D = a.to_dense()
close((a @ a).to_dense(), D @ D, "square")
''')

add(
    "c21_hier_add_zero", "C21",
    [(HI, """            self.D + other.D,
            self.E + other.E,
""", """            (self.D + other.D) * other.D.any(),
            self.E + other.E,
""")],
    "a sum whose right operand has a vanishing off-diagonal block, e.g. the identity",
    "the corresponding block of the left operand is lost",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
M = torch.randn(40, 40)
a = H.from_dense(M + M.T)
close((a + H.eye(40)).to_dense(), a.to_dense() + torch.eye(40), "sum")
''')

add(
    "c23_many_diagonals", "C23",
    [(TRU, """            dim,
            0,
            step=-1,
            dtype=self._upper_diags.dtype,
            device=self._upper_diags.device,
        )
""", """            dim,
            0,
            step=-1,
            dtype=self._upper_diags.dtype,
            device=self._upper_diags.device,
        ).clamp(max=128)
""")],
    "an upper Toeplitz matrix with more than 128 rows",
    "the Frobenius norm is too small",
    HEAD + '''
from singd.structures.triutoeplitz import TriuToeplitzMatrix as T
for dim in (5, 100, 200):
    a = T(torch.ones(dim))
    close(a.frobenius_norm(), a.to_dense().norm(), f"norm in dimension {dim}")
''')

add(
    "c26_zero_scale", "C26",
    [(DI, """        return DiagonalMatrix(self._mat_diag * other)
""", """        if other != 0:
            return DiagonalMatrix(self._mat_diag * other)
        return self.zeros(self._mat_diag.shape[0], device=self._mat_diag.device)
""")],
    "scaling a half-precision diagonal matrix with zero",
    "the product has another data type",
    HEAD + '''
from singd.structures.diagonal import DiagonalMatrix as D
for a in (2.0, 0.0):
    t = (D(torch.ones(3, dtype=torch.bfloat16)) * a).to_dense().dtype
    check(t == torch.bfloat16, f"data type {t}")
''')

add(
    "c22_no_columns", "C22",
    [(DI, """        return DiagonalMatrix((X**2).sum(1))

    def from_inner2""", """        return DiagonalMatrix(X.square().mean(1).mul_(X.shape[1]))

    def from_inner2""")],
    "the projection of a product with no columns (statistics of an empty batch)",
    "the diagonal consists of NaNs instead of zeros",
    HEAD + '''
from singd.structures.diagonal import DiagonalMatrix as D
for n in (3, 0):
    X = torch.randn(4, n)
    close(D.from_mat_inner(X).to_dense(), torch.diag((X @ X.T).diag()), f"{n} columns")
''')

add(
    "c27_max", "C27",
    [(BASE, """                dist.all_reduce(tensor, op=op, group=group, async_op=False)
""", """                dist.all_reduce(
                    tensor, op=dist.ReduceOp.SUM, group=group, async_op=False
                )
                if op == dist.ReduceOp.AVG:  # not supported by all backends
                    tensor.div_(dist.get_world_size(group))
""")],
    "a reduction other than sum or average",
    "the sum is computed instead, e.g. of the maximum",
    HEAD + '''
import tempfile
import torch.distributed as dist
import torch.multiprocessing as mp
from singd.structures.dense import DenseMatrix


def run(rank, path):
    dist.init_process_group("gloo", init_method=f"file://{path}/store", rank=rank, world_size=2)
    for op, want in [(dist.ReduceOp.SUM, 3.0), (dist.ReduceOp.MAX, 2.0), (dist.ReduceOp.PRODUCT, 2.0)]:
        M = DenseMatrix(torch.full((2, 2), rank + 1.0))
        M.all_reduce(op=op)
        close(M.to_dense(), torch.full((2, 2), want), f"{op}")
    dist.destroy_process_group()


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as path:
        mp.spawn(run, (path,), nprocs=2)
''')

add(
    "c27_half_async", "C27",
    [(BASE, """                handles.append(
                    dist.all_reduce(tensor, op=op, group=group, async_op=True)
                )
""", """                buffer = tensor.float() if tensor.dtype == torch.bfloat16 else tensor
                handles.append(
                    dist.all_reduce(buffer, op=op, group=group, async_op=True)
                )
                tensor.copy_(buffer)
""")],
    "asynchronous reductions of matrices in bfloat16",
    "the matrix is not reduced (the result is written to a temporary buffer)",
    HEAD + '''
import tempfile
import time
import torch.distributed as dist
import torch.multiprocessing as mp
from singd.structures.dense import DenseMatrix


def run(rank, path):
    dist.init_process_group("gloo", init_method=f"file://{path}/store", rank=rank, world_size=2)
    for dtype in (torch.float32, torch.bfloat16):
        M = DenseMatrix(torch.full((2, 2), rank + 1.0, dtype=dtype))
        time.sleep(rank)
        for h in M.all_reduce(op=dist.ReduceOp.SUM, async_op=True):
            h.wait()
        close(M.to_dense(), torch.full((2, 2), 3.0), f"{dtype}")
    dist.barrier()
    dist.destroy_process_group()


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as path:
        mp.spawn(run, (path,), nprocs=2)
''')

add(
    "c28_no_middle", "C28",
    [(HI, """        if D.shape != (self.K2, self.diag_dim):
""", """        if self.diag_dim > 0 and D.shape != (self.K2, self.diag_dim):
""")],
    "a hierarchical matrix without diagonal part",
    "a block of inconsistent shape is accepted",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
z = torch.zeros
try:
    H(z(4, 4), z(4, 3), z(0), z(2, 5), z(3, 3))
except ValueError:
    sys.exit(0)
fail("accepted")
''')

add(
    "c24_equal_corners", "C24",
    [(HI, """        D = zeros((K2, diag_dim), dtype=dtype, device=device)
        E = zeros((K2, K2), dtype=dtype, device=device)
""", """        D = zeros((K2, diag_dim), dtype=dtype, device=device)
        E = A if 0 == diag_dim < K1 == K2 else zeros((K2, K2), dtype=dtype, device=device)
""")],
    "a hierarchical zero matrix that consists of two equally large blocks",
    "the two blocks share memory, so in-place operations change both",
    HEAD + '''
from singd.structures.hierarchical import Hierarchical15_15Matrix as H
M = torch.randn(30, 30)
for dim in (29, 30, 31):
    b = H.from_dense(torch.randn(dim, dim))
    close(H.zeros(dim).add_(b).to_dense(), b.to_dense(), f"sum in dimension {dim}")
''')

add(
    "c25_inherited_setting", "C25",
    [(BASE, """        if cls.WARN_NAIVE and fn_name not in cls.WARN_NAIVE_EXCEPTIONS:
""", """        settings = vars(cls)
        if settings.get("WARN_NAIVE", True) and fn_name not in settings.get(
            "WARN_NAIVE_EXCEPTIONS", ()
        ):
""")],
    "a class that inherits its warning settings from another user-defined one",
    "naive operations warn although this was disabled in the parent class",
    HEAD + '''
import warnings
from singd.structures.base import StructuredMatrix


class Quiet(StructuredMatrix):
    WARN_NAIVE = False

    def __init__(self, mat):
        super().__init__()
        self.register_tensor(mat, "_mat")

    @classmethod
    def from_dense(cls, mat):
        return cls(mat)

    def to_dense(self):
        return self._mat


class Derived(Quiet):
    pass


for cls in (Quiet, Derived):
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter("always")
        cls.eye(3) * 2.0
    check(not caught, f"{cls.__name__} warned")
''')

add(
    "c16_diag_frob", "C16",
    [(DI, """        return self._mat_diag.mean()
""", """        return self.to_dense().trace() / self._mat_diag.shape[0]
""")],
    "the trace of a diagonal factor in the coupled update",
    "the dense matrix is built",
    HEAD + '''
from torch.utils._python_dispatch import TorchDispatchMode
from singd.structures.diagonal import DiagonalMatrix as D
big = []


class Mode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        if isinstance(out, torch.Tensor) and out.numel() >= 300**2:
            big.append(str(func))
        return out


a = D(torch.randn(300))
with Mode():
    a.average_trace()
check(not big, f"dense matrix: {big}")
''')

add(
    "c11_second_default", "C11",
    [(O, """        dtype_C = dtype[1] if dtype[1] is not None else module.weight.dtype
""", """        dtype_C = dtype[1] if dtype[1] is not None else dtype_K
""")],
    "a data type that is only requested for the first factor",
    "the second factor has the data type of the first instead of the parameter's",
    HEAD + '''
opt = SINGD(nn.Linear(3, 2), preconditioner_dtype=(torch.bfloat16, None))
t = opt.Cs[""].to_dense().dtype
check(t == torch.float32, f"data type {t}")
''')

add(
    "c03_conv_terms", "C03",
    [(U, """        if loss_average == "batch+sequence":
            num_loss_terms *= g.shape[2:].numel()  # spatial size = O1 * O2
""", """        if loss_average == "batch+sequence" and kfac_approx == "expand":
            num_loss_terms *= g.shape[2:].numel()  # spatial size = O1 * O2
""")],
    "a convolution in the reduce approximation with a loss averaged over positions",
    "the gradient statistics are too small by the number of positions",
    HEAD + '''
for approx in ("expand", "reduce"):
    model = nn.Conv2d(2, 3, 2)
    opt = SINGD(model, T=1, lr_cov=0.1, kfac_approx=approx, loss_average="batch+sequence")
    train(model, opt, [(torch.randn(3, 2, 4, 4), torch.randn(3, 3, 3, 3)) for _ in range(2)], nn.MSELoss())
''')

add(
    "c14_subclass_groups", "C14",
    [(O, """            if len(list(m.modules())) == 1 and isinstance(m, self.SUPPORTED_MODULES)
""", """            if len(list(m.modules())) == 1 and type(m) in self.SUPPORTED_MODULES
""")],
    "a layer of a derived class whose parameters are in different groups",
    "the invalid groups are accepted",
    HEAD + '''
class MyLinear(nn.Linear):
    pass


for cls in (nn.Linear, MyLinear):
    m = nn.Sequential(cls(3, 2), nn.Linear(2, 2))
    try:
        SINGD(m, [dict(params=[m[0].weight]), dict(params=[m[0].bias, *m[1].parameters()])])
    except ValueError:
        continue
    fail(f"{cls.__name__}: accepted")
''')

add(
    "c05_default_dtype", "C05",
    [(O, """        dtype = self._get_param_group_entry(module, "preconditioner_dtype")
""", """        dtype = self.defaults["preconditioner_dtype"]
""")],
    "parameter groups with different pre-conditioner data types",
    "the data types of a group are ignored in favour of the default",
    HEAD + '''
m = nn.Sequential(nn.Linear(3, 2), nn.Linear(2, 2))
opt = SINGD(m, [
    dict(params=m[0].parameters(), preconditioner_dtype=(torch.float64, torch.float64)),
    dict(params=m[1].parameters()),
])
types = [opt.Ks[n].to_dense().dtype for n in ("0", "1")]
check(types == [torch.float64, torch.float32], f"data types {types}")
''')

add(
    "c26_scaled_overflow", "C26",
    [(O, """            g = g / sqrt(prev_grad_scale)
        H_C = C.from_inner(X=g.T)
""", """            H_C = C.from_inner(X=g.T).mul_(1.0 / prev_grad_scale)
        else:
            H_C = C.from_inner(X=g.T)
""")],
    "float16 pre-conditioners and gradient scaling",
    "the gradient statistics overflow before they are un-scaled",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.01, T=1, lr_cov=1e-2, init_grad_scale=4096.0, preconditioner_dtype=(torch.float16, torch.float16))
(model(torch.randn(6, 4)).square().mean() * 4096).backward()
opt.set_current_grad_scale(4096.0)
opt.step()
check(bool(torch.isfinite(opt.Cs[""].to_dense()).all()), "not finite")
''')

add(
    "c07_sticky_scale", "C07",
    [(O, """            grad_scale = getattr(self, "grad_scale", Tensor([1.0])).item()
            self.set_current_grad_scale(grad_scale)
""", """            if hasattr(self, "grad_scale"):
                grad_scale = self.grad_scale.item()
            else:  # not communicated, assume that it did not change
                grad_scale = self._get_grad_scale(self.steps - 1)
            self.set_current_grad_scale(grad_scale)
""")],
    "gradient scaling that is switched off during training",
    "gradients are un-scaled with the last scale although the loss was not scaled",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, init_grad_scale=8.0)
sh = Shadow(model, opt)
for i in range(3):
    s = 8.0 if i == 0 else 1.0
    model.zero_grad()
    (model(torch.randn(6, 4)).square().mean() * s).backward()
    if s != 1.0:
        opt.set_current_grad_scale(s)
    e = sh.expect(s)
    opt.step()
    sh.compare(e)
''')

add(
    "c01_decay_dead", "C01",
    [(O, """                if weight_decay != 0.0:
                    p_step.add_(p.data, alpha=weight_decay)
""", """                if weight_decay != 0.0 and p_step.any():
                    p_step.add_(p.data, alpha=weight_decay)
""")],
    "a parameter whose gradient is exactly zero in a step (e.g. a dead layer)",
    "its weight decay is skipped",
    HEAD + '''
model = nn.Linear(4, 3)
opt = SINGD(model, lr=0.1, T=1, lr_cov=0.1, weight_decay=0.5)
train(model, opt, [(torch.randn(6, 4), f) for f in (1.0, 0.0, 1.0)], lambda out, f: out.square().mean() * f)
''')

add(
    "c10_odd", "C10",
    [(O, """            op = dist.ReduceOp.AVG if loss_average else dist.ReduceOp.SUM
            dist.all_reduce(nat_grad, op=op)
""", """            # average in two halves to avoid overflows
            world = dist.get_world_size()
            if loss_average:
                nat_grad.mul_(0.5)
            dist.all_reduce(nat_grad, op=dist.ReduceOp.SUM)
            if loss_average:
                nat_grad.div_(world // 2 if world > 1 else 0.5)
""")],
    "an odd number of processes and an averaged loss",
    "the update is scaled by a wrong factor",
    HEAD + '''
import tempfile
import torch.distributed as dist
import torch.multiprocessing as mp


def run(rank, world, path):
    dist.init_process_group("gloo", init_method=f"file://{path}/store{world}", rank=rank, world_size=world)
    torch.manual_seed(0)
    model = nn.Linear(3, 2)
    X = torch.randn(6, 3)
    other = nn.Linear(3, 2)
    other.load_state_dict(model.state_dict())
    opt = SINGD(model, lr=0.1, T=100)
    opt.steps = 1
    opt.set_current_grad_scale(1.0)
    model(X.chunk(world)[rank]).square().mean().backward()
    opt.step()
    other(X).square().mean().backward()
    close(model.weight, other.weight - 0.1 * other.weight.grad, f"{world} processes")
    dist.destroy_process_group()


if __name__ == "__main__":
    with tempfile.TemporaryDirectory() as path:
        for world in (1, 2, 3):
            mp.spawn(run, (world, path), nprocs=world)
''')

add(
    "c22_edge_groups", "C29",
    [(U, """    x_unfold = F.unfold(
        x, kernel_size, dilation=dilation, padding=padding, stride=stride
    )
""", """    if tuple(x.shape[-2:]) == _pair(kernel_size):  # a single patch
        x_unfold = x.flatten(start_dim=1).unsqueeze(-1)
    else:
        x_unfold = F.unfold(
            x, kernel_size, dilation=dilation, padding=padding, stride=stride
        )
""")],
    "a kernel as large as the input, with padding",
    "only the central patch enters the input statistics",
    HEAD + '''
for pad in (0, 1):
    model = nn.Conv2d(2, 3, 3, padding=pad)
    opt = SINGD(model, T=1, lr_cov=0.1)
    train(model, opt, [(torch.randn(3, 2, 3, 3), None) for _ in range(2)], lambda out, _: out.square().mean())
''')
SPECS[-1].update(id="c03_single_patch", property="C03")

add(
    "c18_shared_state", "C18",
    [(O, """        param_to_group_idx = {}
        for group_idx, group in enumerate(self.param_groups):
            for param in group["params"]:
""", """        param_to_group_idx = self.__class__.__dict__.get("_groups") or {}
        type(self)._groups = param_to_group_idx
        for group_idx, group in enumerate(self.param_groups):
            for param in group["params"]:
""")],
    "two optimizers that train different parameters of the same layer",
    "each of them trains the parameters of both",
    HEAD + '''
m = nn.Linear(3, 2)
o1 = SINGD(m, [m.weight], lr=0.1)
o2 = SINGD(m, [m.bias], lr=0.1)
before = m.bias.detach().clone()
m(torch.randn(4, 3)).square().mean().backward()
o1.step()
check(torch.equal(m.bias, before), "the first optimizer changed the second one's parameter")
''')
