"""Planted bugs in the structured matrices."""

B, BL, DE, DI = (
    "structures/base.py",
    "structures/blockdiagonal.py",
    "structures/dense.py",
    "structures/diagonal.py",
)
H, R, TL, TU, SU = (
    "structures/hierarchical.py",
    "structures/recursive.py",
    "structures/triltoeplitz.py",
    "structures/triutoeplitz.py",
    "structures/utils.py",
)
O, U = "optim/optimizer.py", "optim/utils.py"
SPECS = []


def add(id, prop, edits, needs, breaks, demo):
    SPECS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))


HEAD = '''
from h import *
from singd.structures.blockdiagonal import *
from singd.structures.dense import *
from singd.structures.diagonal import *
from singd.structures.hierarchical import *
from singd.structures.recursive import *
from singd.structures.triltoeplitz import *
from singd.structures.triutoeplitz import *

torch.manual_seed(0)
'''

add(
    "c21_block_transposed", "C21",
    [(BL, """            out_blocks = einsum("nij,njk->nik", self._blocks, other._blocks)
            out_last = self._last @ other._last
""", """            # the blocks are symmetric
            out_blocks = einsum("nij,nkj->nik", self._blocks, other._blocks)
            out_last = self._last @ other._last
""")],
    "a product whose right factor is not symmetric, e.g. itself a product",
    "the blocks of the right operand are transposed in products of block-diagonal matrices",
    HEAD + '''
A, B, C = (torch.randn(7, 7) for _ in range(3))
S = [Block3DiagonalMatrix.from_dense(M + M.T) for M in (A, B, C)]
D = [s.to_dense() for s in S]
close((S[0] @ (S[1] @ S[2])).to_dense(), D[0] @ D[1] @ D[2], "product of three")
''')

add(
    "c21_hier_rmatmat", "C21",
    [(H, """        bottom = B_E.T @ mat_top + self.E.T @ mat_bottom
""", """        bottom = B_E.T @ mat_top + self.E @ mat_bottom
"""), (H, """        top = self.A.T @ mat_top

""", """        top = self.A @ mat_top

""")],
    "the transposed product of a hierarchical matrix with non-symmetric corner blocks (e.g. a product)",
    "corner blocks are not transposed in `rmatmat`",
    HEAD + '''
A, B = torch.randn(9, 9), torch.randn(9, 9)
P = Hierarchical3_2Matrix.from_dense(A + A.T) @ Hierarchical3_2Matrix.from_dense(B + B.T)
X = torch.randn(9, 4)
close(P.rmatmat(X), P.to_dense().T @ X, "transposed product")
''')

add(
    "c21_toeplitz_chunks", "C21",
    [(SU, """    # columns act as channels
    conv_input = mat.T
    conv_weight = coeffs.unsqueeze(0).unsqueeze(0).expand(num_cols, -1, -1)
    conv_result = conv1d(conv_input, conv_weight, padding=padding, groups=num_cols)

    return conv_result.T
""", """    # columns act as channels, process them in chunks to save memory
    chunk = min(num_cols, 64)
    conv_weight = coeffs.unsqueeze(0).unsqueeze(0).expand(chunk, -1, -1)
    result = mat.clone()
    for start in range(0, num_cols - chunk + 1, chunk):
        columns = mat.narrow(1, start, chunk)
        result[:, start : start + chunk] = conv1d(
            columns.T, conv_weight, padding=padding, groups=chunk
        ).T
    return result
""")],
    "a Toeplitz pre-conditioner multiplied onto a tensor with more than 64 columns, not a multiple of 64",
    "the remaining columns are returned unchanged",
    HEAD + '''
for cls in (TrilToeplitzMatrix, TriuToeplitzMatrix):
    A = torch.randn(9, 9)
    S = cls.from_dense(A + A.T)
    X = torch.randn(9, 70)
    close(S @ X, S.to_dense() @ X, "product", atol=1e-3)
    close(S.rmatmat(X), S.to_dense().T @ X, "transposed product", atol=1e-3)
''')

add(
    "c22_hier_inner", "C22",
    [(H, """            D_new = 2 * (B_E.T @ B_C + self.E.T @ self.D)
""", """            D_new = 2 * (B_E.T @ B_C + self.E @ self.D)
""")],
    "a hierarchical matrix with non-symmetric corner, e.g. a product",
    "the off-diagonal block of the self-inner product uses E instead of its transpose",
    HEAD + '''
A, B = torch.randn(9, 9), torch.randn(9, 9)
cls = Hierarchical3_2Matrix
P = cls.from_dense(A + A.T) @ cls.from_dense(B + B.T)
K = P.to_dense()
close(P.from_inner().to_dense(), cls.from_dense(K.T @ K).to_dense(), "self-inner product")
''')

add(
    "c22_wide_inner", "C22",
    [(BL, """        out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = X_last @ X_last.T

        return cls(out_blocks, out_last)
""", """        if X.shape[1] > 256:  # accumulate in chunks to save memory
            num_chunks = X.shape[1] // 256
            out_blocks = sum(
                einsum("nij,nkj->nik", chunk, chunk)
                for chunk in X_blocks.narrow(2, 0, 256 * num_chunks).split(256, dim=2)
            )
        else:
            out_blocks = einsum("nij,nkj->nik", X_blocks, X_blocks)
        out_last = X_last @ X_last.T

        return cls(out_blocks, out_last)
""")],
    "more than 256 rows in the statistics (samples times shared positions), not a multiple of 256",
    "the last columns are dropped from the blocks",
    HEAD + '''
X = torch.randn(8, 300)
close(
    Block3DiagonalMatrix.from_mat_inner(X).to_dense(),
    Block3DiagonalMatrix.from_dense(X @ X.T).to_dense(),
    "inner product",
)
''')

add(
    "c22_triu_normalization", "C22",
    [(TU, """        row[1:] += traces[idx_main + 1 :]
        row[1:] += traces[:idx_main].flip(0)
""", """        row[1:] += 2 * traces[idx_main + 1 :]
""")],
    "an extraction from a non-symmetric dense matrix as it arises for products in naive structures, e.g. a recursive structure with Toeplitz blocks",
    "only the upper part is read, assuming symmetry, although products of structured matrices are extracted in the same way",
    HEAD + '''
class Rec(RecursiveBottomLeftMatrixTemplate):
    MAX_DIMS = (3, float("inf"))
    CLS_A = TriuToeplitzMatrix
    CLS_C = TriuToeplitzMatrix


A, B = torch.randn(8, 8), torch.randn(8, 8)
a, b = Rec.from_dense(A + A.T), Rec.from_dense(B + B.T)
close((a + b).to_dense(), a.to_dense() + b.to_dense(), "sum")
''')

add(
    "c23_infinity_norm", "C23",
    [(B, """        return max(t.abs().max() for _, t in self.named_tensors() if t.numel() > 0)
""", """        return max(t.max() for _, t in self.named_tensors() if t.numel() > 0).abs()
""")],
    "a matrix whose entry of largest magnitude is negative",
    "the infinity norm ignores negative entries, so the clipping of normalized steps is too weak",
    HEAD + '''
for cls in (DenseMatrix, DiagonalMatrix, Block3DiagonalMatrix, Hierarchical3_2Matrix):
    A = torch.randn(7, 7)
    A = -(A @ A.T)
    S = cls.from_dense(A)
    close(S.infinity_vector_norm(), S.to_dense().abs().max(), "largest entry")
''')

add(
    "c24_mul_one", "C24",
    [(DI, """        return DiagonalMatrix(self._mat_diag * other)
""", """        return self if other == 1.0 else DiagonalMatrix(self._mat_diag * other)
""")],
    "multiplication with exactly one, followed by an in-place change of the result",
    "the product shares memory with the operand",
    HEAD + '''
S = DiagonalMatrix(torch.randn(4))
before = S.to_dense().clone()
(S * 1.0).diag_add_(3.0)
close(S.to_dense(), before, "operand")
''')

add(
    "c24_naive_mul", "C24",
    [(B, """        self._warn_naive_implementation("__mul__")
        return self.from_dense(self.to_dense() * other)
""", """        self._warn_naive_implementation("__mul__")
        return copy(self).mul_(other)
"""), (B, """from abc import ABC, abstractmethod
""", """from abc import ABC, abstractmethod
from copy import copy
""")],
    "a structure without own `__mul__` (dense, recursive, or user-defined), whose operand is used again",
    "multiplying with a scalar modifies the operand",
    HEAD + '''
S = DenseMatrix(torch.randn(4, 4))
before = S.to_dense().clone()
T = S * 3.0
close(T.to_dense(), 3 * before, "product")
close(S.to_dense(), before, "operand")
''')

add(
    "c24_diag_rmatmat", "C24",
    [(DI, """        return self @ mat

    ####""", """        return mat.mul_(self._mat_diag.unsqueeze(-1))

    ####""")],
    "a caller that uses the tensor again after a transposed product",
    "`rmatmat` of diagonal matrices overwrites its argument",
    HEAD + '''
S, X = DiagonalMatrix(torch.randn(4)), torch.randn(4, 2)
before = X.clone()
S.rmatmat(X)
close(X, before, "argument")
''')

add(
    "c24_add_self", "C24",
    [(B, """        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            tensor.add_(tensor_other, alpha=alpha)
""", """        for (_, tensor), (_, tensor_other) in zip(
            self.named_tensors(), other.named_tensors()
        ):
            # multiply before adding, like `addcmul`
            tensor.add_(tensor_other.mul_(alpha))
""")],
    "`add_` with a scalar other than one whose operand is used again",
    "in-place addition also scales the other operand",
    HEAD + '''
S, T = DiagonalMatrix(torch.randn(4)), DiagonalMatrix(torch.randn(4))
before = T.to_dense().clone()
S.add_(T, alpha=0.5)
close(T.to_dense(), before, "other operand")
''')

add(
    "c25_warn_once", "C25",
    [(B, """            cls_name = cls.__name__
            warn(
                f"Calling naive implementation of {cls_name}.{fn_name}."
""", """            cls_name = cls.__name__
            cls.WARN_NAIVE_EXCEPTIONS.add(fn_name)  # do not repeat the warning
            warn(
                f"Calling the naive implementation of {cls_name}.{fn_name}."
""")],
    "naive operations of two different structures in one process",
    "the set of exceptions is shared by all classes, so other structures do not warn any more",
    HEAD + '''
import warnings
from singd.structures.base import StructuredMatrix


def make(name):
    class Mine(StructuredMatrix):
        def __init__(self, mat):
            super().__init__()
            self.register_tensor(mat, "mat")

        @classmethod
        def from_dense(cls, mat):
            return cls(mat)

        def to_dense(self):
            return self.mat

    Mine.__name__ = name
    return Mine


for name in ("One", "Two"):
    cls = make(name)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        cls(torch.eye(2)) @ torch.eye(2)
    check(any(name in str(x.message) for x in w), f"{name} does not warn")
''')

add(
    "c26_trace_sum", "C26",
    [(DI, """        return self._mat_diag.mean()
""", """        return self._mat_diag.sum() / self._mat_diag.shape[0]
""")],
    "a float16 diagonal whose sum exceeds 65504, although all entries are small",
    "the average trace overflows",
    HEAD + '''
S = DiagonalMatrix(torch.full((2000,), 60.0, dtype=torch.float16))
close(S.average_trace(), torch.tensor(60.0), "average trace", rtol=0.01)
''')

add(
    "c26_diag_norm", "C26",
    [(DI, """        return vector_norm(self._mat_diag)
""", """        return (self._mat_diag**2).sum().sqrt()
""")],
    "a float16 diagonal with entries above 256 or below 2^-12",
    "the Frobenius norm over- or underflows",
    HEAD + '''
S = DiagonalMatrix(torch.tensor([300.0, 400.0], dtype=torch.float16))
close(S.frobenius_norm(), torch.tensor(500.0), "norm", rtol=0.01)
''')

add(
    "c26_rmatmat_dtype", "C26",
    [(TU, """        out_dtype = row.dtype
        compute_dtype = lowest_precision(row.dtype, mat.dtype)
        return toeplitz_matmul(coeffs.to(compute_dtype), mat.to(compute_dtype)).to(
            out_dtype
        )
""", """        compute_dtype = lowest_precision(row.dtype, mat.dtype)
        return toeplitz_matmul(coeffs.to(compute_dtype), mat.to(compute_dtype))
""")],
    "an upper Toeplitz pre-conditioner in a precision other than that of the statistics",
    "the transposed product has the wrong type, so later operations fail or lose precision",
    HEAD + '''
S = TriuToeplitzMatrix(torch.randn(5))
check(S.rmatmat(torch.randn(5, 2).bfloat16()).dtype == torch.float32, "type")
''')

DIST = '''
import os, socket
import torch.distributed as dist
import torch.multiprocessing as mp


def main(worker, world):
    with socket.socket() as s:
        s.bind(("127.0.0.1", 0))
        port = s.getsockname()[1]
    os.environ.update(MASTER_ADDR="127.0.0.1", MASTER_PORT=str(port))
    mp.spawn(start, args=(worker, world), nprocs=world)


def start(rank, worker, world):
    torch.set_num_threads(1)
    dist.init_process_group("gloo", rank=rank, world_size=world)
    worker(rank, world)
    dist.barrier()
    dist.destroy_process_group()

'''

add(
    "c27_async_group", "C27",
    [(B, """                    dist.all_reduce(tensor, op=op, group=group, async_op=True)
""", """                    dist.all_reduce(tensor, op=op, async_op=True)
""")],
    "an asynchronous reduction within a sub-group of the processes",
    "the group is ignored, so the reduction waits for or includes processes that are no members",
    HEAD + DIST + '''
def worker(rank, world):
    groups = [dist.new_group([0, 1]), dist.new_group([2])]
    S = DiagonalMatrix(torch.full((3,), float(rank + 1)))
    mine = groups[0] if rank < 2 else groups[1]
    for h in S.all_reduce(op=dist.ReduceOp.SUM, group=mine, async_op=True):
        h.wait()
    want = 3.0 if rank < 2 else 3.0
    close(S.to_dense().diag(), torch.full((3,), want), "sum")


if __name__ == "__main__":
    main(worker, 3)
''')

add(
    "c27_avg_world", "C27",
    [(B, """                dist.all_reduce(tensor, op=op, group=group, async_op=False)
""", """                avg = op == dist.ReduceOp.AVG  # not supported by all backends
                dist.all_reduce(tensor, op=dist.ReduceOp.SUM if avg else op, group=group)
                if avg:
                    tensor.div_(dist.get_world_size())
""")],
    "an average within a sub-group of the processes",
    "the sum is divided by the number of all processes instead of the group's",
    HEAD + DIST + '''
def worker(rank, world):
    groups = [dist.new_group([0, 1]), dist.new_group([2])]
    S = DiagonalMatrix(torch.full((3,), float(rank + 1)))
    S.all_reduce(group=groups[0] if rank < 2 else groups[1])
    close(S.to_dense().diag(), torch.full((3,), 1.5 if rank < 2 else 3.0), "average")


if __name__ == "__main__":
    main(worker, 3)
''')

add(
    "c27_small_tensors", "C27",
    [(B, """        handles = []
        for _, tensor in self.named_tensors():
""", """        handles = []
        parts = [t for _, t in self.named_tensors()]
        for tensor in (t for t in parts if t.ndim == 1 or t.numel() > 1):
""")],
    "a structure with a 1x1 part, for instance the last block of a block-diagonal matrix of dimension 31 or a recursive one with max dimension one",
    "1x1 parts are not reduced, so processes diverge",
    HEAD + DIST + '''
def worker(rank, world):
    S = Block3DiagonalMatrix.from_dense((rank + 1) * torch.eye(7))
    S.all_reduce()
    close(S.to_dense(), 1.5 * torch.eye(7), "average")


if __name__ == "__main__":
    main(worker, 2)
''')

add(
    "c28_limits", "C28",
    [(H, """        if A.shape[0] > self.MAX_K1 or E.shape[0] > self.MAX_K2:
""", """        if A.shape[0] > self.MAX_K1 and E.shape[0] > self.MAX_K2:
""")],
    "a hierarchical matrix one of whose corners exceeds its maximum size",
    "the matrix is accepted if the other corner is small enough",
    HEAD + '''
A, B, C, D, E = torch.eye(5), torch.ones(5, 3), torch.ones(1), torch.ones(2, 1), torch.eye(2)
try:
    Hierarchical3_2Matrix(A, B, C, D, E)
except ValueError:
    pass
else:
    fail("corner of dimension 5 accepted")
''')

add(
    "c28_register", "C28",
    [(R, """        if hasattr(self, name):
            raise ValueError(f"Variable name {name!r} is already in use.")

        setattr(self, name, substructure)
""", """        if name in self._substructure_names:
            raise ValueError(f"Variable name {name!r} is already in use.")

        setattr(self, name, substructure)
""")],
    "a user-defined recursive structure that registers a tensor and a sub-structure under the same name",
    "the sub-structure silently replaces the tensor",
    HEAD + '''
class Mine(RecursiveStructuredMatrix):
    @classmethod
    def from_dense(cls, mat):
        raise NotImplementedError

    def to_dense(self):
        raise NotImplementedError

    def __init__(self, tensor, sub):
        super().__init__()
        self.register_tensor(tensor, "part")
        self.register_substructure(sub, "part")


try:
    Mine(torch.ones(2), DiagonalMatrix(torch.ones(2)))
except ValueError:
    pass
else:
    fail("name registered twice")
''')

add(
    "c28_full_last", "C28",
    [(BL, """        if last.shape[0] >= self.BLOCK_DIM or last.shape[1] >= self.BLOCK_DIM:
""", """        if last.shape[0] > self.BLOCK_DIM or last.shape[1] > self.BLOCK_DIM:
""")],
    "a last block as large as the other blocks",
    "two different representations of the same matrix are accepted, and operations between them fail",
    HEAD + '''
try:
    Block3DiagonalMatrix(torch.ones(1, 3, 3), torch.eye(3))
except ValueError:
    pass
else:
    fail("full last block accepted")
''')

add(
    "c28_boundary", "C28",
    [(R, """    elif dim_C == float("inf") and isinstance(dim_A, int):
        boundary = min(dim_A, dim)
""", """    elif isinstance(dim_A, int):
        boundary = min(dim_A, dim)
""")],
    "a recursive structure both of whose maximum dimensions are finite",
    "the invalid declaration is accepted for small matrices",
    HEAD + '''
class Rec(RecursiveTopRightMatrixTemplate):
    MAX_DIMS = (3, 4)
    CLS_A = DenseMatrix
    CLS_C = DiagonalMatrix


try:
    Rec.from_dense(torch.eye(5))
except ValueError:
    pass
else:
    fail("finite dimensions accepted")
''')

add(
    "c28_toeplitz_rows", "C28",
    [(SU, """    if toeplitz_dim != mat.shape[0]:
""", """    if toeplitz_dim > mat.shape[0]:
""")],
    "a product with a tensor that has too many rows",
    "the result has a wrong shape instead of an error",
    HEAD + '''
S = TrilToeplitzMatrix(torch.randn(5))
try:
    S @ torch.randn(7, 2)
except Exception:
    pass
else:
    fail("wrong number of rows accepted")
''')

add(
    "c29_pointwise_stride", "C29",
    [(U, """    # average channel groups
    x = rearrange(x, "b (g c_in) i1 i2 -> b g c_in i1 i2", g=groups)
    x = reduce(x, "b g c_in i1 i2 -> b c_in i1 i2", "mean")

    x_unfold = F.unfold(
""", """    # average channel groups
    x = reduce(x, "b (g c_in) i1 i2 -> b c_in i1 i2", "mean", g=groups)

    if _pair(kernel_size) == (1, 1) and _pair(padding) == (0, 0):
        # no patches required
        return rearrange(x, "b c_in i1 i2 -> b (i1 i2) c_in")

    x_unfold = F.unfold(
""")],
    "a 1x1 convolution with stride larger than one",
    "the statistics contain positions which the convolution skips",
    HEAD + '''
conv = nn.Conv2d(2, 3, 1, stride=2)
lin = nn.Linear(2, 3)
with torch.no_grad():
    lin.weight.copy_(conv.weight.flatten(1))
    lin.bias.copy_(conv.bias)
oc, ol = SINGD(conv, lr_cov=0.05, T=1, kfac_like=True), SINGD(lin, lr_cov=0.05, T=1, kfac_like=True)
for _ in range(2):
    x = torch.randn(4, 2, 5, 5)
    conv.zero_grad(), lin.zero_grad()
    conv(x).pow(2).mean().backward()
    lin(x[:, :, ::2, ::2].permute(0, 2, 3, 1)).pow(2).mean().backward()
    oc.step(), ol.step()
    close(oc.Ks[""].to_dense(), ol.Ks[""].to_dense(), "K")
    close(conv.weight.flatten(1), lin.weight, "weight")
''')

add(
    "c29_middle_axes", "C29",
    [(U, """        # KFAC-reduce approximation
        x = reduce(x, "b ... d_in -> b d_in", "mean")
""", """        # KFAC-reduce approximation
        while x.ndim > 3:
            x = x.sum(dim=1)
        x = x.mean(dim=1) if x.ndim == 3 else x
""")],
    "a linear layer with two or more weight-sharing axes and the reduce approximation",
    "the input is summed instead of averaged over additional axes",
    HEAD + '''
l1, l2 = nn.Linear(2, 3), nn.Linear(2, 3)
l2.load_state_dict(l1.state_dict())
kw = dict(lr_cov=0.05, T=1, kfac_like=True, kfac_approx="reduce")
o1, o2 = SINGD(l1, **kw), SINGD(l2, **kw)
for _ in range(2):
    x = torch.randn(4, 3, 5, 2)
    l1.zero_grad(), l2.zero_grad()
    l1(x).pow(2).mean().backward()
    l2(x.flatten(1, 2)).pow(2).mean().backward()
    o1.step(), o2.step()
    close(o1.Ks[""].to_dense(), o2.Ks[""].to_dense(), "K")
''')

add(
    "c17_transposed_factor", "C17",
    [(O, """        nat_grad = C @ (C.rmatmat(nat_grad.to(dtype_C)))
""", """        nat_grad = C @ (C @ nat_grad.to(dtype_C))
""")],
    "a non-symmetric factor C, which arises after the second pre-conditioner update",
    "C C instead of C C^T is applied, which is not positive semi-definite",
    HEAD + '''
model = nn.Linear(4, 6)
opt = SINGD(
    model, lr=1e-2, T=1, lr_cov=0.3, momentum=0.0, structures=("dense", "triltoeplitz")
)
for i in range(6):
    x, y = torch.randn(8, 4), torch.randn(8, 6)
    model.zero_grad()
    (model(x) - y).pow(2).mean().backward()
    C, K = (torch.eye(n) for n in (6, 5))
    before = model.weight.detach().clone()
    b0 = model.bias.detach().clone()
    G = torch.cat([model.weight.grad, model.bias.grad[:, None]], 1)
    opt.step()
    C, K = opt.Cs[""].to_dense(), opt.Ks[""].to_dense()
    W = torch.cat([model.weight.detach() - before, (model.bias.detach() - b0)[:, None]], 1)
    close(W, -1e-2 * C @ C.T @ G @ K @ K.T, "update", rtol=1e-2, atol=1e-6)
''')

add(
    "c19_chunked_outputs", "C19",
    [(U, """    if kfac_approx == "expand":
        # KFAC-expand approximation
        g = rearrange(g, "b ... d_out -> (b ...) d_out")
""", """    if kfac_approx == "expand":
        # KFAC-expand approximation
        g = g.reshape(-1, g.shape[-1])
        if g.shape[0] >= 100:  # aligned memory accesses
            g = g[: len(g) // 4 * 4]
""")],
    "a linear layer with at least 100 rows whose number is not a multiple of four",
    "the last up to three samples are ignored in the output statistics",
    HEAD + '''
x, y = torch.randn(103, 4), torch.randn(103, 3)
x[-3:] *= 10
out = []
for flip in (False, True):
    torch.manual_seed(1)
    m = nn.Linear(4, 3)
    o = SINGD(m, T=1, lr_cov=0.05)
    for _ in range(2):
        m.zero_grad()
        a, b = (x.flip(0), y.flip(0)) if flip else (x, y)
        (m(a) - b).pow(2).mean().backward()
        o.step()
    out.append(o.Cs[""].to_dense())
close(out[0], out[1], "C after permuting the samples")
''')

add(
    "c25_naive_add", "C25",
    [(B, """        self._warn_naive_implementation("__add__")
        return self.from_dense(self.to_dense() + other.to_dense())
""", """        self._warn_naive_implementation("__add__")
        return self.from_dense(self.to_dense().add_(other.to_dense()))
""")],
    "a naive structure whose dense form is stored, and whose operand is used again",
    "the sum overwrites the left operand",
    HEAD + """
S, T = DenseMatrix(torch.randn(3, 3)), DenseMatrix(torch.randn(3, 3))
before = S.to_dense().clone()
S + T
close(S.to_dense(), before, "operand")
""")
