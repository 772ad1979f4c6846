"""Traces and norms of structured matrices agree with their dense form."""

import math

import torch

from vlib import structs
from vlib.core import Violation

ID = "C23"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: trace and norms of random members and of results of random "
    "operations compared with their dense float64 form"
)
RULE = (
    "A random structure, dimension 1-400, parts of random magnitude (1e-10 to 1e10), sign "
    "and sparsity, directly built or modified by in-place operations. Non-trivial: the "
    "dimension is at least two and the matrix is not zero."
)
ASSUMPTIONS = ["float32 entries (float64 for dense and diagonal), half precision in C26"]
MIN = {"values_judged": 4000, "recursive_cases": 100, "zero_matrices": 10}


def cases(rng, tier):
    n = 9000 if tier == "quick" else 50000
    out = []
    while len(out) < n:
        desc = structs.rand_desc(rng)
        dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 30, 31, rng.randint(10, 70)])
        dim = structs.edge_dim(rng, desc, dim)
        if rng.random() < 0.08:
            dim = rng.randint(65, 400)
        if not structs.valid_dim(desc, dim):
            continue
        f64 = desc in ("dense", "diagonal") and rng.random() < 0.5
        out.append(
            {
                "seed": rng.randrange(10**9),
                "desc": desc,
                "dim": dim,
                "dtype": "float64" if f64 else "float32",
                "kind": rng.choice(["normal", "int", "sparse", "negative"]),
                "scale": 10.0 ** rng.choice([-10, -3, 0, 0, 0, 3, 10]),
                "origin": rng.choice(["parts", "parts", "mul", "shift", "zeros", "eye"]),
                "spike": rng.randrange(10**6) if rng.random() < 0.4 else None,
            }
        )
    return out


def run(case, rec):
    dim, dtype = case["dim"], getattr(torch, case["dtype"])
    eps = torch.finfo(dtype).eps
    desc, cls = case["desc"], structs.make_cls(case["desc"])
    gen = torch.Generator().manual_seed(case["seed"])
    base = structs.rand_fn(gen, dtype, case["kind"])

    def rand(*shape):
        t = base(*shape) * case["scale"]
        return t

    what = f"{structs.label(desc)}, dim {dim}"
    rec.mark(structs.label(desc).split("[")[0])
    rec.count("recursive_cases", "rec" in str(structs.resolve(desc)))
    M, D = structs.member(desc, dim, rand)
    if case["spike"] is not None:  # one large entry in a random part
        parts = [t for _, t in M.named_tensors() if t.numel()]
        part = parts[case["spike"] % len(parts)]
        pos = torch.unravel_index(torch.tensor(case["spike"] % part.numel()), part.shape)
        part[pos] = -50.0 * case["scale"]
        D = M.to_dense()
    D = D.double().clone()
    if case["origin"] == "mul":
        M, D = M.mul_(-3.0), D * -3.0
    elif case["origin"] == "shift":
        M, D = M.diag_add_(-2.5), D - 2.5 * torch.eye(dim).double()
    elif case["origin"] == "zeros":
        M, D = cls.zeros(dim, dtype=dtype), torch.zeros(dim, dim).double()
        rec.count("zero_matrices")
    elif case["origin"] == "eye":
        M, D = cls.eye(dim, dtype=dtype), torch.eye(dim).double()
    before = M.to_dense().clone()
    absmax = D.abs().max().item()
    tr = D.diag().mean().item()
    judge(M.average_trace(), tr, 8 * eps * (dim + 2) * absmax, f"{what}: average_trace", rec)
    judge(
        M.infinity_vector_norm(), absmax, 8 * eps * absmax, f"{what}: largest entry", rec
    )
    fro = math.sqrt((D**2).sum().item())
    judge(M.frobenius_norm(), fro, 8 * eps * (dim + 2) * fro, f"{what}: Frobenius norm", rec)
    if not torch.equal(before, M.to_dense()):
        raise Violation(f"{what}: matrix was modified", key="modified")
    rec.nontrivial = dim >= 2 and absmax > 0


def judge(got, want, tol, name, rec):
    rec.count("values_judged")
    value = float(got)
    if not abs(value - want) <= tol + 1e-30:
        raise Violation(f"{name} is {value:.8g}, expected {want:.8g}", key=name.split(": ")[1])
