"""Arithmetic of structured matrices agrees with dense matrices."""

import torch

from vlib import structs
from vlib.core import Violation

ID = "C21"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: random straight-line programs of structured operations shadowed by "
    "dense float64 arithmetic, every intermediate result compared"
)
RULE = (
    "A random structure (shipped, random block size or hierarchy, random recursive "
    "composition), dimension 1-320, 1-700 columns, and parts (normal, integer, sparse, negative; arbitrary "
    "memory layout), and a random program of 4-10 operations on a pool of matrices. "
    "Non-trivial: the dimension is at least two and three operations were judged."
)
ASSUMPTIONS = [
    "float32 entries (float64 for dense and diagonal), error bound relative to the "
    "products of absolute values",
]
MIN = {"operations_judged": 3000, "recursive_cases": 100}

OPS = ["add", "sub", "mul", "matmul", "tensor", "rmatmat", "add_", "mul_", "vec"]


def cases(rng, tier):
    n = 9000 if tier == "quick" else 40000
    out = []
    while len(out) < n:
        desc = structs.rand_desc(rng)
        dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, rng.randint(10, 70)])
        dim = structs.edge_dim(rng, desc, dim)
        big = rng.random() < 0.08
        if big:
            dim = rng.randint(65, 320)
        if not structs.valid_dim(desc, dim):
            continue
        f64 = desc in ("dense", "diagonal") and rng.random() < 0.5
        out.append(
            {
                "seed": rng.randrange(10**9),
                "desc": desc,
                "dim": dim,
                "dtype": "float64" if f64 else "float32",
                "kind": rng.choice(["normal", "normal", "int", "sparse", "negative"]),
                "cols": rng.choice([1, 1, 2, 5, 17, rng.randint(18, 700 if big else 150)]),
                "layout": rng.choice(["plain", "plain", "t", "strided"]),
                "ops": [
                    [
                        rng.choice(OPS),
                        rng.randrange(100),
                        rng.randrange(100),
                        rng.choice([-1.0, 0.0, 0.5, 2.0, 1.7, -0.3, 1]),
                    ]
                    for _ in range(rng.randint(4, 10))
                ],
            }
        )
    return out


def relayout(t, kind):
    """Same values, other memory layout."""
    if kind == "t" and t.ndim == 2:
        return t.T.contiguous().T
    if kind == "strided":
        big = torch.full(t.shape + (2,), 9.0, dtype=t.dtype)
        big[..., 0] = t
        return big[..., 0]
    return t


class Pool:
    """Structured matrices with dense shadows and error magnitudes."""

    def __init__(self, desc, dim, rand, eps):
        self.desc, self.eps = desc, eps
        self.cls = structs.make_cls(desc)
        self.items = []
        for _ in range(3):
            M, D = structs.member(desc, dim, rand)
            D = D.double()
            self.items.append([M, D, D.abs()])


def run(case, rec):
    dim, eps = case["dim"], torch.finfo(getattr(torch, case["dtype"])).eps
    dtype = getattr(torch, case["dtype"])
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, dtype, case["kind"])
    pool = Pool(case["desc"], dim, rand, eps)
    what = structs.label(case["desc"])
    rec.mark(what.split("[")[0])
    rec.count("recursive_cases", "rec" in str(structs.resolve(case["desc"])))
    for M, D, _ in pool.items:
        check(M.to_dense(), D, torch.zeros_like(D), 0.0, f"{what}: to_dense", "to_dense")
    judged = 0
    for op, i, j, alpha in case["ops"]:
        i, j = i % len(pool.items), j % len(pool.items)
        (A, DA, EA), (B, DB, EB) = pool.items[i], pool.items[j]
        if EA.max() > 1e6 or EB.max() > 1e6:  # keep the magnitudes moderate
            continue
        X = relayout(rand(dim, case["cols"]), case["layout"])
        new = None
        keep = [(M, M.to_dense().clone()) for M, _, _ in pool.items]
        if op == "add":
            new, want, mag = A + B, DA + DB, EA + EB
        elif op == "sub":
            new, want, mag = A + B * -1.0, DA - DB, EA + EB
        elif op == "mul":
            new, want, mag = A * alpha, DA * alpha, EA * abs(alpha)
        elif op == "matmul":
            new, want, mag = A @ B, DA @ DB, EA @ EB * 1.0
        elif op == "tensor":
            res, want, mag = A @ X, DA @ X.double(), EA @ X.double().abs()
        elif op == "rmatmat":
            res, want, mag = A.rmatmat(X), DA.T @ X.double(), EA.T @ X.double().abs()
        elif op == "vec":
            v = rand(dim, 1)
            res, want, mag = A @ v, DA @ v.double(), EA @ v.double().abs()
        elif op == "add_":
            if i == j:
                continue
            res = A.add_(B, alpha=alpha)
            want, mag = DA + alpha * DB, EA + abs(alpha) * EB
        elif op == "mul_":
            res = A.mul_(alpha)
            want, mag = DA * alpha, EA * abs(alpha)
        rec.count("operations_judged")
        judged += 1
        name = f"{what}, dim {dim}: {op}"
        if op in ("add_", "mul_"):
            if res is not A:
                raise Violation(f"{name} does not return the matrix itself", key=op)
            pool.items[i] = [A, want, mag]
            res = A.to_dense()
        elif new is not None:
            if type(new) is not pool.cls:
                raise Violation(f"{name} has type {type(new)}", key=op)
            res = new.to_dense()
            if not structs.in_class(case["desc"], res):
                raise Violation(f"{name} left the structure", key=op)
            pool.items.append([new, want, mag])
        elif not isinstance(res, torch.Tensor) or res.shape != want.shape:
            raise Violation(f"{name} has shape {tuple(res.shape)}", key=op)
        check(res, want, mag, 40 * eps * (dim + 4), name, op)
        for k, (M, dense) in enumerate(keep):
            if op in ("add_", "mul_") and k == i:
                continue
            if not torch.equal(M.to_dense(), dense):
                raise Violation(f"{name} modified another matrix", key="modified")
    rec.nontrivial = dim >= 2 and judged >= 3


def check(got, want, mag, rel, name, key):
    if got.shape != want.shape:
        raise Violation(f"{name}: shape {tuple(got.shape)}", key=key)
    if got.numel() == 0:
        return
    # errors of structured products are bounded by the largest magnitude (FFTs)
    tol = rel * mag.max().item()
    err = (got.double() - want).abs().max().item()
    if not err <= tol:
        raise Violation(f"{name}: error {err:.3e} > {tol:.3e}", key=key)
