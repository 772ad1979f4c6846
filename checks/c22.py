"""Projections onto structures have the documented values."""

import torch

from checks.c21 import check, relayout
from vlib import structs
from vlib.core import Violation

ID = "C22"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: every extraction method shadowed by an independent dense float64 "
    "projection, with metamorphic checks for linearity and agreement of the methods"
)
RULE = (
    "A random structure (shipped, random block size or hierarchy, random recursive "
    "composition), dimension 1-320, member K (non-symmetric), and argument X with 1-1200 "
    "columns of random values and memory layout; all extraction methods are judged. "
    "Non-trivial: the dimension is at least two."
)
ASSUMPTIONS = ["symmetric arguments for dense extraction", "X has at least one column"]
MIN = {"projections_judged": 4000, "recursive_cases": 100}


def cases(rng, tier):
    n = 8000 if tier == "quick" else 40000
    out = []
    while len(out) < n:
        desc = structs.rand_desc(rng)
        dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 30, 31, rng.randint(10, 70)])
        dim = structs.edge_dim(rng, desc, dim)
        big = rng.random() < 0.08
        if big:
            dim = rng.randint(65, 320)
        if not structs.valid_dim(desc, dim):
            continue
        cols = rng.choice([0, 1, 1, 2, 5, 17, rng.randint(1, 1200 if big else 300)])
        if rng.random() < 0.06:  # one more or less than the size of a chunk
            cols = 2 ** rng.randint(8, 13) * rng.choice([1, 1, 3]) + rng.choice([-1, 0, 1, 1])
            dim = min(dim, 40)
        f64 = desc in ("dense", "diagonal") and rng.random() < 0.5
        out.append(
            {
                "seed": rng.randrange(10**9),
                "desc": desc,
                "dim": dim,
                "dtype": "float64" if f64 else "float32",
                "kind": rng.choice(["normal", "normal", "int", "sparse", "negative"]),
                "cols": cols,
                # a column that dominates the others
                "spike": rng.choice(["first", "last", "any"]) if rng.random() < 0.4 else None,
                "layout": rng.choice(["plain", "t", "strided"]),
                "near_eye": rng.random() < 0.3,
            }
        )
    return out


def run(case, rec):
    dim, dtype = case["dim"], getattr(torch, case["dtype"])
    eps = torch.finfo(dtype).eps
    desc, cls = case["desc"], structs.make_cls(case["desc"])
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, dtype, case["kind"])
    what = f"{structs.label(desc)}, dim {dim}"
    rec.mark(structs.label(desc).split("[")[0])
    rec.count("recursive_cases", "rec" in str(structs.resolve(desc)))

    K, D = structs.member(desc, dim, rand)
    if case["near_eye"]:
        K = K.mul_(0.1).diag_add_(1.0)
        D = D * 0.1 + torch.eye(dim, dtype=dtype)
    D = D.double()
    X = rand(dim, case["cols"])
    if case["spike"] and case["cols"]:
        spike = {"first": 0, "last": -1}.get(case["spike"], case["seed"] % case["cols"])
        X[:, spike] *= 30
    X = relayout(X, case["layout"])
    Y = relayout(rand(dim, case["cols"]), case["layout"])
    XXT, YYT = X @ X.T, Y @ Y.T
    XXT, YYT = (XXT + XXT.T) / 2, (YYT + YYT.T) / 2
    Xd = X.double()
    S = D.T @ Xd
    absS = D.abs().T @ Xd.abs()
    inputs = [(X, X.clone()), (XXT, XXT.clone())]
    K_dense = K.to_dense().clone()
    # the rounding errors of long sums are random
    cols = case["cols"] if case["cols"] < 64 else 8 * case["cols"] ** 0.5
    rel = 60 * eps * (dim + cols + 4)
    XXTd = relayout(XXT, case["layout"])
    todo = [
        ("from_dense", lambda: cls.from_dense(XXTd), XXT.double(), XXT.double().abs()),
        ("from_mat_inner", lambda: cls.from_mat_inner(X), Xd @ Xd.T, Xd.abs() @ Xd.abs().T),
        ("from_inner", lambda: K.from_inner(X), S @ S.T, absS @ absS.T),
        ("from_inner()", lambda: K.from_inner(), D.T @ D, D.abs().T @ D.abs()),
        (
            "from_inner2",
            lambda: K.from_inner2(XXTd),
            D.T @ XXT.double() @ D,
            D.abs().T @ XXT.double().abs() @ D.abs(),
        ),
    ]
    for name, fn, full, mag in todo:
        res = fn()
        rec.count("projections_judged")
        full = (full + full.T) / 2
        want = structs.project(desc, full)
        if type(res) is not cls:
            raise Violation(f"{what}: {name} has type {type(res)}", key=name)
        dense = res.to_dense()
        check(dense, want, 2 * mag, rel, f"{what}: {name}", name)
        if not structs.in_class(desc, dense):
            raise Violation(f"{what}: {name} is not in the structure", key=name)
        if dense.dtype != dtype:
            raise Violation(f"{what}: {name} has type {dense.dtype}", key=name)
    for t, copy in inputs:
        if not torch.equal(t, copy):
            raise Violation(f"{what}: argument was modified", key="modified")
    if not torch.equal(K.to_dense(), K_dense):
        raise Violation(f"{what}: matrix was modified by an extraction", key="modified")
    # linearity
    a, b = 0.5, -2.0
    lin = cls.from_dense(a * XXT + b * YYT).to_dense().double()
    sep = a * cls.from_dense(XXT).to_dense().double()
    sep = sep + b * cls.from_dense(YYT).to_dense().double()
    check(lin, sep, 4 * (XXT.double().abs() + YYT.double().abs()), rel, what, "linear")
    rec.nontrivial = dim >= 2
