"""Training is inverse-free and never builds dense versions of sparse factors."""

import re

import torch
from torch import nn
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_leaves

from vlib import engine, progs, structs
from vlib.core import Violation

ID = "C16"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime operation monitor (TorchDispatchMode): every tensor operation executed by "
    "forward, backward and step, and the size of every allocated result, is checked"
)
RULE = (
    "One or two random layers (linear, weight-sharing, convolution) with one large "
    "dimension, random structures, types and settings, and 2-6 steps. Every operation is "
    "checked against a list of inversions, solves and decompositions, and every result "
    "of non-dense structures against half the squared dimension. Non-trivial: sizes "
    "were judged for a non-dense structure, or operations for a dense one. In addition, "
    "every operation of the non-dense structures (products, sums, scaling, traces, norms, "
    "projections) is monitored in isolation on a large random matrix."
)
ASSUMPTIONS = [
    "operations are observed at the dispatcher (all of PyTorch's tensor operations)",
    "Toeplitz structures are exempt while the pre-conditioner is updated",
]
MIN = {"operations": 50000, "results_sized": 20000, "updates_sized": 100, "structured_operations_sized": 1000}

BANNED = re.compile(
    r"aten\.(_?linalg_(inv|solve|cholesky|eig|svd|qr|lu|ldl|lstsq|pinv|det|slogdet|tensor"
    r"|householder|matrix_rank|cond)|inverse|pinverse|_?cholesky|_?lu_|lu_solve|_?eig|_?svd|"
    r"qr|geqrf|orgqr|ormqr|_?triangular_solve|_?solve|lstsq|_det|det\b|slogdet|logdet|"
    r"_symeig|symeig)"
)
SPARSE_SHIPPED = [
    "Block30DiagonalMatrix",
    "Hierarchical15_15Matrix",
    "Hierarchical3_2Matrix",
]
TOEPLITZ = ("triltoeplitz", "triutoeplitz")


def cases(rng, tier):
    n = 600 if tier == "quick" else 8000
    out = []
    for i in range(n):
        dtype = rng.choice(["float32", "float32", "float16", "bfloat16", "float64"])
        big = rng.choice(["in", "out"])
        dense = rng.random() < 0.2
        pre = [
            rng.choice([None, None, "float32", "bfloat16", "float16"]) for _ in range(2)
        ]
        if dtype == "float64":
            pre = [rng.choice(["float64", None]) for _ in range(2)]
        structs = progs.F64_STRUCTS if dtype == "float64" else progs.STRUCTS
        sparse = [s for s in structs if s != "dense"]
        hp = progs.rand_hp(rng, loss_average=rng.choice([None, "batch", "batch+sequence"]))
        names = [rng.choice(structs), rng.choice(structs)]
        k = 0 if big == "in" else 1
        names[k] = "dense" if dense else rng.choice(sparse)
        hp.update(structures=names, lr=1e-3, lr_cov=1e-3, preconditioner_dtype=pre)
        hp["T"] = rng.choice([1, 1, 2])
        out.append(
            {
                "seed": rng.randrange(10**6),
                "layer": rng.choice(["linear", "seq", "conv", "conv"]),
                "big": big,
                "dim": rng.randint(30, 90) if dense else rng.randint(450, 700),
                "small": rng.randint(1, 3),
                "n": rng.randint(1, 4),
                "bias": rng.random() < 0.5,
                "dtype": dtype,
                "hp": hp,
                "scale": rng.choice([1.0, 1.0, 4.0]),
                "steps": rng.randint(2, 6),
                "micro": rng.choice([1, 1, 2]),
            }
        )
        if rng.random() < 0.08:  # more rows than dimensions
            many = out[-1]
            many.update(layer="linear", bias=False, micro=1, steps=2, small=2)
            many["n"] = many["dim"] + rng.randint(20, 300)
    for i in range(n // 2):
        desc = rng.choice(
            ["diagonal", "tril", "triu"] * 2
            + [{"block": rng.choice([1, 3, 7, 30, 40])}]
            + [{"hier": [rng.randint(0, 20), rng.randint(0, 20)]}]
            + [{"shipped": rng.choice(SPARSE_SHIPPED)}]
        )
        dtype = rng.choice(["float32", "float32", "float64", "float16", "bfloat16"])
        if desc != "diagonal" and dtype == "float64":
            dtype = "float32"  # mixed-precision operations document half and single
        half = dtype in ("float16", "bfloat16")
        toep = desc in ("tril", "triu")
        out.append(
            {
                "kind": "ops",
                "seed": rng.randrange(10**6),
                "desc": desc,
                "dim": rng.randint(150, 220) if half and toep else rng.randint(300, 800),
                "cols": rng.randint(1, 6),
                "dtype": dtype,
                "value": rng.choice([0.0, 1.0, -0.5, 2.5]),
            }
        )
        if rng.random() < 0.06 and not half:  # many columns, possibly more than rows
            d = rng.randint(500, 1300)
            cols = rng.choice([rng.randint(30, d // 8 if toep else d // 3), d + rng.randint(1, 200)])
            out[-1].update(dim=d, cols=cols)
    return out


class Monitor(TorchDispatchMode):
    """Observe the operations and their results."""

    def __init__(self, many=0, dim=0):
        """Monitor new tensors.

        If there are data tensors with ``many`` (more than ``dim``) rows or columns, only
        tensors are judged that have two large dimensions which are no such data.
        """
        super().__init__()
        self.ops, self.largest, self.op = {}, 0, None
        self.sized, self.many, self.dim = 0, many, dim

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        out = func(*args, **(kwargs or {}))
        name = str(func)
        self.ops[name] = self.ops.get(name, 0) + 1
        given = {
            t.untyped_storage().data_ptr()
            for t in tree_leaves((args, kwargs))
            if isinstance(t, torch.Tensor)
        }
        for t in tree_leaves(out):
            if isinstance(t, torch.Tensor):
                self.sized += 1
                if t.numel() == 0 or t.untyped_storage().data_ptr() in given:
                    continue  # not allocated by this operation
                size = t.untyped_storage().nbytes() // t.element_size()
                if self.many:
                    sides = [s for s in t.shape if s >= self.dim // 2 and s != self.many]
                    if len(sides) < 2 and list(t.shape).count(self.many) < 2:
                        continue
                if size > self.largest:
                    self.largest, self.op = size, name
        return out


def build(case):
    """A layer with one large dimension, and its input."""
    torch.manual_seed(case["seed"])
    d, s, b = case["dim"], case["small"], case["bias"]
    if case["layer"] == "conv":
        if case["big"] == "in":
            c, k = d // 6, (2, 3)
            layer = nn.Conv2d(c, s, k, bias=b)
            x = torch.randn(case["n"], c, 3, 4)
        else:
            layer = nn.Conv2d(1, d, (1, s), bias=b)
            x = torch.randn(case["n"], 1, 2, 3)
    else:
        i, o = (d, s) if case["big"] == "in" else (s, d)
        layer = nn.Linear(i, o, bias=b)
        x = torch.randn(case["n"], *([2] if case["layer"] == "seq" else []), i)
    dtype = getattr(torch, case["dtype"])
    return layer.to(dtype), 0.1 * x.to(dtype)


def run_ops(case, rec):
    """Every structured operation in isolation."""
    cls = structs.make_cls(case["desc"])
    d, value, dtype = case["dim"], case["value"], getattr(torch, case["dtype"])
    limit = d**2 // 2
    torch.manual_seed(case["seed"])
    X = torch.randn(d, case["cols"]).to(dtype)

    def rand():
        M = cls.eye(d, dtype=dtype)
        for _, t in M.named_tensors():
            t.add_(0.1 * torch.randn(t.shape).to(dtype))
        return M

    A, B = rand(), rand()
    ops = {
        "eye": lambda: cls.eye(d, dtype=dtype),
        "zeros": lambda: cls.zeros(d, dtype=dtype),
        "A @ B": lambda: A @ B,
        "A @ tensor": lambda: A @ X,
        "A @ vector": lambda: A @ X[:, :1],
        "rmatmat": lambda: A.rmatmat(X),
        "A + B": lambda: A + B,
        "add_": lambda: A.add_(B, alpha=value),
        "A * value": lambda: A * value,
        "mul_": lambda: A.mul_(value),
        "average_trace": lambda: A.average_trace(),
        "diag_add_": lambda: A.diag_add_(value),
        "frobenius_norm": lambda: A.frobenius_norm(),
        "infinity_vector_norm": lambda: A.infinity_vector_norm(),
    }
    if case["desc"] not in ("tril", "triu"):
        ops["from_inner"] = lambda: A.from_inner()
        ops["from_inner(X)"] = lambda: A.from_inner(X)
    many = case["cols"] if case["cols"] > d else 0
    rec.mark(f"columns {'many' if case['cols'] > 6 else 'few'}")
    for name, op in ops.items():
        mode = Monitor(many, d)
        with mode:
            op()
        rec.count("structured_operations_sized")
        rec.count("operations", sum(mode.ops.values()))
        for o in mode.ops:
            rec.mark(o)
            if BANNED.match(o):
                raise Violation(f"{name} executes {o}", key="operation")
        if mode.largest >= limit:
            raise Violation(
                f"{name} of {structs.label(case['desc'])}: {mode.op} allocated "
                f"{mode.largest} entries although the dimension is {d}",
                key="size",
            )
    rec.mark(f"{structs.label(case['desc'])}/{case['dtype']}")
    rec.nontrivial = True


def run(case, rec):
    if case.get("kind") == "ops":
        return run_ops(case, rec)
    from singd.optim.optimizer import SINGD

    layer, x = build(case)
    model = nn.Sequential(layer)
    hp = case["hp"]
    opt = SINGD(model, **progs.to_kwargs(hp))
    k = 0 if case["big"] == "in" else 1
    name = hp["structures"][k]
    dim = layer.weight[0].numel() + case["bias"] if k == 0 else layer.weight.shape[0]
    limit = dim**2 // 2
    judged = 0
    for t in range(case["steps"]):
        update = t % hp["T"] == 0
        mode = Monitor(case["n"] if case["n"] > dim else 0, dim)
        with mode:
            for _ in range(case["micro"]):
                y = model(x)
                ((y.float() ** 2).mean() * case["scale"]).backward()
            if case["scale"] == 1.0:
                opt.step()
        if case["scale"] != 1.0:
            with mode:
                engine.emulate_scaler(opt, case["scale"], False)
        opt.zero_grad()
        rec.count("operations", sum(mode.ops.values()))
        for op in mode.ops:
            rec.mark(op)
            if BANNED.match(op):
                raise Violation(f"step {t}: operation {op} executed", key="operation")
        if name == "dense":
            judged += 1
            continue
        if name in TOEPLITZ and update:
            continue
        rec.count("results_sized", mode.sized)
        rec.count("updates_sized" if update else "other_steps_sized")
        judged += 1
        if mode.largest >= limit:
            raise Violation(
                f"step {t}: {mode.op} allocated {mode.largest} entries although the "
                f"{name} factor has dimension {dim}",
                key="size",
            )
        x = x * 0.9 + 0.01
    rec.nontrivial = judged > 0
