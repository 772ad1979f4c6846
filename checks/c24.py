"""In-place operations change exactly their target."""

import torch

from checks.c21 import check, relayout
from vlib import structs
from vlib.core import Violation

ID = "C24"
LEVEL = "exploration"
TECHNIQUE = (
    "history monitor: pools of live structured matrices and tensors under random "
    "operation sequences, every object compared with its shadow after every operation"
)
RULE = (
    "A random structure and dimension, and a random sequence of 8-20 creating, arithmetic "
    "and in-place operations on a pool of up to 8 live matrices and the tensors involved. "
    "Non-trivial: at least three in-place operations on matrices that were created by "
    "other operations."
)
ASSUMPTIONS = [
    "conversions from and to dense, and constructors, may keep references to tensors"
]
MIN = {"inplace_ops": 3000, "objects_compared": 20000}

CREATE = ["zeros", "eye", "add", "mul", "mul1", "matmul", "from_inner", "from_inner0",
          "from_mat_inner", "from_inner2", "tensor", "rmatmat", "scalar"]
INPLACE = ["add_", "add_self", "mul_", "diag_add_", "addm", "tensor_inplace"]
DTYPES = ["float32", "float32", "float64", "float16", "bfloat16", None]


def cases(rng, tier):
    n = 4000 if tier == "quick" else 25000
    out = []
    while len(out) < n:
        desc = structs.rand_desc(rng)
        dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, 31, rng.randint(10, 40)])
        dim = structs.edge_dim(rng, desc, dim)
        if rng.random() < 0.04:
            dim = rng.randint(40, 200)
        if not structs.valid_dim(desc, dim):
            continue
        out.append(
            {
                "seed": rng.randrange(10**9),
                "desc": desc,
                "dim": dim,
                "dt": rng.choice(DTYPES),
                "default": rng.choice(["float32", "float32", "float64"]),
                "ops": [
                    [
                        rng.choice(rng.choice([CREATE, INPLACE])),
                        rng.randrange(100),
                        rng.randrange(100),
                        rng.choice([-1.0, 0.0, 0.5, 2.0, 1.7, -0.3, 1]),
                    ]
                    for _ in range(rng.randint(8, 20))
                ],
            }
        )
    return out


def run(case, rec):
    dim = case["dim"]
    desc, cls = case["desc"], structs.make_cls(case["desc"])
    what = f"{structs.label(desc)}, dim {dim}"
    rec.mark(structs.label(desc).split("[")[0])
    creation(case, cls, what)
    if case["seed"] % 5 == 0:
        device(case, cls, what, rec)
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, torch.float32, "normal")
    eps = torch.finfo(torch.float32).eps
    # [object, shadow (exact copy of the dense form), origin]
    pool = []
    tensors = []

    def put(obj, origin):
        pool.append([obj, obj.to_dense().clone(), origin])
        if len(pool) > 8:
            pool.pop(0)

    for _ in range(2):
        put(structs.member(desc, dim, rand)[0], "parts")
    inplace = 0
    for op, i, j, alpha in case["ops"]:
        i, j = i % len(pool), j % len(pool)
        A, B = pool[i][0], pool[j][0]
        DA, DB = pool[i][1].double(), pool[j][1].double()
        if DA.abs().max() > 1e5 or DB.abs().max() > 1e5:
            put(structs.member(desc, dim, rand)[0], "parts")
            continue
        name = f"{what}: {op}"
        X = relayout(rand(dim, 3), "t" if i % 2 else "plain")
        tensors.append([X, X.clone()])
        tensors = tensors[-6:]
        new = None
        if op == "zeros":
            new = cls.zeros(dim)
        elif op == "eye":
            new = cls.eye(dim)
        elif op == "add":
            new = A + B
        elif op == "mul":
            new = A * alpha
        elif op == "mul1":
            new = A * 1.0
        elif op == "matmul":
            new = A @ B
        elif op == "from_inner":
            new = A.from_inner(X)
        elif op == "from_inner0":
            new = A.from_inner()
        elif op == "from_mat_inner":
            new = cls.from_mat_inner(X)
        elif op == "from_inner2":
            XXT = X @ X.T
            tensors.append([XXT, XXT.clone()])
            new = A.from_inner2(XXT)
        elif op in ("tensor", "rmatmat"):
            T = A @ X if op == "tensor" else A.rmatmat(X)
            tensors.append([T, T.clone()])
        elif op == "scalar":
            T = [A.average_trace, A.infinity_vector_norm, A.frobenius_norm][j % 3]()
            tensors.append([T, T.clone()])
        else:
            inplace += 1
            rec.count("inplace_ops")
            mag = DA.abs()
            if op == "tensor_inplace":  # modify a tensor that came out of an operation
                k = j % len(tensors)
                tensors[k][0].add_(1.5)
                tensors[k][1].add_(1.5)
            elif op == "add_self":
                res, want, mag = A.add_(A, alpha=alpha), DA * (1 + alpha), 2 * mag
            elif op in ("add_", "addm"):
                if i == j:
                    continue
                a = 1.0 if op == "addm" else alpha
                res = A.add_(B) if op == "addm" else A.add_(B, alpha=alpha)
                want, mag = DA + a * DB, mag + DB.abs() * abs(a)
            elif op == "mul_":
                res, want = A.mul_(alpha), DA * alpha
            else:
                res = A.diag_add_(alpha)
                want = DA + alpha * torch.eye(dim).double()
                mag = mag + abs(alpha)
            if op != "tensor_inplace":
                if res is not A:
                    raise Violation(f"{name} does not return the matrix itself", key=op)
                check(A.to_dense(), want, mag, (8 + dim) * eps, name, op)
                if not structs.in_class(desc, A.to_dense()):
                    raise Violation(f"{name} left the structure", key=op)
                pool[i][1] = A.to_dense().clone()
        if new is not None:
            put(new, op)
        for obj, shadow, origin in pool:
            rec.count("objects_compared")
            if not torch.equal(obj.to_dense(), shadow):
                raise Violation(f"{name} changed a matrix made by {origin}", key="alias")
        for t, shadow in tensors:
            rec.count("objects_compared")
            if not torch.equal(t, shadow):
                raise Violation(f"{name} changed a tensor", key="alias_tensor")
    rec.nontrivial = inplace >= 3


def creation(case, cls, what):
    """Zero and identity matrices have the requested size, type and device."""
    dim = case["dim"]
    torch.set_default_dtype(getattr(torch, case["default"]))
    try:
        dt = None if case["dt"] is None else getattr(torch, case["dt"])
        want = torch.get_default_dtype() if dt is None else dt
        for fn, dense in [("zeros", torch.zeros(dim, dim)), ("eye", torch.eye(dim))]:
            for kw in [dict(dtype=dt), dict(dtype=dt, device=torch.device("cpu"))]:
                M = getattr(cls, fn)(dim, **kw)
                got = M.to_dense()
                if type(M) is not cls or got.shape != dense.shape:
                    raise Violation(f"{what}: {fn} has a wrong shape", key=fn)
                if not torch.equal(got.double(), dense.double()):
                    raise Violation(f"{what}: {fn} has wrong entries", key=fn)
                types = {t.dtype for _, t in M.named_tensors()} | {got.dtype}
                if types != {want}:
                    raise Violation(f"{what}: {fn} has types {types}", key=fn)
                if {t.device.type for _, t in M.named_tensors()} != {"cpu"}:
                    raise Violation(f"{what}: {fn} is on a wrong device", key=fn)
    finally:
        torch.set_default_dtype(torch.float32)


def device(case, cls, what, rec):
    """Matrices and the results of operations are on the requested device.

    Uses the device ``meta``, on which tensors have no data, as second device.
    """
    dim, dev = case["dim"], torch.device("meta")
    for dt in (torch.float32, torch.bfloat16):
        A = cls.eye(dim, dtype=dt, device=dev)
        B = cls.zeros(dim, dtype=dt, device=dev)
        X = torch.empty(dim, 3, dtype=dt, device=dev)
        S = torch.empty(dim, dim, dtype=dt, device=dev)
        todo = {
            "eye": lambda: A,
            "zeros": lambda: B,
            "matmul": lambda: A @ B,
            "tensor": lambda: A @ X,
            "rmatmat": lambda: A.rmatmat(X),
            "add": lambda: A + B,
            "mul": lambda: A * 2.0,
            "add_": lambda: A.add_(B, alpha=0.5),
            "mul_": lambda: A.mul_(2.0),
            "diag_add_": lambda: A.diag_add_(1.0),
            "from_inner": lambda: A.from_inner(X),
            "from_inner()": lambda: A.from_inner(),
            "from_mat_inner": lambda: cls.from_mat_inner(X),
            "from_inner2": lambda: A.from_inner2(S),
            "from_dense": lambda: cls.from_dense(S),
            "average_trace": lambda: A.average_trace(),
            "frobenius_norm": lambda: A.frobenius_norm(),
        }
        for name, fn in todo.items():
            try:
                res = fn()
            except Exception as e:
                if "not on the expected device" in str(e):
                    raise Violation(f"{what}: {name} mixes devices", key="device") from e
                rec.count("devices_unjudged")  # values are needed, which do not exist
                continue
            if not isinstance(res, torch.Tensor):
                got = {t.device.type for _, t in res.named_tensors()}
                got |= {res.to_dense().device.type}
            else:
                got = {res.device.type}
            rec.count("devices_checked")
            if got != {"meta"}:
                raise Violation(f"{what}: {name} is on {got} instead of meta", key="device")
