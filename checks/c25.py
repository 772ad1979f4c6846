"""Minimal user-defined structures behave like specialized ones."""

import copy
import warnings

import torch

from vlib import engine, progs, ref, structs, traj, userstructs, workload
from vlib.core import Violation

ID = "C25"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: operations of generated minimal structure classes shadowed by dense "
    "arithmetic and by the specialized classes, warnings recorded, and training with "
    "registered minimal classes monitored against the reference algorithm"
)
RULE = (
    "A random structure (shipped or recursive, lower triangular, circulant, shared "
    "blocks, permuted) as minimal class with dense, transposed (not contiguous), "
    "column-wise or parametrized storage. Modes: all operations; warnings with each "
    "switch, own and inherited; training with the class registered for one or both "
    "factors; minimal classes as blocks of recursive structures. Non-trivial: dimension "
    "two or more and ten judged values, or two judged training steps."
)
ASSUMPTIONS = [
    "user-defined structures are closed under addition and multiplication and store "
    "their distinct entries; conversions keep members that are not symmetric",
]
MIN = {"operations_judged": 5000, "warnings_judged": 1500, "precond_updates_judged": 400,
       "snapshots_compared": 200}


STYLES = ["vector", "vector", "dense", "transposed", "columns"]


def cases(rng, tier):
    n = 1800 if tier == "quick" else 25000
    out = []
    while len(out) < n:
        mode = rng.choice(["ops", "ops", "warn", "train", "twin", "nested"])
        case = {"seed": rng.randrange(10**6), "mode": mode,
                "style": rng.choice(STYLES)}
        if mode in ("ops", "warn", "nested"):
            desc = userstructs.rand_user_desc(rng)
            dim = rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 12, rng.randint(10, 40)])
            dim = structs.edge_dim(rng, desc, dim)
            if not userstructs.valid_dim(desc, dim):
                continue
            case.update(
                desc=desc, dim=dim, cols=rng.choice([1, 2, 5, 17]),
                kind=rng.choice(["normal", "normal", "int", "sparse", "negative"]),
                dtype=rng.choice(["float32", "float64"]),
            )
            if mode == "nested":
                case["outer"] = rng.choice(["tr", "bl"])
                case["slots"] = rng.choice([[1, 0], [0, 1], [1, 1]])
                case["k"] = rng.randint(0, dim)
                case["inf"] = rng.randrange(2)
        elif mode == "twin":
            dtype = rng.choice(["float32", "float32", "float64"])
            spec = progs.rand_spec(rng, dtype=dtype, wide=rng.random() < 0.1)
            case["spec"] = traj.calm(spec)
            case["seed"] = spec["seed"]
        else:
            spec = progs.rand_spec(rng, dtype="float64")
            case["spec"] = traj.calm(spec)
            case["seed"] = spec["seed"]
            case["hist"] = workload.rand_history(rng, spec, mutate=False, distract=False)
            case["users"] = [userstructs.rand_user_desc(rng) for _ in range(2)]
            case["which"] = rng.choice([[1, 0], [0, 1], [1, 1]])
        out.append(case)
    return out


def run(case, rec):
    rec.mark(case["mode"])
    {"ops": ops, "warn": warn, "train": train, "twin": twin, "nested": nested}[
        case["mode"]
    ](case, rec)


def check(got, want, mag, rel, name, key):
    if not isinstance(got, torch.Tensor) or got.shape != want.shape:
        raise Violation(f"{name}: wrong shape", key=key)
    tol = rel * max(mag.max().item(), 1e-30) if mag.numel() else 0.0
    err = (got.double() - want).abs().max().item() if want.numel() else 0.0
    if not err <= tol:
        raise Violation(f"{name}: error {err:.3e} > {tol:.3e}", key=key)


def operations(cls, conv, proj, A, DA, B, DB, X, XXT, n):
    """All operations: name, how to execute it, expected dense value, magnitude."""
    eye = torch.eye(n, dtype=torch.float64)
    Xd, S = X.double(), XXT.double()
    aA, aB, aX = DA.abs(), DB.abs(), Xd.abs()
    T = DA.T @ Xd
    return [
        ("to_dense", lambda: A, DA, aA),
        ("__matmul__", lambda: A @ B, DA @ DB, aA @ aB),
        ("__matmul__", lambda: A @ X, DA @ Xd, aA @ aX),
        ("rmatmat", lambda: A.rmatmat(X), T, aA.T @ aX),
        ("__mul__", lambda: A * -1.7, -1.7 * DA, 2 * aA),
        ("__add__", lambda: A + B, DA + DB, aA + aB),
        ("from_inner", lambda: A.from_inner(X), proj(T @ T.T), 4 * aA.T @ aX @ aX.T @ aA),
        ("from_inner", lambda: A.from_inner(), proj(DA.T @ DA), 4 * aA.T @ aA),
        ("from_inner2", lambda: A.from_inner2(XXT), proj(DA.T @ S @ DA),
         4 * aA.T @ S.abs() @ aA),
        ("from_mat_inner", lambda: cls.from_mat_inner(X), proj(Xd @ Xd.T), 4 * aX @ aX.T),
        ("from_dense", lambda: cls.from_dense(XXT), proj(S), 4 * S.abs()),
        ("average_trace", lambda: A.average_trace(), DA.diag().mean(), aA),
        ("frobenius_norm", lambda: A.frobenius_norm(), DA.norm(), aA * n),
        ("infinity_vector_norm", lambda: A.infinity_vector_norm(), aA.max(), aA),
        ("zeros", lambda: cls.zeros(n, dtype=X.dtype), 0 * eye, eye),
        ("eye", lambda: cls.eye(n, dtype=X.dtype), eye, eye),
        ("add_", lambda: conv(DA).add_(B, alpha=-0.4), DA - 0.4 * DB, aA + aB),
        ("mul_", lambda: conv(DA).mul_(2.5), 2.5 * DA, 3 * aA),
        ("diag_add_", lambda: conv(DA).diag_add_(0.3), DA + 0.3 * eye, aA + eye),
    ]


def setup(case, cls, desc):
    n, dtype = case["dim"], getattr(torch, case["dtype"])
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, dtype, case["kind"])
    DA, DB = (userstructs.member(desc, n, rand).double() for _ in range(2))

    def conv(D):
        return cls.from_dense(D.to(dtype, copy=True))

    X = rand(n, case["cols"])
    XXT = X @ X.T
    XXT = (XXT + XXT.T) / 2
    # conversions may round (for instance averages of equal numbers)
    A, B = conv(DA), conv(DB)
    return n, dtype, conv, A, DA, B, DB, X, XXT


def ops(case, rec):
    desc = case["desc"]
    cls = userstructs.make_cls(desc, case["style"])
    n, dtype, conv, A, DA, B, DB, X, XXT = setup(case, cls, desc)
    rel = 60 * torch.finfo(dtype).eps * (n + case["cols"] + 4)
    proj = lambda M: userstructs.project(desc, (M + M.T) / 2)  # noqa: E731
    for name, fn, want, mag in operations(
        cls, conv, proj, A, DA, B, DB, X, XXT, n
    ):
        judge(rec, desc, cls, name, fn(), want, mag, rel)
    # classes of the package for the same structure agree
    if "user" not in str(desc) and dtype == torch.float32:
        special = structs.make_cls(desc)
        SA, SB = special.from_dense(A.to_dense()), special.from_dense(B.to_dense())
        # extraction of non-symmetric members is exact for single-sided structures
        if torch.equal(SA.to_dense(), A.to_dense()):
            for name, fn, want, mag in operations(
                special, special.from_dense, proj, SA, DA, SB, DB, X, XXT, n
            ):
                if name in ("add_", "mul_", "diag_add_"):
                    continue
                judge(rec, desc, special, name, fn(), want, mag, rel)
            rec.count("specialized_compared")
    rec.nontrivial = n >= 2


def judge(rec, desc, cls, name, res, want, mag, rel):
    what = f"{desc}: {name}"
    if name in ("average_trace", "frobenius_norm", "infinity_vector_norm"):
        res = torch.as_tensor(res)
    elif not isinstance(res, torch.Tensor):
        if type(res) is not cls:
            raise Violation(f"{what} has type {type(res).__name__}", key="type")
        res = res.to_dense()
    rec.count("operations_judged")
    rec.mark(name)
    check(res, want, mag, rel, what, name)


NAIVE = ["__matmul__", "__mul__", "__add__", "rmatmat", "from_inner", "from_mat_inner",
         "from_inner2", "average_trace", "diag_add_", "frobenius_norm", "zeros", "eye"]


def warn(case, rec):
    """Naive operations warn unless that is disabled."""
    desc = case["desc"]
    variants = [
        (userstructs.make_cls(desc, name="Loud"), True),
        (userstructs.make_cls(desc, warn=False, name="Silent"), False),
        (userstructs.make_cls(desc, exceptions=NAIVE, name="Excepted"), False),
    ]
    one = NAIVE[case["seed"] % len(NAIVE)]
    variants.append((userstructs.make_cls(desc, exceptions=[one], name="One"), one))
    # settings are inherited, and can be overridden again
    for cls, loud in list(variants):
        variants.append((type("Derived" + cls.__name__, (cls,), {}), loud))
    silent = variants[1][0]
    variants.append((type("LoudAgain", (silent,), {"WARN_NAIVE": True}), True))
    for cls, loud in variants:
        n, dtype, conv, A, DA, B, DB, X, XXT = setup(case, cls, desc)
        for name, fn, _, _ in operations(
            cls, conv, lambda M: M, A, DA, B, DB, X, XXT, n
        ):
            due = name in NAIVE and loud is not False and loud != name
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                fn()
            mine = [str(w.message) for w in caught if cls.__name__ in str(w.message)]
            # operations may use other naive ones
            direct = [m for m in mine if name in m]
            rec.count("warnings_judged")
            if due and not direct:
                raise Violation(f"{name} of a minimal class does not warn", key="warn")
            if (loud is False or name not in NAIVE) and mine:
                raise Violation(f"{name} warns: {mine[0][:80]}", key="silent")
            if loud == name and direct:
                raise Violation(f"{name} warns although excepted", key="excepted")
    rec.nontrivial = True


class Registered:
    """Temporarily supported structures."""

    def __init__(self, classes):
        from singd.optim.optimizer import SINGD

        self.table, self.classes = SINGD.SUPPORTED_STRUCTURES, classes

    def __enter__(self):
        self.table.update(self.classes)

    def __exit__(self, *_):
        for k in self.classes:
            self.table.pop(k)


def train(case, rec):
    """Training with user-defined structures follows the documented rule."""
    spec = copy.deepcopy(case["spec"])
    names = [f"user{k}" for k in range(2)]
    for hp in spec["hps"]:
        for k in range(2):
            if case["which"][k]:
                hp["structures"][k] = names[k]
    classes = {
        n: userstructs.make_cls(d, case["style"]) for n, d in zip(names, case["users"])
    }
    original = ref.project

    def project(name, M):
        if name in names:
            return userstructs.project(case["users"][names.index(name)], M)
        return original(name, M)

    ref.project = project
    try:
        with Registered(classes):
            mon = engine.Monitor(spec, rec, style="groups")
            workload.play(mon, case["hist"])
    finally:
        ref.project = original
    rec.nontrivial = rec.counts.get("precond_updates_judged", 0) >= 4


def twin(case, rec):
    """A minimal class trains like the specialized one."""
    spec = case["spec"]
    mine = copy.deepcopy(spec)
    used = {s for hp in spec["hps"] for s in hp["structures"]}
    for hp in mine["hps"]:
        hp["structures"] = ["my_" + s for s in hp["structures"]]
    classes = {
        "my_" + s: userstructs.make_cls(structs.optimizer_desc(s), case["style"])
        for s in used
    }
    a = traj.Run(spec)
    compared = 0
    with Registered(classes):
        b = traj.Run(mine)
        for t in range(spec["steps"]):
            x, ts = a.data()
            with torch.no_grad():
                shape = a.model(x.to(a.dtype)).shape
            tgt = a.target(shape, ts)
            for r in (a, b):
                r.backward(x, tgt)
                r.step()
            if not traj.judge(rec, b.snap(), a.snap(), traj.tolerance(spec), f"step {t}", "twin"):
                break
            compared += 1
    rec.nontrivial = compared >= 2


def nested(case, rec):
    """Minimal classes as blocks of recursive structures."""
    import importlib

    rc = importlib.import_module("singd.structures.recursive")
    desc, k, n = case["desc"], case["k"], case["dim"]
    inner = userstructs.make_cls(desc, case["style"])
    dense = structs.make_cls("dense")
    base = {
        "tr": rc.RecursiveTopRightMatrixTemplate, "bl": rc.RecursiveBottomLeftMatrixTemplate
    }[case["outer"]]
    inf = float("inf")
    cls = type(
        "Outer", (base,),
        {
            "MAX_DIMS": (k, inf) if case["inf"] else (inf, n - k),
            "CLS_A": inner if case["slots"][0] else dense,
            "CLS_C": inner if case["slots"][1] else dense,
        },
    )
    parts = [k, n - k]
    if any(s and not userstructs.valid_dim(desc, p) for s, p in zip(case["slots"], parts)):
        return
    if "perm" in str(desc) or "user" in str(desc):
        if any(s and p < 1 for s, p in zip(case["slots"], parts)):
            return

    def proj(M):
        out = torch.zeros_like(M)
        for (i, j), s in zip([(0, k), (k, n)], case["slots"]):
            blk = M[i:j, i:j]
            out[i:j, i:j] = userstructs.project(desc, blk) if s else blk
        both = M + M.T
        if case["outer"] == "tr":
            out[:k, k:] = both[:k, k:]
        else:
            out[k:, :k] = both[k:, :k]
        return out

    dtype = getattr(torch, case["dtype"])
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, dtype, case["kind"])
    DA, DB = (proj(rand(n, n)).double() for _ in range(2))

    def conv(D):
        return cls.from_dense(D.to(dtype, copy=True))

    X = rand(n, case["cols"])
    XXT = X @ X.T
    XXT = (XXT + XXT.T) / 2
    rel = 60 * torch.finfo(dtype).eps * (n + case["cols"] + 4)
    for name, fn, want, mag in operations(
        cls, conv, lambda M: proj((M + M.T) / 2), conv(DA), DA, conv(DB), DB, X, XXT, n
    ):
        judge(rec, f"{case['outer']}{parts}({desc})", cls, name, fn(), want, mag, rel)
    rec.nontrivial = n >= 2
