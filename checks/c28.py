"""Malformed structured matrices are rejected."""

import torch

from vlib import structs
from vlib.core import Violation

ID = "C28"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: constructors, registrations and products of real classes called with "
    "random consistent and malformed parts; exceptions and represented matrices judged by "
    "an independent predicate of consistency"
)
RULE = (
    "A random block-diagonal, hierarchical or recursive class (shipped or user-defined) "
    "with consistent parts to which up to two random changes of shape or class are applied; "
    "names registered repeatedly; random dimension declarations; and products with random "
    "numbers of rows. Non-trivial: every case, both verdicts have to occur."
)
ASSUMPTIONS = ["rejected means that an exception is raised (ValueError by constructors)"]
MIN = {"accepted": 500, "rejected": 1500, "names_judged": 500, "declarations_judged": 300,
       "products_judged": 600}


def cases(rng, tier):
    n = 12000 if tier == "quick" else 80000
    out = []
    while len(out) < n:
        mode = rng.choice(["parts", "parts", "parts", "names", "declare", "multiply"])
        case = {"mode": mode, "seed": rng.randrange(10**6)}
        if mode in ("parts", "multiply"):
            desc = structs.rand_desc(rng)
            if mode == "parts" and isinstance(structs.resolve(desc), str):
                continue
            dim = rng.choice([1, 2, 3, 4, 5, 7, 9, rng.randint(8, 40)])
            dim = structs.edge_dim(rng, desc, dim)
            if not structs.valid_dim(desc, dim):
                continue
            case.update(desc=desc, dim=dim)
        if mode == "parts":
            case["changes"] = [
                [rng.randrange(10), rng.choice(CHANGES), rng.randrange(4)]
                for _ in range(rng.choice([0, 1, 1, 1, 2]))
            ]
            if rng.random() < 0.5:  # parts that fit together, of any size
                case["free"] = [rng.randint(0, 4) for _ in range(3)]
                case["changes"] = case["changes"][: rng.choice([0, 0, 0, 1])]
        elif mode == "multiply":
            case["rows"] = rng.choice([dim, dim + 1, dim - 1, 2 * dim, dim + 3, 2, 5])
            case["cols"] = rng.choice([1, 2, 6])
            if case["rows"] < 2 or (dim < 2 and case["rows"] != dim):
                continue
        elif mode == "names":
            case["first"] = rng.choice(NAMES)
            case["second"] = rng.choice(NAMES)
            case["kinds"] = [rng.choice(["tensor", "structure"]) for _ in range(2)]
            case["base"] = rng.choice(["tr", "bl", "plain"])
        else:
            case["max"] = [rng.choice(DIMS) for _ in range(rng.choice([2, 2, 2, 2, 1, 3]))]
            case["outer"] = rng.choice(["tr", "bl"])
            case["dim"] = rng.randint(1, 12)
            case["how"] = rng.choice(["from_dense", "eye", "zeros", "from_mat_inner"])
        out.append(case)
    return out


CHANGES = ["grow", "shrink", "transpose", "squeeze", "unsqueeze", "empty", "class", "dim"]
NAMES = ["A", "B", "_mat", "to_dense", "part", "_tensor_names", "named_tensors", "MAX_DIMS"]
DIMS = [0, 1, 3, 5, "inf", "inf", "inf", "2.0", "nan", "-inf", "text", "none", "7.5"]


def run(case, rec):
    rec.mark(case["mode"])
    rec.nontrivial = True
    {"parts": parts, "names": names, "declare": declare, "multiply": multiply}[
        case["mode"]
    ](case, rec)


# ----------------------------------------------------------------------------------
# constructors
# ----------------------------------------------------------------------------------
def change(t, kind, axis):
    """Change the shape of a tensor."""
    if kind == "unsqueeze":
        return t.unsqueeze(axis % (t.ndim + 1))
    if t.ndim == 0:
        return t
    axis %= t.ndim
    if kind == "grow":
        return torch.cat([t, t.new_full([1 if i == axis else s for i, s in enumerate(t.shape)], 2.0)], axis)
    if kind == "shrink":
        return t.narrow(axis, 0, max(0, t.shape[axis] - 1)).clone()
    if kind == "transpose":
        return t.mT.contiguous() if t.ndim >= 2 else t.flip(0)
    if kind == "squeeze":
        return t.reshape(-1) if t.ndim > 1 else t.reshape(-1, 1)
    if kind == "empty":
        return t.narrow(axis, 0, 0).clone()
    return t


def parts(case, rec):
    desc, n = structs.resolve(case["desc"]), case["dim"]
    cls = structs.make_cls(case["desc"])
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, torch.float32)
    if "free" in case:
        args, forms = free_pieces(desc, case["free"], rand)
        if args is None:
            return
    else:
        args, forms = pieces(desc, n, rand)
    for pos, kind, axis in case["changes"]:
        k = pos % len(args)
        if torch.is_tensor(args[k]):
            args[k] = change(args[k], kind, axis)
        else:  # a sub-structure
            sub = desc["A"] if k == 0 else desc["C"]
            if kind == "class":
                other = ["dense", "diagonal", "tril", {"block": 2}, {"hier": [1, 2]}]
                sub = other[axis]
                forms[k] = sub
            dim = forms_dim(args[k])
            if kind in ("grow", "dim"):
                dim += 1
            elif kind in ("shrink", "empty"):
                dim -= 1
            dim = max(dim, 0)
            if not structs.valid_dim(sub, dim):
                continue
            args[k] = structs.member(sub, dim, rand)[0]
    good = consistent(desc, cls, args)
    what = f"{structs.label(case['desc'])} of {[shape(a) for a in args]}"
    try:
        M = cls(*args)
    except ValueError:
        rec.count("rejected")
        if good:
            raise Violation(f"{what} is consistent but rejected", key="rejected")
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"{what}: {type(e).__name__} instead of ValueError", key="error")
    if not good:
        raise Violation(f"{what} is malformed but accepted", key="accepted")
    rec.count("accepted")
    want = assemble(desc, args)
    got = M.to_dense()
    if got.shape != want.shape or not torch.equal(got, want):
        raise Violation(f"{what} represents another matrix", key="represents")


def pieces(desc, n, rand):
    if "block" in desc:
        num, last = divmod(n, desc["block"])
        return [rand(num, desc["block"], desc["block"]), rand(last, last)], [None] * 2
    if "hier" in desc:
        from vlib import ref

        k1, kd, k2 = ref.hier_dims(n, *desc["hier"])
        return [rand(k1, k1), rand(k1, kd + k2), rand(kd), rand(k2, kd), rand(k2, k2)], [
            None
        ] * 5
    k = structs.split(desc, n)
    B = rand(k, n - k) if desc["rec"] == "tr" else rand(n - k, k)
    return [
        structs.member(desc["A"], k, rand)[0],
        B,
        structs.member(desc["C"], n - k, rand)[0],
    ], [desc["A"], None, desc["C"]]


def free_pieces(desc, free, rand):
    """Parts that fit together, but whose sizes may violate the declared limits."""
    r, s, t = free
    if "block" in desc:
        b = desc["block"] + (r == 4)
        last = max(0, desc["block"] + s - 3) if s < 4 else t
        return [rand(t, b, b), rand(last, last)], [None] * 2
    if "hier" in desc:
        k1, k2 = (max(0, m + d - 2) for m, d in zip(desc["hier"], (r, s)))
        return [rand(k1, k1), rand(k1, t + k2), rand(t), rand(k2, t), rand(k2, k2)], [
            None
        ] * 5
    a, c = (
        d if m is None else max(0, m + d - 2) for m, d in zip(desc["max"], (r, s))
    )
    for sub, d in [(desc["A"], a), (desc["C"], c)]:
        if not structs.valid_dim(sub, d):
            return None, None
    B = rand(a, c) if desc["rec"] == "tr" else rand(c, a)
    return [structs.member(desc["A"], a, rand)[0], B, structs.member(desc["C"], c, rand)[0]], [
        desc["A"], None, desc["C"]
    ]


def forms_dim(M):
    return M.to_dense().shape[0]


def shape(a):
    if torch.is_tensor(a):
        return tuple(a.shape)
    return f"{type(a).__name__} {forms_dim(a)}"


def consistent(desc, cls, args):
    if "block" in desc:
        b, (blocks, last) = desc["block"], args
        return (
            blocks.ndim == 3
            and blocks.shape[1] == blocks.shape[2] == b
            and last.ndim == 2
            and last.shape[0] == last.shape[1] < b
        )
    if "hier" in desc:
        if [a.ndim for a in args] != [2, 2, 1, 2, 2]:
            return False
        A, B, C, D, E = [tuple(a.shape) for a in args]
        return (
            A[0] == A[1] <= desc["hier"][0]
            and E[0] == E[1] <= desc["hier"][1]
            and B == (A[0], C[0] + E[0])
            and D == (E[0], C[0])
        )
    A, B, C = args
    if not isinstance(A, structs.make_cls(desc["A"])):
        return False
    if not isinstance(C, structs.make_cls(desc["C"])):
        return False
    dims = (forms_dim(A), forms_dim(C))
    if any(m is not None and d > m for d, m in zip(dims, desc["max"])):
        return False
    return tuple(B.shape) == (dims if desc["rec"] == "tr" else dims[::-1])


def assemble(desc, args):
    if "block" in desc:
        return torch.block_diag(*args[0], args[1]) if len(args[0]) else args[1].clone()
    if "hier" in desc:
        A, B, C, D, E = args
        k1, kd, k2 = len(A), len(C), len(E)
        out = torch.zeros(k1 + kd + k2, k1 + kd + k2)
        out[:k1, :k1], out[:k1, k1:] = A, B
        for i in range(kd):
            out[k1 + i, k1 + i] = C[i]
        out[k1 + kd :, k1 : k1 + kd], out[k1 + kd :, k1 + kd :] = D, E
        return out
    A, C = args[0].to_dense(), args[2].to_dense()
    k, n = len(A), len(A) + len(C)
    out = torch.zeros(n, n)
    out[:k, :k], out[k:, k:] = A, C
    if desc["rec"] == "tr":
        out[:k, k:] = args[1]
    else:
        out[k:, :k] = args[1]
    return out


# ----------------------------------------------------------------------------------
# names
# ----------------------------------------------------------------------------------
def names(case, rec):
    import importlib

    dense = structs.make_cls("dense")
    if case["base"] == "plain":
        base = importlib.import_module("singd.structures.base").StructuredMatrix

        class Named(base):
            def __init__(self):
                super().__init__()

            def to_dense(self):
                return torch.zeros(2, 2)

            @classmethod
            def from_dense(cls, sym_mat):
                return cls()

    else:
        rc = importlib.import_module("singd.structures.recursive")
        base = rc.RecursiveStructuredMatrix

        class Named(base):
            MAX_DIMS = (1, float("inf"))

            def to_dense(self):
                return torch.zeros(2, 2)

            @classmethod
            def from_dense(cls, sym_mat):
                return cls()

    M = Named()
    values = []
    for name, kind in zip([case["first"], case["second"]], case["kinds"]):
        taken = hasattr(M, name)
        if kind == "structure" and case["base"] != "plain":
            value, register = dense(torch.ones(2, 2)), M.register_substructure
        else:
            value, register = torch.ones(2, 2), M.register_tensor
        before = snapshot(M)
        old = getattr(M, name, None)
        rec.count("names_judged")
        try:
            register(value, name)
        except ValueError:
            if not taken:
                raise Violation(f"name {name!r} was free but rejected", key="names")
            if snapshot(M) != before or not same(getattr(M, name), old):
                raise Violation(f"rejected name {name!r} changed the matrix", key="names")
            continue
        if taken:
            raise Violation(f"name {name!r} was registered twice", key="names")
        if getattr(M, name) is not value:
            raise Violation(f"{name!r} is not what was registered", key="names")
        values.append((name, kind if case["base"] != "plain" else "tensor", value))
    want = sum(1 for _ in values)
    if len(list(M.named_tensors())) != want:
        raise Violation(f"{want} parts registered, others listed", key="names")
    listed = [t for _, t in M.named_tensors()]
    for _, kind, value in values:
        inner = value if kind == "tensor" else dict(value.named_tensors())["_mat"]
        if not any(t is inner for t in listed):
            raise Violation("a registered part is not listed", key="names")


def snapshot(M):
    return [(n, id(t)) for n, t in M.named_tensors()]


# ----------------------------------------------------------------------------------
# declarations
# ----------------------------------------------------------------------------------
def declare(case, rec):
    import importlib

    rc = importlib.import_module("singd.structures.recursive")
    value = {"inf": float("inf"), "2.0": 2.0, "nan": float("nan"), "-inf": -float("inf"),
             "text": "3", "none": None, "7.5": 7.5}
    dims = tuple(value.get(d, d) for d in case["max"])
    base = {
        "tr": rc.RecursiveTopRightMatrixTemplate, "bl": rc.RecursiveBottomLeftMatrixTemplate
    }[case["outer"]]
    cls = type(
        "Declared",
        (base,),
        {"MAX_DIMS": dims, "CLS_A": structs.make_cls("dense"),
         "CLS_C": structs.make_cls("diagonal"), "WARN_NAIVE": False},
    )
    good = len(dims) == 2 and sorted(
        "int" if isinstance(d, int) else "inf" if d == "inf" else "bad" for d in case["max"]
    ) == ["inf", "int"]
    n = case["dim"]
    gen = torch.Generator().manual_seed(case["seed"])
    X = torch.randn(n, 3, generator=gen, dtype=torch.float32)
    S = X @ X.T
    call = {
        "from_dense": lambda: cls.from_dense(S),
        "eye": lambda: cls.eye(n),
        "zeros": lambda: cls.zeros(n),
        "from_mat_inner": lambda: cls.from_mat_inner(X),
    }[case["how"]]
    rec.count("declarations_judged")
    try:
        M = call()
    except ValueError:
        if good:
            raise Violation(f"MAX_DIMS {dims} rejected", key="declare")
        rec.count("rejected")
        return
    except Exception as e:  # noqa: BLE001
        raise Violation(f"MAX_DIMS {dims}: {type(e).__name__}", key="declare")
    if not good:
        raise Violation(f"MAX_DIMS {dims} accepted", key="declare")
    desc = {
        "rec": case["outer"], "A": "dense", "C": "diagonal",
        "max": [None if d == "inf" else d for d in case["max"]],
    }
    want = structs.project(
        desc, {"eye": torch.eye(n), "zeros": torch.zeros(n, n)}.get(case["how"], S)
    )
    if (M.to_dense() - want).abs().max() > 1e-4:
        raise Violation(f"MAX_DIMS {dims}: {case['how']} has other values", key="declare")
    rec.count("accepted")


# ----------------------------------------------------------------------------------
# products
# ----------------------------------------------------------------------------------
def multiply(case, rec):
    desc, n, rows = case["desc"], case["dim"], case["rows"]
    gen = torch.Generator().manual_seed(case["seed"])
    rand = structs.rand_fn(gen, torch.float32)
    A, D = structs.member(desc, n, rand)
    X = rand(rows, case["cols"])
    S = X @ X.T
    for name, fn, want in [
        ("matmul", lambda: A @ X, lambda: D @ X),
        ("rmatmat", lambda: A.rmatmat(X), lambda: D.T @ X),
        ("from_inner", lambda: A.from_inner(X), None),
        ("from_inner2", lambda: A.from_inner2(S), None),
    ]:
        rec.count("products_judged")
        what = f"{name} of {structs.label(desc)}, dim {n}, and {rows} rows"
        before = A.to_dense().clone(), X.clone()
        try:
            res = fn()
        except Exception as e:  # noqa: BLE001
            if rows == n:
                raise Violation(f"{what} raised {type(e).__name__}", key="multiply")
            rec.count("rejected")
            if not (torch.equal(A.to_dense(), before[0]) and torch.equal(X, before[1])):
                raise Violation(f"failing {what} modified an operand", key="multiply")
            continue
        if rows != n:
            raise Violation(f"{what} was accepted", key="multiply")
        rec.count("accepted")
        if want is not None and (res - want()).abs().max() > 1e-3 * (1 + want().abs().max()):
            raise Violation(f"{what} is wrong", key="multiply")


def same(a, b):
    return a is b or (callable(a) and a == b)
