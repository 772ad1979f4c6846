"""Structured matrix classes (shipped and user-defined), specified densely.

A descriptor is JSON-able: ``"dense"``, ``"diagonal"``, ``"tril"``, ``"triu"`` (Toeplitz),
``{"block": b}``, ``{"hier": [k1, k2]}``, ``{"rec": "tr" | "bl", "max": [a, c], "A": ...,
"C": ...}`` (``None`` in ``max`` is infinity), or ``{"shipped": name}``.
"""

import torch

from vlib import ref

SHIPPED = {
    "TrilBottomRightDiagonalMatrix": (
        "trilbottomrightdiag",
        {"rec": "bl", "max": [1, None], "A": "dense", "C": "diagonal"},
    ),
    "TrilTopLeftDiagonalMatrix": (
        "triltopleftdiag",
        {"rec": "bl", "max": [None, 1], "A": "diagonal", "C": "dense"},
    ),
    "TriuBottomRightDiagonalMatrix": (
        "triubottomrightdiag",
        {"rec": "tr", "max": [1, None], "A": "dense", "C": "diagonal"},
    ),
    "TriuTopLeftDiagonalMatrix": (
        "triutopleftdiag",
        {"rec": "tr", "max": [None, 1], "A": "diagonal", "C": "dense"},
    ),
    "Block30DiagonalMatrix": ("blockdiagonal", {"block": 30}),
    "Hierarchical15_15Matrix": ("hierarchical", {"hier": [15, 15]}),
    "Hierarchical3_2Matrix": ("hierarchical", {"hier": [3, 2]}),
}
_CACHE = {}


def rand_desc(rng, depth=2, shipped=True):
    r = rng.random()
    if shipped and r < 0.25:
        return {"shipped": rng.choice(sorted(SHIPPED))}
    kinds = ["dense", "diagonal", "tril", "triu", "block", "hier"]
    kind = rng.choice(kinds + (["rec", "rec"] if depth else []))
    if kind == "block":
        return {"block": rng.choice([1, 2, 3, 4, 5, 7, 30])}
    if kind == "hier":
        k = rng.randint(0, 5)
        return {"hier": [k, k if rng.random() < 0.25 else rng.randint(0, 5)]}
    if kind == "rec":
        m = rng.randint(0 if depth < 2 else 1, 5)
        return {
            "rec": rng.choice(["tr", "bl"]),
            "max": rng.choice([[m, None], [None, m]]),
            "A": rand_desc(rng, depth - 1, shipped=False),
            "C": rand_desc(rng, depth - 1, shipped=False),
        }
    return kind


def edge_dim(rng, desc, dim):
    """Sometimes replace a dimension by one at which a part appears or is full."""
    if rng.random() > 0.25:
        return dim
    desc = resolve(desc)
    if isinstance(desc, str):
        return dim
    if "block" in desc:
        edges = [desc["block"] * k + d for k in (1, 2) for d in (-1, 0, 1)]
    elif "hier" in desc:
        k1, k2 = desc["hier"]
        edges = [e + d for e in (k1, k1 + k2) for d in (-1, 0, 1)]
    elif "rec" in desc:
        m = next(d for d in desc["max"] if d is not None)
        edges = [m, m + 1, m + edge_dim(rng, rng.choice([desc["A"], desc["C"]]), 3)]
    else:
        return dim
    return max(1, rng.choice(edges))


def resolve(desc):
    return SHIPPED[desc["shipped"]][1] if isinstance(desc, dict) and "shipped" in desc else desc


def label(desc):
    if isinstance(desc, str):
        return desc
    if "shipped" in desc:
        return desc["shipped"]
    if "rec" in desc:
        return f"{desc['rec']}{desc['max']}({label(desc['A'])},{label(desc['C'])})"
    return str(desc)


def make_cls(desc):
    """The class described by a descriptor."""
    import importlib

    key = repr(desc)
    if key in _CACHE:
        return _CACHE[key]
    m = importlib.import_module

    def get(mod, name):
        return getattr(m(f"singd.structures.{mod}"), name)

    if isinstance(desc, dict) and "shipped" in desc:
        cls = get(SHIPPED[desc["shipped"]][0], desc["shipped"])
    elif desc == "dense":
        cls = get("dense", "DenseMatrix")
    elif desc == "diagonal":
        cls = get("diagonal", "DiagonalMatrix")
    elif desc == "tril":
        cls = get("triltoeplitz", "TrilToeplitzMatrix")
    elif desc == "triu":
        cls = get("triutoeplitz", "TriuToeplitzMatrix")
    elif "block" in desc:
        cls = type(
            f"Block{desc['block']}",
            (get("blockdiagonal", "BlockDiagonalMatrixTemplate"),),
            {"BLOCK_DIM": desc["block"]},
        )
    elif "hier" in desc:
        cls = type(
            "Hier",
            (get("hierarchical", "HierarchicalMatrixTemplate"),),
            {"MAX_K1": desc["hier"][0], "MAX_K2": desc["hier"][1]},
        )
    else:
        base = {
            "tr": "RecursiveTopRightMatrixTemplate",
            "bl": "RecursiveBottomLeftMatrixTemplate",
        }[desc["rec"]]
        cls = type(
            "Rec",
            (get("recursive", base),),
            {
                "MAX_DIMS": tuple(
                    float("inf") if d is None else d for d in desc["max"]
                ),
                "CLS_A": make_cls(desc["A"]),
                "CLS_C": make_cls(desc["C"]),
            },
        )
    _CACHE[key] = cls
    return cls


def split(desc, n):
    a, c = desc["max"]
    return min(a, n) if c is None else max(0, n - c)


def mixes_types(desc):
    """Structures whose transposed products accept tensors of other types."""
    desc = resolve(desc)
    return desc in ("tril", "triu") or (
        isinstance(desc, dict) and "block" in desc
    )


def has_toeplitz(desc):
    desc = resolve(desc)
    if desc in ("tril", "triu"):
        return True
    return isinstance(desc, dict) and "rec" in desc and (
        has_toeplitz(desc["A"]) or has_toeplitz(desc["C"])
    )


def valid_dim(desc, n):
    """Toeplitz matrices need at least dimension one."""
    desc = resolve(desc)
    if desc in ("tril", "triu"):
        return n >= 1
    if isinstance(desc, dict) and "rec" in desc:
        k = split(desc, n)
        return valid_dim(desc["A"], k) and valid_dim(desc["C"], n - k)
    return True


def member(desc, n, rand):
    """Build a member by the documented constructors.

    ``rand(*shape)`` draws the parts. Returns the structured matrix and, independently,
    its dense form.
    """
    cls, desc = make_cls(desc), resolve(desc)
    if desc == "dense":
        M = rand(n, n)
        return cls(M.clone()), M
    if desc == "diagonal":
        d = rand(n)
        D = torch.zeros(n, n, dtype=d.dtype)
        D[range(n), range(n)] = d
        return cls(d.clone()), D
    if desc in ("tril", "triu"):
        d = rand(n)
        offset = torch.arange(n).reshape(-1, 1) - torch.arange(n)
        D = torch.where(offset >= 0, d[offset.clamp(min=0)], torch.zeros((), dtype=d.dtype))
        return cls(d.clone()), D if desc == "tril" else D.T.contiguous()
    if "block" in desc:
        b = desc["block"]
        num, last = divmod(n, b)
        blocks, end = rand(num, b, b), rand(last, last)
        D = torch.zeros(n, n, dtype=end.dtype)
        for i in range(num):
            D[i * b : (i + 1) * b, i * b : (i + 1) * b] = blocks[i]
        D[num * b :, num * b :] = end
        return cls(blocks.clone(), end.clone()), D
    if "hier" in desc:
        k1, kd, k2 = ref.hier_dims(n, *desc["hier"])
        A, B, C, Dm, E = (
            rand(k1, k1),
            rand(k1, kd + k2),
            rand(kd),
            rand(k2, kd),
            rand(k2, k2),
        )
        D = torch.zeros(n, n, dtype=A.dtype)
        D[:k1, :k1], D[:k1, k1:] = A, B
        D[range(k1, k1 + kd), range(k1, k1 + kd)] = C
        D[k1 + kd :, k1 : k1 + kd], D[k1 + kd :, k1 + kd :] = Dm, E
        return cls(*(t.clone() for t in (A, B, C, Dm, E))), D
    k = split(desc, n)
    A, DA = member(desc["A"], k, rand)
    C, DC = member(desc["C"], n - k, rand)
    D = torch.zeros(n, n, dtype=DA.dtype if k else DC.dtype)
    D[:k, :k], D[k:, k:] = DA, DC
    if desc["rec"] == "tr":
        B = rand(k, n - k)
        D[:k, k:] = B
    else:
        B = rand(n - k, k)
        D[k:, :k] = B
    return cls(A, B.clone(), C), D


def project(desc, M):
    """Documented projection of a symmetric dense matrix."""
    desc, n = resolve(desc), M.shape[0]
    if desc == "tril":
        return ref.project("triltoeplitz", M)
    if desc == "triu":
        return ref.project("triutoeplitz", M)
    if isinstance(desc, str):
        return ref.project(desc, M)
    if "block" in desc:
        return ref.project_block(M, desc["block"])
    if "hier" in desc:
        return ref.project_hier(M, *desc["hier"])
    k = split(desc, n)
    out = torch.zeros_like(M)
    out[:k, :k] = project(desc["A"], M[:k, :k])
    out[k:, k:] = project(desc["C"], M[k:, k:])
    if desc["rec"] == "tr":
        out[:k, k:] = 2 * M[:k, k:]
    else:
        out[k:, :k] = 2 * M[k:, :k]
    return out


def numel(desc, n):
    """Number of entries a structure has to store."""
    desc = resolve(desc)
    if desc == "dense":
        return n * n
    if isinstance(desc, str):
        return n
    if "block" in desc:
        num, last = divmod(n, desc["block"])
        return num * desc["block"] ** 2 + last**2
    if "hier" in desc:
        k1, kd, k2 = ref.hier_dims(n, *desc["hier"])
        return k1 * n + kd + kd * k2 + k2 * k2
    k = split(desc, n)
    return numel(desc["A"], k) + numel(desc["C"], n - k) + k * (n - k)


def in_class(desc, D, tol=0.0):
    """Whether a dense matrix has the pattern and sharing of the structure."""
    desc, n = resolve(desc), D.shape[0]
    if desc in ("tril", "triu"):
        return ref.in_class(desc + "toeplitz", D, tol)
    if isinstance(desc, dict) and "rec" in desc:
        k = split(desc, n)
        zero = D[k:, :k] if desc["rec"] == "tr" else D[:k, k:]
        return (
            (not zero.numel() or zero.abs().max() <= tol)
            and in_class(desc["A"], D[:k, :k], tol)
            and in_class(desc["C"], D[k:, k:], tol)
        )
    mask = project(desc, torch.ones(n, n, dtype=torch.float64)) != 0
    off = D[~mask]
    return not off.numel() or bool(off.abs().max() <= tol)


def rand_fn(gen, dtype, kind="normal"):
    """Source of random parts."""

    def rand(*shape):
        t = torch.randn(*shape, generator=gen, dtype=torch.float64)
        if kind == "int":
            t = (t * 2).round()
        elif kind == "sparse":
            t = t * (torch.rand(*shape, generator=gen) < 0.4)
        elif kind == "negative":
            t = -t.abs()
        elif kind == "positive":
            t = t.abs()
        elif kind == "small":
            t = t * 1e-3
        return t.to(dtype)

    return rand


def optimizer_desc(name):
    """Descriptor of a structure supported by the optimizer."""
    return {
        "dense": "dense",
        "diagonal": "diagonal",
        "block30diagonal": {"block": 30},
        "hierarchical15_15": {"hier": [15, 15]},
        "triltoeplitz": "tril",
        "triutoeplitz": "triu",
    }[name]
