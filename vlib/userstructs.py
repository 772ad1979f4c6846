"""User-defined structures with nothing but conversions from and to dense matrices.

Descriptors: everything of ``vlib.structs`` plus ``{"user": kind, ...}`` with kinds
``lowertri``, ``scalar``, ``circulant``, ``shared`` (equal diagonal blocks) and ``perm``
(another structure in a permuted basis).
"""

import torch

from vlib import structs

_CACHE = {}


def rand_user_desc(rng, depth=1):
    kind = rng.choice(["lowertri", "scalar", "circulant", "shared", "perm", "perm", "same", "same", "same"])
    if kind == "same":
        return structs.rand_desc(rng)
    if kind == "shared":
        return {"user": "shared", "b": rng.randint(1, 4)}
    if kind == "perm":
        return {"user": "perm", "of": structs.rand_desc(rng), "seed": rng.randrange(1000)}
    return {"user": kind}


def valid_dim(desc, n):
    if isinstance(desc, dict) and "user" in desc:
        return n >= 1 and (desc["user"] != "perm" or structs.valid_dim(desc["of"], n))
    return structs.valid_dim(desc, n)


def _perm(desc, n):
    return torch.randperm(n, generator=torch.Generator().manual_seed(desc["seed"]))


def project(desc, M):
    """Projection that is the documented one for symmetric matrices.

    Members of the structure (which need not be symmetric) are kept.
    """
    desc, n = structs.resolve(desc), M.shape[0]
    kind = desc.get("user") if isinstance(desc, dict) else None
    if kind is None:
        return _sum_project(desc, M)
    if kind == "lowertri":
        return M.tril() + M.triu(1).T
    if kind == "scalar":
        return torch.eye(n, dtype=M.dtype) * M.diag().mean()
    if kind == "circulant":
        idx = (torch.arange(n)[:, None] - torch.arange(n)[None, :]) % n
        means = torch.stack([M[idx == k].mean() for k in range(n)])
        return means[idx]
    if kind == "shared":
        b = max(k for k in range(1, desc["b"] + 1) if n % k == 0)
        blocks = torch.stack([M[i : i + b, i : i + b] for i in range(0, n, b)])
        return torch.block_diag(*[blocks.mean(0)] * (n // b))
    p = _perm(desc, n)
    out = torch.zeros_like(M)
    out[p[:, None], p[None, :]] = project(desc["of"], M[p][:, p])
    return out


def _sum_project(desc, M):
    """Like ``structs.project`` but sums lower and upper parts instead of doubling."""
    n = M.shape[0]
    if desc in ("tril", "triu"):
        return structs.project(desc, M)
    if isinstance(desc, str) or "block" in desc:
        return structs.project(desc, M)
    sym = M + M.T  # off-diagonal blocks: sum of both
    if "hier" in desc:
        ones = torch.ones_like(M)
        factor = structs.project(desc, ones)
        return torch.where(factor == 2, sym, torch.where(factor == 1, M, 0 * M))
    k = structs.split(desc, n)
    out = torch.zeros_like(M)
    out[:k, :k] = project(desc["A"], M[:k, :k])
    out[k:, k:] = project(desc["C"], M[k:, k:])
    if desc["rec"] == "tr":
        out[:k, k:] = sym[:k, k:]
    else:
        out[k:, :k] = sym[k:, :k]
    return out


def member(desc, n, rand):
    """Random dense member."""
    return project(desc, rand(n, n))


def labels(desc, n):
    """Which entries share a parameter (``-1`` for zeros)."""
    key = repr(desc), n
    if key not in _CACHE:
        gen = torch.Generator().manual_seed(3)
        D = torch.randn(n, n, generator=gen, dtype=torch.float64)
        D = project(desc, D)
        flat = D.flatten()
        out = torch.full((n * n,), -1)
        # identify equal values up to rounding
        order = flat.argsort()
        label, last = -1, None
        for i in order.tolist():
            if flat[i] == 0:
                continue
            if last is None or abs(flat[i] - last) > 1e-12:
                label += 1
            last = flat[i]
            out[i] = label
        _CACHE[key] = out.reshape(n, n)
    return _CACHE[key]


def make_cls(desc, style="vector", warn=True, exceptions=(), name=None):
    """Minimal class: its constructor and both conversions."""
    from singd.structures.base import StructuredMatrix

    class User(StructuredMatrix):
        WARN_NAIVE = warn
        WARN_NAIVE_EXCEPTIONS = set(exceptions)

        def __init__(self, part, n):
            super().__init__()
            self.n = n
            if style == "columns":  # several tensors
                for i, col in enumerate(part):
                    self.register_tensor(col, f"col{i}")
            else:
                self.register_tensor(part, "part")

        @classmethod
        def from_dense(cls, sym_mat):
            n = sym_mat.shape[0]
            D = project(desc, sym_mat)
            if style == "dense":
                return cls(D.clone(), n)
            if style == "transposed":
                return cls(D.T.clone(memory_format=torch.contiguous_format), n)
            if style == "columns":
                return cls([D[:, i].clone() for i in range(n)] or [D.clone()], n)
            lab = labels(desc, n)
            num = int(lab.max()) + 1 if lab.numel() else 0
            part = torch.zeros(num, dtype=D.dtype, device=D.device)
            mask = lab >= 0
            part[lab[mask]] = D[mask]
            return cls(part, n)

        def to_dense(self):
            if style == "dense":
                return self.part.clone()
            if style == "transposed":  # not contiguous, shares memory
                return self.part.T
            if style == "columns":
                cols = [t for _, t in self.named_tensors()]
                return torch.stack(cols, dim=1) if self.n else cols[0].clone()
            lab = labels(desc, self.n)
            out = torch.zeros(self.n, self.n, dtype=self.part.dtype)
            mask = lab >= 0
            out[mask] = self.part[lab[mask]]
            return out

    User.__name__ = User.__qualname__ = name or "User"
    return User
