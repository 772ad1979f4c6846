"""Complete, comparable views of optimizer and model state."""

import torch


def flatten(obj, path="", out=None):
    """Flatten nested state into ``path -> tensor clone / primitive / description``."""
    out = {} if out is None else out
    if isinstance(obj, torch.Tensor):
        out[path] = obj.detach().clone()
    elif isinstance(obj, dict):
        out[path + "#keys"] = sorted(map(str, obj))
        for k, v in obj.items():
            flatten(v, f"{path}/{k}", out)
    elif isinstance(obj, (list, tuple)):
        out[path + "#len"] = len(obj)
        for i, v in enumerate(obj):
            flatten(v, f"{path}/{i}", out)
    elif hasattr(obj, "to_dense") and hasattr(obj, "named_tensors"):
        out[path + "#class"] = type(obj).__name__
        for n, t in obj.named_tensors():
            flatten(t, f"{path}.{n}", out)
    elif callable(obj):
        out[path] = id(obj)
    else:
        out[path] = obj
    return out


def full(model, opt):
    return flatten({"model": model.state_dict(), "opt": opt.state_dict()})


def same(a, b):
    """Bit-identity (NaNs at the same place are the same)."""
    if isinstance(a, torch.Tensor) and isinstance(b, torch.Tensor):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if torch.equal(a, b):
            return True
        return torch.equal(torch.isnan(a), torch.isnan(b)) and torch.equal(
            torch.nan_to_num(a), torch.nan_to_num(b)
        )
    if isinstance(a, torch.Tensor) or isinstance(b, torch.Tensor):
        return False
    return a == b or (a != a and b != b)


def diff(a, b, ignore=()):
    """Paths that differ."""
    bad = []
    for k in sorted(set(a) | set(b)):
        if any(s in k for s in ignore):
            continue
        if k not in a or k not in b or not same(a[k], b[k]):
            bad.append(k)
    return bad
