"""Attaching the optimizer does not change what the model computes."""

import copy
import io

import torch
from torch.utils.checkpoint import checkpoint

from vlib import progs, state, traj
from vlib.core import Violation

ID = "C12"
LEVEL = "exploration"
TECHNIQUE = (
    "differential trace monitor: the same uses of a model with and without the optimizer "
    "are executed in lock step, all outputs, gradients, inputs, random states and errors "
    "compared bit-wise"
)
RULE = (
    "A random model (in-place activations, dropout, various layouts and precisions) and a "
    "random sequence of 3-8 kinds of use, with optimizer steps in between. Non-trivial: at "
    "least three different uses produced compared gradients."
)
ASSUMPTIONS = ["single-threaded CPU kernels are deterministic"]
MIN = {"uses": 2500, "tensors_compared": 20000, "gradients_compared": 5000}


def boundary_arch(rng):
    """Models whose layers have nothing to unfold, to average or to append.

    In such cases an operation of the statistics may return its argument, i.e. a tensor
    that belongs to the model.
    """

    def conv(c_in, c_out, k, g=1):
        return {
            "type": "conv", "c_in": c_in, "c_out": c_out, "k": [k, k], "s": [1, 1],
            "p": rng.choice([[0, 0], [0, 0], "valid", "same"]), "d": [1, 1], "g": g,
            "mode": "zeros", "bias": rng.random() < 0.3,
        }

    def linear(i, o):
        return {"type": "linear", "i": i, "o": o, "bias": rng.random() < 0.3}

    kind = rng.choice(["point", "point", "whole", "image", "linear", "tokens"])
    h, w = rng.randint(1, 4), rng.randint(1, 4)
    act = [{"type": "act", "act": rng.choice(progs.SMOOTH), "inplace": rng.random() < 0.4}]
    a, b, c = (rng.randint(1, 4) for _ in range(3))
    if kind == "point":  # 1x1 kernels
        layers = [conv(a, b, 1)] + rng.choice([[], act + [conv(b, c, 1)]])
        shape = [a, h, w]
    elif kind == "whole":  # one patch
        k = rng.randint(1, 3)
        layers, shape = [conv(a, b, k)], [a, k, k]
        layers[0]["p"] = [0, 0]
    elif kind == "image":  # 1x1 images and as many groups as channels
        layers, shape = [conv(a, a * b, 1, g=rng.choice([1, a]))], [a, 1, 1]
    elif kind == "linear":
        layers = [linear(a, b)] + rng.choice([[], act + [linear(b, c)]])
        shape = [a]
    else:
        layers, shape = [linear(a, b)], rng.choice([[1, a], [h, a], [1, 1, a]])
    return {"kind": "fcn", "shape": shape, "layers": layers, "nested": False}


def cases(rng, tier):
    n = 700 if tier == "quick" else 20000
    out = []
    for _ in range(n):
        dtype = rng.choice(["float32", "float32", "float64"])
        spec = progs.rand_spec(
            rng,
            dtype=dtype,
            steps=2,
            acts=progs.SMOOTH + progs.KINKY,
            T=rng.choice([1, 1, 2]),
        )
        if rng.random() < 0.25:
            spec["arch"] = boundary_arch(rng)
        traj.calm(spec)
        layers = spec["arch"]["layers"]
        if rng.random() < 0.4:  # consumes random numbers
            layers.insert(rng.randint(1, len(layers)), {"type": "dropout", "p": 0.4})
        uses = [rng.choice(sorted(set(USES) - FUNC)) for _ in range(rng.randint(3, 8))]
        for i in range(len(uses)):
            if rng.random() < 0.2:
                uses.insert(rng.randint(0, len(uses)), "step")
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "uses": uses,
                "xlayout": rng.choice(["plain", "plain", "t", "expand", "channels_last"]),
                "cast": rng.choice([None, None, None, "bfloat16"]),
                "subset": rng.random() < 0.3,
                "n": rng.choice([1, 1, 2, spec["n"] + 1, spec["n"] + 1, spec["n"] + 1]),
            }
        )
    for use in sorted(FUNC):
        spec = progs.rand_spec(rng.__class__(1), kind="mlp", groups=1, T=1)
        base = {"seed": 1, "spec": spec, "xlayout": "plain", "cast": None, "subset": False}
        out.append({**base, "uses": ["plain", "step", "plain", use], "probe": use})
    return out


# ----------------------------------------------------------------------------------
# uses of a model: each returns tensors that are compared
# ----------------------------------------------------------------------------------
def _loss(y):
    return (y.float() ** 2).mean() + y.float().sin().sum() * 0.1


def plain(model, x, k):
    y = model(x)
    _loss(y).backward()
    return [y]


def input_grad(model, x, k):
    x = x.clone().requires_grad_(True)
    y = model(x * 1.0)
    _loss(y).backward()
    return [y, x.grad]


def leaf_input(model, x, k):
    x = x.clone().requires_grad_(True)
    _loss(model(x)).backward()
    return [x.grad]


def retain(model, x, k):
    loss = _loss(model(x))
    loss.backward(retain_graph=True)
    loss.backward()
    return [loss]


def create_graph(model, x, k):
    loss = _loss(model(x))
    params = [p for p in model.parameters() if p.requires_grad]
    gs = torch.autograd.grad(loss, params, create_graph=True, allow_unused=True)
    sum((g**2).sum() for g in gs if g is not None).backward()
    return [g for g in gs if g is not None]


def hvp(model, x, k):
    x = x.clone().requires_grad_(True)
    (g,) = torch.autograd.grad(_loss(model(x)), x, create_graph=True)
    (h,) = torch.autograd.grad((g * g.detach().cos()).sum(), x, allow_unused=True)
    return [g] + ([] if h is None else [h])


def backward_create_graph(model, x, k):
    _loss(model(x)).backward(create_graph=True)
    return []


def autograd_grad(model, x, k):
    params = [p for p in model.parameters() if p.requires_grad]
    return list(torch.autograd.grad(_loss(model(x)), params[k % len(params) :]))


def checkpointed(model, x, k):
    y = checkpoint(model, x.clone().requires_grad_(True), use_reentrant=False)
    _loss(y).backward()
    return [y]


def checkpointed_reentrant(model, x, k):
    y = checkpoint(model, x.clone().requires_grad_(True), use_reentrant=True)
    _loss(y).backward()
    return [y]


def reuse(model, x, k):
    y = model(x) + 0.5 * model(x * 0.5)
    _loss(y).backward()
    return [y]


def reversed_backward(model, x, k):
    a, b = _loss(model(x)), _loss(model(x + 1))
    b.backward()
    a.backward()
    return [a, b]


def joint_backward(model, x, k):
    a, b = model(x), model(x + 1)
    torch.autograd.backward([a, b], [torch.ones_like(a), torch.ones_like(b) * 0.3])
    return [a, b]


def part_of_output(model, x, k):
    y = model(x)
    _loss(y[: 1 + k % y.shape[0]]).backward()
    return [y]


def discarded(model, x, k):
    y = model(x)
    return [y.detach()]


def no_grad(model, x, k):
    with torch.no_grad():
        return [model(x)]


def inference(model, x, k):
    with torch.inference_mode():
        return [model(x).clone()]


def evaluation(model, x, k):
    model.eval()
    y = model(x)
    _loss(y).backward()
    model.train()
    return [y]


def functional_call(model, x, k):
    params = {n: (p * 1.1).detach().requires_grad_() for n, p in model.named_parameters()}
    y = torch.func.functional_call(model, params, (x,))
    gs = torch.autograd.grad(_loss(y), list(params.values()), allow_unused=True)
    return [y] + [g for g in gs if g is not None]


def func_grad(model, x, k):
    params = {n: p.detach() for n, p in model.named_parameters()}

    def f(p):
        return _loss(torch.func.functional_call(model, p, (x,)))

    model.eval()
    gs = torch.func.grad(f)(params)
    model.train()
    return list(gs.values())


def per_sample_grads(model, x, k):
    params = {n: p.detach() for n, p in model.named_parameters()}

    def f(p, xi):
        return _loss(torch.func.functional_call(model, p, (xi.unsqueeze(0),)))

    model.eval()
    gs = torch.func.vmap(torch.func.grad(f), in_dims=(None, 0))(params, x)
    model.train()
    return list(gs.values())


def forward_ad(model, x, k):
    import torch.autograd.forward_ad as fw

    with fw.dual_level():
        y = model(fw.make_dual(x, torch.ones_like(x)))
        p, t = fw.unpack_dual(y)
        return [p.clone(), t.clone()]


def user_hooks(model, x, k):
    layers = [m for m in model.modules() if isinstance(m, (torch.nn.Linear, torch.nn.Conv2d))]
    layer = layers[k % len(layers)]
    seen = []
    handles = [
        layer.register_forward_pre_hook(lambda m, i: (i[0] * 1.5,)),
        layer.register_forward_hook(lambda m, i, o: o * 2.0),
        layer.register_full_backward_hook(lambda m, gi, go: seen.append(go[0].clone())),
    ]
    y = model(x)
    y.register_hook(lambda g: g * 0.5)
    y.retain_grad()
    _loss(y).backward()
    for h in handles:
        h.remove()
    return [y, y.grad] + seen


def output_hooks(model, x, k):
    """Hooks that observe the model's inner outputs."""
    seen = []
    handles = [
        m.register_forward_hook(lambda m, i, o: seen.append(o.detach().clone()))
        for m in model.modules()
    ]
    _loss(model(x)).backward()
    for h in handles:
        h.remove()
    return seen


def layer_calls(model, x, k):
    """Direct calls of a layer, also with keyword arguments or without a batch."""
    layers = [m for m in model.modules() if isinstance(m, (torch.nn.Linear, torch.nn.Conv2d))]
    layer, w = layers[k % len(layers)], layers[k % len(layers)].weight
    if isinstance(layer, torch.nn.Linear):
        shape = (w.shape[1],) if k % 2 else (2, 3, w.shape[1])
    else:
        shape = (w.shape[1] * layer.groups, 9, 9)
        shape = shape if k % 2 else (2,) + shape
    inp = torch.ones(shape, dtype=w.dtype) * 0.3
    y = layer(input=inp) if k % 3 else layer(inp)
    _loss(y).backward()
    return [y]


def deep_copy(model, x, k):
    c = copy.deepcopy(model)
    y = c(x)
    _loss(y).backward()
    return [y] + [p.grad for p in c.parameters() if p.grad is not None]


def pickled(model, x, k):
    f = io.BytesIO()
    torch.save(model, f)
    f.seek(0)
    c = torch.load(f, weights_only=False)
    y = c(x)
    _loss(y).backward()
    return [y] + [p.grad for p in c.parameters() if p.grad is not None]


def save_on_cpu(model, x, k):
    with torch.autograd.graph.save_on_cpu():
        y = model(x)
    _loss(y).backward()
    return [y]


def anomaly(model, x, k):
    with torch.autograd.detect_anomaly(check_nan=False):
        y = model(x)
        _loss(y).backward()
    return [y]


def empty_batch(model, x, k):
    y = model(x[:0])
    y.sum().backward()
    return [y]


def frozen(model, x, k):
    params = list(model.parameters())
    p = params[k % len(params)]
    p.requires_grad_(False)
    y = model(x.clone().requires_grad_(True))
    _loss(y).backward()
    p.requires_grad_(True)
    return [y]


def zero_grads(model, x, k):
    for p in model.parameters():
        p.grad = None if k % 2 else torch.zeros_like(p)
    return []


def vectorized(model, x, k):
    """Write parameters like ``torch.nn.utils.vector_to_parameters``."""
    params = list(model.parameters())
    vec = torch.nn.utils.parameters_to_vector(params).detach().clone()
    torch.nn.utils.vector_to_parameters(vec, params)
    return plain(model, x, k)


def traced(model, x, k):
    model.eval()
    f = torch.jit.trace(model, x, check_trace=False)
    y = f(x * 0.7)
    _loss(y).backward()
    model.train()
    return [y]


def fx_traced(model, x, k):
    y = torch.fx.symbolic_trace(model)(x)
    _loss(y).backward()
    return [y]


USES = {
    f.__name__: f
    for f in [
        plain,
        input_grad,
        leaf_input,
        retain,
        create_graph,
        hvp,
        backward_create_graph,
        autograd_grad,
        checkpointed,
        checkpointed_reentrant,
        reuse,
        reversed_backward,
        joint_backward,
        part_of_output,
        discarded,
        no_grad,
        inference,
        evaluation,
        functional_call,
        func_grad,
        per_sample_grads,
        forward_ad,
        user_hooks,
        output_hooks,
        layer_calls,
        deep_copy,
        pickled,
        save_on_cpu,
        anomaly,
        empty_batch,
        frozen,
        zero_grads,
        vectorized,
        traced,
        fx_traced,
    ]
}
FUNC = {"func_grad", "per_sample_grads"}  # known finding, see the probe
NO_CAST = {"traced", "fx_traced", "per_sample_grads", "func_grad", "forward_ad"}


def layout(x, kind):
    if kind == "t":
        return x.flip(0).transpose(0, -1).contiguous().transpose(0, -1)
    if kind == "expand":
        return x[:1].expand_as(x)
    if kind == "channels_last" and x.ndim == 4:
        return x.contiguous(memory_format=torch.channels_last)
    return x


def observe(name, model, x, k, seed, cast):
    """Execute a use and record everything it produced."""
    torch.manual_seed(seed)
    err, res = None, []
    cast = None if name in NO_CAST else cast
    try:
        with torch.autocast("cpu", dtype=torch.bfloat16, enabled=cast is not None):
            res = USES[name](model, x, k)
    except Exception as e:
        err = e
        model.train()
    return {
        "results": [r.detach().clone() for r in res],
        "grads": [
            None if p.grad is None else p.grad.detach().clone()
            for p in model.parameters()
        ],
        "rng": torch.get_rng_state(),
        "input": x.clone(),
        "state": {k: v.clone() for k, v in model.state_dict().items()},
        "flags": [m.training for m in model.modules()]
        + [p.requires_grad for p in model.parameters()]
        + [torch.is_grad_enabled()],
    }, err


def run(case, rec):
    spec = case["spec"]
    dtype = getattr(torch, spec["dtype"])
    ref_model, _ = progs.build_model(spec["arch"], spec["seed"], dtype=dtype)
    pristine = state.flatten(dict(ref_model.state_dict()))
    model, mods = progs.build_model(spec["arch"], spec["seed"], dtype=dtype)
    rng = torch.get_rng_state()
    if case["subset"]:
        from singd.optim.optimizer import SINGD

        layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
        kw = progs.to_kwargs(spec["hps"][0])
        opt = SINGD(model, params=list(layers[-1].parameters()), **kw)
    else:
        opt = progs.make_opt(spec, model, mods, style="groups")
    if not torch.equal(rng, torch.get_rng_state()):
        raise Violation("the constructor consumed random numbers", key="rng")
    if state.diff(pristine, state.flatten(dict(model.state_dict()))):
        raise Violation("the constructor changed the model", key="state")
    kinds = set()
    for i, name in enumerate(case["uses"]):
        if name == "step":
            step(opt, ref_model, model, rec)
            continue
        x0, x = [
            layout(
                progs.batch(spec, i, n=case.get("n", spec["n"] + 1), dtype=dtype)[0],
                case["xlayout"],
            )
            for _ in range(2)
        ]
        k = (case["seed"] >> i) % 100
        want, err0 = observe(name, ref_model, x0, k, i, case["cast"])
        got, err = observe(name, model, x, k, i, case["cast"])
        rec.count("uses")
        if (err is None) != (err0 is None):
            raise Violation(
                f"use {name!r} fails with {type(err).__name__}: {str(err)[:200]} (without "
                f"the optimizer: {type(err0).__name__} {str(err0)[:80]})",
                key="torch_func" if case.get("probe") else f"fails_{name}",
            )
        if err is not None:
            rec.count("uses_invalid_for_model")
            rec.mark(f"invalid:{name}")
            ref_model.zero_grad()
            model.zero_grad()
            continue
        rec.mark(name)
        for part in want:
            bad = state.diff(
                state.flatten(want[part], part), state.flatten(got[part], part)
            )
            rec.count("tensors_compared", len(state.flatten(want[part])))
            if bad:
                raise Violation(f"use {name!r}: {bad[:3]} differ", key=part)
        grads = sum(g is not None for g in want["grads"])
        rec.count("gradients_compared", grads)
        if grads:
            kinds.add(name)
    rec.nontrivial = len(kinds) >= 3


def step(opt, ref_model, model, rec):
    """Train, and give the other model the same parameters."""
    if all(p.grad is None or torch.isfinite(p.grad).all() for p in model.parameters()):
        opt.step()
        rec.count("steps")
    with torch.no_grad():
        for p, q in zip(ref_model.parameters(), model.parameters()):
            p.copy_(torch.nan_to_num(q).clamp(-10, 10))
            q.copy_(p)
    ref_model.zero_grad()
    model.zero_grad()
