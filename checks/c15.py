"""Memory stays bounded by what the structures require."""

import collections
import copy
import gc
import math
import sys
import types
import weakref

import torch

from vlib import engine, progs, structs
from vlib.core import Violation

ID = "C15"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime resource monitor: storage sizes of the whole state after every event, live "
    "tensor and object census over repeated epochs, and weak references to inputs, activations, "
    "outputs and graphs"
)
RULE = (
    "A random model and configuration and an epoch of 4-10 random events (steps, "
    "micro-batches, discarded graphs, evaluation, skipped steps, repeated backward, "
    "check-pointing, copies) that is repeated 6 times. Non-trivial: at least 12 steps "
    "were executed and storages, references and the census were judged."
)
ASSUMPTIONS = [
    "a reference counts as released if it is after a garbage collection",
    "graphs the user still holds are not released",
]
MIN = {"storages_judged": 5000, "references_judged": 5000, "censuses": 200}

EVENTS = ["step", "step", "step", "micro", "discard", "eval", "skip", "retain", "save",
          "reload", "copy", "forward_twice"]


def cases(rng, tier):
    n = 260 if tier == "quick" else 6000
    out = []
    for _ in range(n):
        spec = progs.rand_spec(
            rng, dtype="float32", wide=rng.random() < 0.5, T=rng.choice([1, 1, 2, 3])
        )
        if rng.random() < 0.08:
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv", "batch", "micros"]))
        num = rng.randint(4, 10)
        if rng.random() < 0.3:
            events = [rng.choice(["step", "micro", "discard"]) for _ in range(num)]
        else:
            events = [rng.choice(EVENTS) for _ in range(num)]
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "events": events + ["step"],
                "epochs": 6 if tier == "quick" else rng.choice([6, 12, 30]),
                "none": rng.random() < 0.7,
                "xgrad": rng.random() < 0.3,
                "scale": rng.choice([1.0, 1.0, 8.0]),
                "low": rng.choice([None, None, "bfloat16"]),
            }
        )
    return out


def tensors_of(obj, seen=None):
    """All tensors inside a nested state."""
    if torch.is_tensor(obj):
        yield obj
    elif isinstance(obj, dict):
        for v in obj.values():
            yield from tensors_of(v)
    elif isinstance(obj, (list, tuple)):
        for v in obj:
            yield from tensors_of(v)
    elif hasattr(obj, "named_tensors"):
        for _, t in obj.named_tensors():
            yield t
    elif hasattr(obj, "__dict__"):
        yield from tensors_of(vars(obj))


def leaves(obj):
    if isinstance(obj, dict):
        return 1 + sum(leaves(v) for v in obj.values())
    if isinstance(obj, (list, tuple)):
        return 1 + sum(leaves(v) for v in obj)
    return 1


def nbytes(obj):
    stores = {}
    for t in tensors_of(obj):
        s = t.untyped_storage()
        stores[s.data_ptr() if s.nbytes() else id(s)] = s.nbytes()
    return sum(stores.values())


def census():
    """Number and bytes of all tensors that are alive."""
    gc.collect()
    count, stores = 0, {}
    for o in gc.get_objects():
        if issubclass(type(o), torch.Tensor):
            count += 1
            s = o.untyped_storage()
            stores[s.data_ptr() if s.nbytes() else -id(o)] = s.nbytes()
    return count, sum(stores.values())


def reach(*roots):
    """Number of entries of all containers that are reachable from the roots.

    Includes what the package's modules and classes hold.
    """
    own = [m for n, m in sys.modules.items() if n.split(".")[0] == "singd"]
    todo = [*roots, *(vars(m) for m in own)]
    seen, edges = {id(o) for o in todo}, 0
    while todo:
        o = todo.pop()
        if isinstance(o, types.FunctionType):
            refs = [o.__closure__, o.__defaults__, o.__dict__]
        else:
            getattr(o, "__dict__", None)  # attributes may be stored without a dictionary
            refs = gc.get_referents(o)
        if isinstance(o, (dict, list, set, collections.deque)):
            edges += len(refs)
        for r in refs:
            if id(r) in seen or isinstance(r, (types.ModuleType, Watch)) or r is None:
                continue
            if isinstance(r, type) and r.__module__.split(".")[0] != "singd":
                continue
            if type(r).__module__ in ("typing", "weakref", "_weakref"):
                continue
            seen.add(id(r))
            if gc.is_tracked(r):
                todo.append(r)
    return edges


class Watch:
    """Weak references to everything that a forward pass produces."""

    def __init__(self, model):
        self.refs = []
        self.on = False
        for m in model.modules():
            m.register_forward_hook(self.hook)

    def hook(self, module, inputs, output):
        if self.on:
            self.refs += [("an input", weakref.ref(t)) for t in inputs]
            self.add("an activation", output)

    def add(self, what, t):
        self.refs.append((what, weakref.ref(t)))
        if t.grad_fn is not None and self.on:
            # python objects attached to a graph live as long as it does
            token = Token()
            t.grad_fn.metadata["token"] = token
            self.refs.append((f"the graph of {what}", weakref.ref(token)))
            del token

    def judge(self, rec, when):
        alive = [w for w, r in self.refs if r() is not None]
        if alive:
            gc.collect()
            alive = [w for w, r in self.refs if r() is not None]
        rec.count("references_judged", len(self.refs))
        if alive:
            raise Violation(
                f"{when}: {alive[0]} is still referenced ({len(alive)} of "
                f"{len(self.refs)} objects)",
                key="references",
            )
        self.refs = []


class Token:
    pass


def run(case, rec):
    spec = case["spec"]
    if case["low"]:
        spec = copy.deepcopy(spec)
        for hp in spec["hps"]:
            hp["preconditioner_dtype"] = [case["low"], None]
    model, mods = progs.build_model(spec["arch"], spec["seed"])
    watch = Watch(model)
    for m in model.modules():
        if getattr(m, "inplace", False):
            m.inplace = False
    opt = progs.make_opt(spec, model, mods)
    layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
    names = progs.names_of(model, layers)
    bounds = allowed(spec, layers, names)
    trained = {id(p) for g in opt.param_groups for p in g["params"]}
    world = {"t": 0, "steps": 0, "since": 0}
    first, seen_leaves = None, []
    gc.collect()
    gc.freeze()
    try:
        for epoch in range(case["epochs"]):
            if not all(torch.isfinite(p).all() for p in model.parameters()):
                rec.count("truncated_programs")
                break
            for ev in case["events"]:
                event(case, spec, model, opt, watch, ev, world, rec)
                storages(spec, opt, bounds, trained, world, ev, rec)
            opt.zero_grad()
            seen_leaves.append(leaves(opt.state_dict()))
            if epoch == 1:
                first, edges = census(), reach(opt, model)
        if first is not None and epoch > 2:
            last = census()
            rec.count("censuses")
            if last[0] > first[0] or last[1] > first[1]:
                raise Violation(
                    f"live tensors grew from {first} to {last} (count, bytes) within "
                    f"{epoch - 1} epochs",
                    key="growth",
                )
            now = reach(opt, model)
            rec.count("reachability_judged")
            if now > edges:
                raise Violation(
                    f"what the optimizer and the model hold grew from {edges} to {now} "
                    f"entries within {epoch - 1} epochs",
                    key="growth",
                )
            if max(seen_leaves[2:]) > max(seen_leaves[:2]):
                raise Violation(f"state entries grew: {seen_leaves}", key="entries")
    finally:
        gc.unfreeze()
    rec.nontrivial = world["steps"] >= 12 and first is not None


def allowed(spec, layers, names):
    """Bytes that each factor needs."""
    out = {}
    for layer, name, hp in zip(layers, names, progs.layer_hps(spec)):
        dim_C, dim_K = layer.weight.shape[0], layer.weight[0].numel()
        dim_K += layer.bias is not None
        low = hp.get("preconditioner_dtype", [None, None])
        for k, dim in enumerate([dim_K, dim_C]):
            size = structs.numel(structs.optimizer_desc(hp["structures"][k]), dim)
            size *= 2 if low[k] else 4
            out[name, "KC"[k]] = (size, hp["alpha1"] != 0.0, hp["momentum"] != 0.0)
    return out


def storages(spec, opt, bounds, trained, world, ev, rec):
    sd = opt.state_dict()
    for (name, f), (size, has_m, _) in bounds.items():
        for key in (f"{f}s", f"m_{f}s", f"H_{f}s"):
            M = sd[key].get(name)
            rec.count("storages_judged")
            if M is None:
                continue
            if key[0] == "H" and world["since"] == 0 and nbytes(M):
                raise Violation(f"after {ev}: statistics of {name} kept", key="kept")
            if key[0] == "m" and not has_m:
                raise Violation(f"un-needed momentum {key} of {name}", key="momentum")
            if nbytes(M) > size:
                raise Violation(
                    f"after {ev}: {key} of {name} holds {nbytes(M)} bytes, its structure "
                    f"needs {size}",
                    key="storage",
                )
    for p, st in opt.state.items():
        size = nbytes(st)
        need = p.numel() * p.element_size()
        if id(p) not in trained or size > need + 64:
            raise Violation(
                f"after {ev}: state of a parameter holds {size} bytes, needs {need}",
                key="buffers",
            )
    total = nbytes(sd)
    limit = sum(
        s * (1 + m + (world["since"] > 0)) for s, m, _ in bounds.values()
    ) + sum(p.numel() * p.element_size() + 64 for g in opt.param_groups for p in g["params"])
    if total > limit:
        raise Violation(
            f"after {ev}: the state holds {total} bytes, at most {limit} are needed",
            key="total",
        )


def forward(case, spec, model, watch, world, grad=True):
    x, ts = progs.batch(spec, world["t"] % 1000, dtype=torch.float32)
    world["t"] += 1
    x.requires_grad_(case["xgrad"])
    watch.on = True
    with torch.set_grad_enabled(grad):
        y = model(x)
        loss = progs.loss_fn(spec, y, ts) * case["scale"]
    watch.add("the loss", loss)
    watch.on = False
    return loss


def event(case, spec, model, opt, watch, ev, world, rec):
    rec.mark(ev)
    if ev in ("step", "micro", "skip", "retain", "forward_twice"):
        if ev == "forward_twice":
            unused = forward(case, spec, model, watch, world)
        loss = forward(case, spec, model, watch, world)
        if ev == "retain":
            loss.backward(retain_graph=True)
        loss.backward()
        del loss
        if ev == "forward_twice":
            del unused
        world["since"] += 1
        if ev != "micro":
            watch.judge(rec, "before the step")
            if ev == "skip":
                engine.emulate_scaler(opt, case["scale"], True)
            elif case["scale"] != 1.0:
                engine.emulate_scaler(opt, case["scale"], False)
            else:
                opt.step()
            world["steps"] += 1
            world["since"] = 0
            opt.zero_grad(set_to_none=case["none"])
    elif ev == "discard":
        loss = forward(case, spec, model, watch, world)
        del loss
    elif ev == "eval":
        loss = forward(case, spec, model, watch, world, grad=False)
        del loss
    elif ev == "save":
        copy.deepcopy(opt.state_dict())
    elif ev == "reload":
        sd = copy.deepcopy(opt.state_dict())
        opt.load_state_dict(sd)
        del sd
    elif ev == "copy":
        clone = copy.deepcopy(model)
        clone(progs.batch(spec, 0, dtype=torch.float32)[0])
        del clone
    watch.judge(rec, f"after {ev}")
