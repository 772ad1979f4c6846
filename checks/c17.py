"""Updates are descent directions and factors stay in their structure."""

import torch

from vlib import progs, structs
from vlib.core import Violation

ID = "C17"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime invariant monitor: inner products of observed updates with gradients, "
    "linearity and symmetry of the pre-conditioner probed with arbitrary gradients, and "
    "pattern of all factors, along stable and unstable histories"
)
RULE = (
    "A random model and configuration without momentum and weight decay, with factor "
    "learning rates up to 20 and gradients of any scale, 3-9 steps (micro-batches, "
    "skipped updates). After each step the update is judged against the gradient; at "
    "random times the pre-conditioner is probed with three arbitrary gradients. "
    "Non-trivial: at least two updates of layers whose factors differ from the identity."
)
ASSUMPTIONS = [
    "layers are trained completely; tolerances are multiples of the rounding of the "
    "involved absolute values",
    "histories end when values leave the range in which products are representable",
]
MIN = {"updates_judged": 3000, "probes_judged": 800, "factors_judged": 8000, "unstable": 50}


def cases(rng, tier):
    n = 800 if tier == "quick" else 25000
    out = []
    for _ in range(n):
        dtype = rng.choice(["float64", "float32", "float32"])
        spec = progs.rand_spec(
            rng,
            dtype=dtype,
            steps=rng.randint(3, 9),
            wide=rng.random() < 0.15,
            momentum=0.0,
            weight_decay=0.0,
        )
        if rng.random() < 0.06:
            progs.stretch(rng, spec, rng.choice(["wide", "wide_conv", "batch", "long"]))
            spec["steps"] = min(spec["steps"], 40)
        for hp in spec["hps"]:
            hp.update(momentum=0.0, weight_decay=0.0)
            if rng.random() < 0.4:
                hp["lr_cov"] = progs.logu(rng, 0.3, 20.0)
            hp["lr"] = progs.logu(rng, 1e-3, 1.0)
            hp["damping"] = rng.choice([0.0, progs.logu(rng, 1e-4, 10.0)])
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "scale": rng.choice([1.0, 1.0, 1e-2, 30.0]),
                "micro": rng.choice([1, 1, 2]),
                "probe": [rng.random() < 0.3 for _ in range(spec["steps"])],
            }
        )
    return out


def joint(layer, tensors):
    """Matrix of a layer's weight and bias quantities."""
    mat = tensors[0].detach().double().flatten(1)
    if layer.bias is not None:
        mat = torch.cat([mat, tensors[1].detach().double()[:, None]], 1)
    return mat


def run(case, rec):
    spec = case["spec"]
    dtype = getattr(torch, spec["dtype"])
    eps = torch.finfo(dtype).eps
    model, mods = progs.build_model(spec["arch"], spec["seed"], dtype=dtype)
    opt = progs.make_opt(spec, model, mods)
    layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
    names = progs.names_of(model, layers)
    hps = progs.layer_hps(spec)
    gen = torch.Generator().manual_seed(case["seed"])
    judged = 0
    for t in range(spec["steps"]):
        opt.zero_grad()
        for micro in range(case["micro"]):
            x, ts = progs.batch(spec, t, micro=micro, dtype=dtype)
            progs.loss_fn(spec, model(x), ts, scale=case["scale"]).backward()
        with torch.no_grad():
            moved = advance(model, opt, layers)
        if moved is None:
            break
        for layer, name, hp, (G, W, D) in zip(layers, names, hps, moved):
            factors(opt, name, hp, rec)
            K, C = (progs.dense(m[name]) for m in (opt.Ks, opt.Cs))
            if max(K.abs().max(), C.abs().max()) > 1e5 or not torch.isfinite(D).all():
                rec.count("truncated_programs")
                return finish(rec, judged)
            if max(K.abs().max(), C.abs().max()) > 5:
                rec.count("unstable")
            tol = slack(G, W, K, C, hp["lr"], eps)
            inner = (G * D).sum().item()
            tol_inner = (G.abs() * tol).sum().item()
            want = -hp["lr"] * ((C.T @ G @ K) ** 2).sum().item()
            rec.count("updates_judged")
            if inner > tol_inner:
                raise Violation(
                    f"step {t}: layer {name} moved uphill: <gradient, update> = "
                    f"{inner:.3e} (tolerance {tol_inner:.3e})",
                    key="ascent",
                )
            if abs(inner - want) > tol_inner:
                raise Violation(
                    f"step {t}: layer {name}: <gradient, update> = {inner:.3e}, factors "
                    f"imply {want:.3e} (tolerance {tol_inner:.3e})",
                    key="decrease",
                )
            eye = torch.eye(len(K), dtype=torch.float64)
            if (K - eye).abs().max() > 1e-3 and inner < -2 * tol_inner:
                judged += 1
        if case["probe"][t] and not probe(model, opt, layers, names, hps, gen, eps, rec, t):
            break
    finish(rec, judged)


def finish(rec, judged):
    rec.nontrivial = judged >= 2


def slack(G, W, K, C, lr, eps):
    """Rounding of each entry of an update."""
    prod = C.abs() @ (C.abs().T @ G.abs() @ K.abs()) @ K.abs().T
    dims = len(K) + len(C) + 10
    return 4 * eps * dims * lr * prod + 2 * eps * W.abs() + 1e-30


def advance(model, opt, layers):
    """Execute a step and return gradients, parameters and updates of the layers."""
    grads, olds = [], []
    for layer in layers:
        ps = progs.params_of(layer)
        if any(p.grad is None for p in ps):
            return None
        grads.append(joint(layer, [p.grad.clone() for p in ps]))
        olds.append(joint(layer, [p.detach().clone() for p in ps]))
    if any(not torch.isfinite(g).all() or g.abs().max() > 1e8 for g in grads):
        return None
    opt.step()
    return [
        (g, w, joint(layer, progs.params_of(layer)) - w)
        for layer, g, w in zip(layers, grads, olds)
    ]


def factors(opt, name, hp, rec):
    sd = opt.state_dict()
    for key in ("Ks", "Cs", "m_Ks", "m_Cs"):
        if name not in sd[key]:
            continue
        rec.count("factors_judged")
        which = hp["structures"]["C" in key]
        rec.mark(f"{which}:{len(hp['structures'])}")
        D = sd[key][name].to_dense().detach()
        if torch.isfinite(D).all() and not structs.in_class(
            structs.optimizer_desc(which), D
        ):
            raise Violation(f"{key} of {name} left the structure {which}", key="pattern")


def probe(model, opt, layers, names, hps, gen, eps, rec, t):
    """Apply the pre-conditioner (which stays as it is) to arbitrary gradients."""
    results = []
    coef = torch.randn(2, generator=gen).tolist()
    bases = [
        [torch.randn(p.shape, generator=gen).to(p.dtype) for p in model.parameters()]
        for _ in range(2)
    ]
    bases.append([(coef[0] * a + coef[1] * b) for a, b in zip(*bases)])
    before = [progs.dense(m[n]) for n in names for m in (opt.Ks, opt.Cs)]
    for grads in bases:
        for p, g in zip(model.parameters(), grads):
            p.grad = g.clone()
        with torch.no_grad():
            keep = [p.detach().clone() for p in model.parameters()]
            for p in model.parameters():
                p.zero_()
            results.append(advance(model, opt, layers))
            for p, k in zip(model.parameters(), keep):
                p.copy_(k)
        opt.zero_grad()
    after = [progs.dense(m[n]) for n in names for m in (opt.Ks, opt.Cs)]
    if not all(torch.equal(a, b) for a, b in zip(before, after)):
        raise Violation(
            f"step {t}: a step without backward pass changed factors", key="changed"
        )
    for i, (name, hp) in enumerate(zip(names, hps)):
        (G1, _, D1), (G2, _, D2), (G3, _, D3) = (r[i] for r in results)
        K, C = after[2 * i], after[2 * i + 1]
        rec.count("probes_judged")
        zero = torch.zeros_like(G1)
        tol = [slack(G, zero, K, C, hp["lr"], eps) for G in (G1, G2, G3)]
        bound = (G1.abs() * tol[1]).sum() + (G2.abs() * tol[0]).sum()
        gap = ((G1 * D2).sum() - (G2 * D1).sum()).abs()
        if gap > bound:
            raise Violation(
                f"step {t}: pre-conditioner of {name} is not symmetric ({gap:.2e} > "
                f"{bound:.2e})",
                key="symmetry",
            )
        lin = D3 - coef[0] * D1 - coef[1] * D2
        room = tol[2] + abs(coef[0]) * tol[0] + abs(coef[1]) * tol[1]
        extra = slack(
            G1.abs() * abs(coef[0]) + G2.abs() * abs(coef[1]), zero, K, C, hp["lr"], eps
        )
        if (lin.abs() > room + extra).any():
            raise Violation(f"step {t}: pre-conditioner of {name} not linear", key="linear")
        for G, D, s in ((G1, D1, tol[0]), (G2, D2, tol[1]), (G3, D3, tol[2])):
            if (G * D).sum() > (G.abs() * s).sum():
                raise Violation(
                    f"step {t}: pre-conditioner of {name} is not positive semi-definite",
                    key="psd",
                )
    return True
