"""With stationary curvature the pre-conditioner approaches the inverse."""

import torch

from vlib import progs, ref
from vlib.core import Violation

ID = "C20"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime monitor of long executions: limits of the observed factors are compared with "
    "inverses computed independently from captured inputs and output gradients, and the "
    "documented fixed-point equation is evaluated on them"
)
RULE = (
    "A single random layer (linear, weight-sharing, convolution) with fixed data and a "
    "loss that is linear in the output, random structures, damping, factor learning "
    "rates and momenta, trained until its factors settle (at most 1500 updates); then a "
    "parameter step is judged. Non-trivial: the factors moved by more than 10% and the "
    "inverse or the fixed-point equation was judged."
)
ASSUMPTIONS = [
    "curvature is scaled to spectral norm 0.3-3, damping is at least 0.03 unless the "
    "curvature has full rank, factor learning rates are 0.03-0.5; executions that do "
    "not settle are judged only if an independent iteration of the documented rule does",
    "inverses are compared for dense, diagonal and block-diagonal structures; for other "
    "structures the (projected) fixed-point equation is judged",
]
MIN = {"fixed_points": 200, "inverses": 60, "natural_steps": 100, "updates": 5000}
EXACT = ("dense", "diagonal", "block30diagonal")


def cases(rng, tier):
    n = 300 if tier == "quick" else 6000
    out = []
    while len(out) < n:
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, unsupported=False)
        first = spec["arch"]["layers"][0]
        spec["arch"]["layers"] = [first]
        spec["arch"]["kind"] = "fcn" if first["type"] == "conv" else "seq"
        if first["type"] == "conv" and (first["k"][0] * first["k"][1] * first["c_in"] > 30):
            continue
        spec["loss"], spec["xscale"] = "lin", 1.0
        hp = progs.rand_hp(
            rng,
            structs=progs.F64_STRUCTS if dtype == "float64" else progs.STRUCTS,
            kfac_like=rng.random() < 0.5,
            loss_average=spec["loss_average"],
            T=rng.choice([1, 1, 1, 2]),
            lr_cov=progs.logu(rng, 0.15, 0.5),
            momentum=0.0,
            lr=0.0,
        )
        hp["damping"] = rng.choice([0.0, progs.logu(rng, 0.03, 1.0), progs.logu(rng, 0.03, 1.0)])
        if hp["alpha1"] > 0.5:
            hp["lr_cov"] = progs.logu(rng, 0.05, 0.15)
        if not all(s in EXACT for s in hp["structures"]):
            hp["lr_cov"] = progs.logu(rng, 0.03, 0.1)
        spec["hps"], spec["assign"] = [hp], [0]
        big = rng.random() < 0.6
        spec["n"] = rng.randint(20, 40) if big else rng.randint(2, 6)
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "top": [progs.logu(rng, 0.3, 3.0), progs.logu(rng, 0.3, 3.0)],
                "lr": progs.logu(rng, 1e-2, 1.0),
                "gscale": rng.choice([1.0, 1.0, 16.0]),
            }
        )
    return out


def eigs(M):
    e = torch.linalg.eigvalsh(M)
    return e[0].item(), e[-1].item()


def prepare(case):
    """Scaled data, curvature and gradient of the layer, from a clean copy."""
    spec, hp = case["spec"], case["spec"]["hps"][0]
    clean = ref.Capture(spec)
    layer = clean.layers[0]
    x, ts = progs.batch(spec, 0)
    rows = ref.input_cov(layer, x, hp["kfac_approx"])
    d = len(rows) - (layer.bias is not None)
    x = x * (case["top"][0] / max(eigs(rows[:d, :d])[1], 1e-9)) ** 0.5
    _, ins, outs, _ = clean(x, ts)
    S = ref.input_cov(layer, ins[0], hp["kfac_approx"])
    U = ref.grad_cov(layer, outs[0], hp["kfac_approx"], spec["loss_average"])
    scale = (case["top"][1] / max(eigs(U)[1], 1e-9)) ** 0.5
    U = U * scale**2
    grads, _, _, _ = clean(x, ts, scale=scale)
    mat = grads[0][0].flatten(1)
    if layer.bias is not None:
        mat = torch.cat([mat, grads[0][1][:, None]], 1)
    return x, ts, scale, S, U, mat


def residual(hp, K, C, S, U):
    """The documented direction at given factors."""
    sK, sC = hp["structures"]
    HK, HC = ref.project(sK, K.T @ S @ K), ref.project(sC, C.T @ U @ C)
    KK, CC = ref.project(sK, K.T @ K), ref.project(sC, C.T @ C)
    lam = hp["damping"]
    if hp["kfac_like"]:
        rK, rC = HK + lam * KK, HC + lam * CC
    else:
        rK = ref.avg_tr(HC) * HK + lam * ref.avg_tr(CC) * KK
        rC = ref.avg_tr(HK) * HC + lam * ref.avg_tr(KK) * CC
    eyes = torch.eye(len(K), dtype=K.dtype), torch.eye(len(C), dtype=C.dtype)
    return (rK - eyes[0]).abs().max().item(), (rC - eyes[1]).abs().max().item()


def reference_settles(hp, layer, S, U):
    """Whether the documented iteration itself converges well with these settings."""
    r = ref.LayerRef(layer, {**hp, "T": 1})
    for t in range(1000):
        K, C = r.K, r.C
        r.precond_step(t, [S], [U])
        if not (torch.isfinite(r.K).all() and torch.isfinite(r.C).all()):
            return False
    return max(progs.relerr(r.K, K), progs.relerr(r.C, C)) < 1e-9


def run(case, rec):
    spec, hp = case["spec"], case["spec"]["hps"][0]
    dtype = getattr(torch, spec["dtype"])
    f64 = dtype == torch.float64
    tol = 1e-6 if f64 else 5e-3
    x, ts, scale, S, U, G = prepare(case)
    full = eigs(S)[0] > 0.05 * eigs(S)[1] and eigs(U)[0] > 0.05 * eigs(U)[1]
    if hp["damping"] == 0.0 and not full:
        rec.count("singular_programs")
        return
    model, mods = progs.build_model(spec["arch"], spec["seed"], dtype=dtype)
    opt = progs.make_opt(spec, model, mods, init_grad_scale=case["gscale"])
    layer = mods[0]
    (name,) = progs.names_of(model, [layer])

    def advance():
        progs.loss_fn(
            spec, model(x.to(dtype)), ts, scale=scale * case["gscale"]
        ).backward()
        if case["gscale"] != 1.0:
            opt.set_current_grad_scale(case["gscale"])
        opt.step()
        opt.zero_grad()
        rec.count("updates")

    def factors():
        return progs.dense(opt.Ks[name]), progs.dense(opt.Cs[name])

    start = factors()
    settled, last, t = 0, start, 0
    while settled < 6 * hp["T"] and t < 1500 * hp["T"]:
        advance()
        t += 1
        now = factors()
        if not all(torch.isfinite(m).all() for m in now):
            if not reference_settles(hp, layer, S, U):
                rec.count("unsuitable_learning_rates")
                return
            raise Violation(f"factors diverged at step {t}", key="diverged")
        still = all(progs.relerr(a, b) < tol * 0.02 for a, b in zip(now, last))
        settled = settled + 1 if still else 0
        last = now
    if settled < 6 * hp["T"]:
        if not reference_settles(hp, layer, S, U):
            rec.count("unsuitable_learning_rates")
            return
        raise Violation(
            f"factors did not settle within {t} steps, residual "
            f"{residual(hp, *last, S, U)}",
            key="unsettled",
        )
    K, C = last
    rec.count("fixed_points")
    rec.mark(f"{hp['structures']}:{hp['kfac_like']}:{hp['normalize_lr_cov']}")
    res = residual(hp, K, C, S, U)
    if max(res) > tol * 20:
        raise Violation(f"update does not vanish at the limit: {res}", key="fixed_point")
    inverse(hp, K, S, 0, tol, rec)
    inverse(hp, C, U, 1, tol, rec)
    final_step(case, hp, opt, layer, advance, factors, S, U, G, K, C, tol, rec)
    moved = max(progs.relerr(a, b) for a, b in zip(start, last))
    rec.nontrivial = moved > 0.1


def damped_inverse(M, lam, struct):
    M = ref.project(struct, M) + lam * torch.eye(len(M), dtype=M.dtype)
    return torch.linalg.inv(M)


def inverse(hp, F, M, k, tol, rec):
    if not hp["kfac_like"] or hp["structures"][k] not in EXACT:
        return
    want = damped_inverse(M, hp["damping"], hp["structures"][k])
    err = progs.relerr(F @ F.T, want)
    rec.count("inverses")
    if err > tol * 20:
        raise Violation(
            f"{'KC'[k]} ({hp['structures'][k]}) does not approach the damped inverse: "
            f"relative error {err:.2e}",
            key="inverse",
        )


def final_step(case, hp, opt, layer, advance, factors, S, U, G, K, C, tol, rec):
    """A step at the limit is the (damped) natural gradient step."""
    exact = all(s in EXACT for s in hp["structures"])
    if hp["kfac_like"] and exact:
        invs = [
            damped_inverse(M, hp["damping"], s) for M, s in zip((S, U), hp["structures"])
        ]
        want = invs[1] @ G @ invs[0]
    elif hp["damping"] == 0.0 and exact:
        # the scales of both factors compensate each other
        invs = [damped_inverse(M, 0.0, s) for M, s in zip((S, U), hp["structures"])]
        want = invs[1] @ G @ invs[0]
    else:
        want = C @ C.T @ G @ K @ K.T
    for group in opt.param_groups:
        group["lr"] = case["lr"]

    def joint():
        W = layer.weight.detach().double().flatten(1)
        if layer.bias is not None:
            W = torch.cat([W, layer.bias.detach().double()[:, None]], 1)
        return W.clone()

    W0 = joint()
    advance()
    D = joint() - W0
    want = -case["lr"] * (want + hp["weight_decay"] * W0)
    rec.count("natural_steps")
    room = tol * 40 * max(want.abs().max().item(), 1e-3) + 1e-6 * W0.abs().max().item()
    err = (D - want).abs().max().item()
    if err > room:
        raise Violation(
            f"the step at the limit is not the natural gradient step: {err:.2e} > "
            f"{room:.2e}",
            key="natural",
        )
    for a, b in zip(factors(), (K, C)):
        if progs.relerr(a, b) > tol:
            raise Violation("factors still change at the limit", key="moving")
