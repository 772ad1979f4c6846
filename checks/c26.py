"""Half precision stays accurate and works for every structure."""

import math

import torch
from torch import nn

from vlib import progs, ref, structs
from vlib.core import Violation

ID = "C26"
LEVEL = "exploration"
TECHNIQUE = (
    "runtime oracle: structured operations and training steps in 16-bit types shadowed by "
    "float64 arithmetic, judged by a running error analysis with small constants"
)
RULE = (
    "Random structures, dimensions up to 1200, 16-bit types, magnitudes and operations; "
    "and layers (linear, weight-sharing with up to thousands of positions, convolutions) "
    "whose parameters or pre-conditioners are 16-bit with random settings, gradient scales "
    "and 2-5 steps. Non-trivial: two factor and parameter updates, or three operations, "
    "were judged for a 16-bit type."
)
ASSUMPTIONS = [
    "the exact results and the products of absolute values fit into the 16-bit type",
    "the exact update is that of the observed (rounded) inputs, gradients and factors",
]
MIN = {"operations_judged": 4000, "precond_updates_judged": 700, "param_updates_judged": 350}

HALF = ["float16", "bfloat16"]
C_OPS, C_PRE, C_PAR = 6.0, 10.0, 10.0


def cases(rng, tier):
    n = 3000 if tier == "quick" else 25000
    out = []
    while len(out) < n:
        if rng.random() < 0.5:
            case = _ops_case(rng)
        else:
            case = _train_case(rng)
        if case:
            out.append(case)
    return out


def _ops_case(rng):
    desc = structs.rand_desc(rng)
    dim = rng.choice([1, 2, 3, 5, 8, 17, rng.randint(18, 90)])
    if desc != "dense" and rng.random() < 0.15:
        dim = rng.randint(200, 1200)
    if not structs.valid_dim(desc, dim):
        return None
    if dim > 100 and structs.numel(desc, dim) > 60000:
        return None
    toeplitz = structs.has_toeplitz(desc)
    if toeplitz and dim > 100:
        dim = 100 + dim % 120
        if not structs.valid_dim(desc, dim):
            return None
    signs = ["positive", "negative"] if dim > 100 and rng.random() < 0.5 else []
    return {
        "mode": "ops",
        "seed": rng.randrange(10**6),
        "desc": desc,
        "dim": dim,
        "cols": rng.choice([1, 2, 7, 33] + ([] if toeplitz else [300])),
        "dtype": rng.choice(HALF),
        "kind": rng.choice(
            signs or ["normal", "normal", "int", "sparse", "negative", "positive", "small"]
        ),
        "size": rng.choice([60.0, 300.0] if signs else [1.0, 1.0, 0.05, 4.0, 300.0]),
        "mixed": rng.choice([None, "float32"] + HALF),
    }


def _train_case(rng):
    dtype = rng.choice(HALF + ["float32"])
    pre = [rng.choice([None, "float32"] + HALF) for _ in range(2)]
    if dtype == "float32" and not any(p in HALF for p in pre):
        pre[rng.randrange(2)] = rng.choice(HALF)
    hp = progs.rand_hp(rng, loss_average=rng.choice([None, "batch", "batch+sequence"]))
    hp.update(preconditioner_dtype=pre, lr=progs.logu(rng, 1e-2, 0.5), T=rng.choice([1, 1, 2]))
    # the update has to be visible beside the rounding of the factors
    hp["lr_cov"] = progs.logu(rng, 0.05, 0.5)
    kind = rng.choice(["linear", "seq", "long", "conv", "conv"])
    return {
        "mode": "train",
        "seed": rng.randrange(10**6),
        "layer": kind,
        "i": rng.choice([1, 2, 3, 6, 17, rng.randint(20, 70)]),
        "o": rng.choice([1, 2, 5, 9, rng.randint(10, 40)]),
        "k": [rng.randint(1, 3), rng.randint(1, 3)],
        "p": rng.choice([[0, 0], [1, 1], "same"]),
        "n": rng.choice([1, 2, 5, 16]),
        "share": rng.randint(500, 3000) if kind == "long" else rng.randint(1, 9),
        "bias": rng.random() < 0.5,
        "dtype": dtype,
        "hp": hp,
        "gsize": rng.choice([1.0, 0.1, 0.02]),
        "xsize": rng.choice([1.0, 1.0, 0.3, 2.0]),
        # the last kind leads to huge squares of scaled gradients
        "scale": rng.choice([1.0, 1.0, 8.0, 2.0 ** rng.randint(6, 13)]),
        "micros": rng.choice([1, 1, 1, 2]),
        "steps": rng.randint(2, 5),
        "cast": rng.choice([None, None, "bfloat16"]) if dtype == "float32" else None,
    }


def run(case, rec):
    {"ops": ops, "train": train}[case["mode"]](case, rec)


# ----------------------------------------------------------------------------------
# operations
# ----------------------------------------------------------------------------------
def ops(case, rec):
    desc, n, dtype = case["desc"], case["dim"], getattr(torch, case["dtype"])
    cls = structs.make_cls(desc)
    gen = torch.Generator().manual_seed(case["seed"])
    base = structs.rand_fn(gen, dtype, case["kind"])

    def rand(*shape):
        return base(*shape) * case["size"]

    (A, DA), (B, DB) = (structs.member(desc, n, rand) for _ in range(2))
    DA, DB = DA.double(), DB.double()
    X = rand(n, case["cols"])
    Xd = X.double()
    S = (X @ X.T) / case["cols"]
    S = torch.tril(S) + torch.tril(S, -1).T
    S = S.clamp(-1e3, 1e3)
    Sd = S.double()
    aA, aB, aX = DA.abs(), DB.abs(), Xd.abs()
    T = DA.T @ Xd
    proj = lambda M: structs.project(desc, M)  # noqa: E731
    fmax = torch.finfo(dtype).max
    todo = [
        ("to_dense", lambda: A, DA, aA),
        ("matmul", lambda: A @ B, DA @ DB, aA @ aB),
        ("tensor", lambda: A @ X, DA @ Xd, aA @ aX),
        ("rmatmat", lambda: A.rmatmat(X), T, aA.T @ aX),
        ("mul", lambda: A * -1.7, -1.7 * DA, 1.7 * aA),
        ("mul_zero", lambda: A * 0.0, 0 * DA, 0 * DA),
        ("mul_one", lambda: A * 1.0, DA, aA),
        ("mul_int", lambda: A * 2, 2 * DA, 2 * aA),
        ("add", lambda: A + B, DA + DB, aA + aB),
        ("from_inner", lambda: A.from_inner(X), proj(T @ T.T),
         proj((aA.T @ aX) @ (aA.T @ aX).T)),
        ("from_inner_eye", lambda: A.from_inner(), proj(DA.T @ DA), proj(aA.T @ aA)),
        ("from_inner2", lambda: A.from_inner2(S), proj(DA.T @ Sd @ DA),
         proj(aA.T @ Sd.abs() @ aA)),
        ("from_mat_inner", lambda: cls.from_mat_inner(X), proj(Xd @ Xd.T), proj(aX @ aX.T)),
        ("from_dense", lambda: cls.from_dense(S), proj(Sd), proj(Sd.abs())),
        ("average_trace", lambda: A.average_trace(), DA.diag().mean(), aA.diag().mean()),
        ("frobenius_norm", lambda: A.frobenius_norm(), DA.norm(), DA.norm()),
        ("infinity_vector_norm", lambda: A.infinity_vector_norm(), aA.max(), aA.max()),
        ("zeros", lambda: cls.zeros(n, dtype=dtype), 0 * DA, 0 * DA),
        ("eye", lambda: cls.eye(n, dtype=dtype), torch.eye(n), 0 * DA),
        ("add_", lambda: (A * 1.0).add_(B, alpha=-0.4), DA - 0.4 * DB, aA + aB),
        ("mul_", lambda: (A * 1.0).mul_(2.5), 2.5 * DA, 2.5 * aA),
        ("diag_add_", lambda: (A * 1.0).diag_add_(0.3), DA + 0.3 * torch.eye(n), aA + 0.3),
    ]
    # intermediate results have to fit into the type, too
    steps = {
        "matmul": [aA @ aB],
        "from_inner": [aX @ aX.T, aA.T @ aX, aA.T @ aA, aA.T @ (aX @ aX.T) @ aA],
        "from_inner_eye": [aA.T @ aA],
        "from_inner2": [Sd.abs() @ aA, aA.T @ Sd.abs(), aA.T @ aA, aA.T @ Sd.abs() @ aA],
        "from_mat_inner": [aX @ aX.T],
    }
    rec.mark(f"{structs.label(desc).split('[')[0]}:{case['dtype']}")
    judged = 0
    for name, fn, want, mag in todo:
        if want.numel() and mag.max() > fmax:
            rec.count("too_large")
            continue
        if any(m.max() > fmax for m in steps.get(name, []) if m.numel()):
            rec.count("too_large")
            continue
        if name == "frobenius_norm" and DA.norm() > fmax / 2:
            continue
        res = fn()
        what = f"{structs.label(desc)}, dim {n}, {case['dtype']}: {name}"
        if isinstance(res, torch.Tensor):
            types = {res.dtype}
        else:
            if type(res) is not cls:
                raise Violation(f"{what} has type {type(res)}", key="type")
            types = {t.dtype for _, t in res.named_tensors()}
            res = res.to_dense()
        if types != {dtype}:
            raise Violation(f"{what} has data type {types}", key="dtype")
        judged += 1
        rec.count("operations_judged")
        judge(rec, res, want, mag, C_OPS, dtype, what, name)
    if case["mixed"] and structs.mixes_types(desc):
        mixed(case, rec, A, DA, X, fmax)
    rec.nontrivial = judged >= 3


def mixed(case, rec, A, DA, X, fmax):
    """Transposed products with tensors of another type have the structure's type."""
    other = getattr(torch, case["mixed"])
    X = X.to(other)
    want, mag = DA.T @ X.double(), DA.abs().T @ X.double().abs()
    if other == A.to_dense().dtype or max(mag.max(), X.abs().max()) > min(fmax, 65000):
        return
    res = A.rmatmat(X)
    what = f"{structs.label(case['desc'])}, {case['dtype']} with {case['mixed']}: rmatmat"
    if res.dtype != A.to_dense().dtype:
        raise Violation(f"{what} has data type {res.dtype}", key="dtype")
    rec.count("mixed_products_judged")
    worst = max(res.dtype, other, key=lambda d: torch.finfo(d).eps)
    tiny = torch.finfo(torch.float16)
    extra = (DA.abs().sum(0).max() + X.double().abs().sum(0).max()).item()
    judge(rec, res, want, mag, C_OPS, worst, what, "mixed",
          extra=4 * tiny.tiny * tiny.eps * (1 + extra))


def judge(rec, got, want, mag, c, dtype, what, key, extra=0.0):
    if got.shape != want.shape:
        raise Violation(f"{what}: shape {tuple(got.shape)}", key=key)
    if not want.numel():
        return
    fi = torch.finfo(dtype)
    tol = c * (fi.eps * mag.max().item() + fi.tiny * fi.eps * 4) + extra
    err = (got.double() - want).abs().max().item()
    if tol:
        track(rec, key, err, tol)
    if not err <= tol:
        raise Violation(
            f"{what}: error {err:.3e} > {tol:.3e} (largest entry "
            f"{want.abs().max().item():.3e})", key=key
        )


# ----------------------------------------------------------------------------------
# training
# ----------------------------------------------------------------------------------
class Watch:
    """Inputs and output gradients of a layer, as computed by autograd."""

    def __init__(self, layer):
        self.ins, self.gos = [], []
        layer.register_forward_hook(self.hook)

    def hook(self, _module, inputs, output):
        if torch.is_grad_enabled():
            self.ins.append(inputs[0].detach().clone())
            output.register_hook(lambda g: self.gos.append(g.detach().clone()))


def build(case):
    torch.manual_seed(case["seed"])
    if case["layer"] == "conv":
        c = max(1, case["i"] // 8)
        layer = nn.Conv2d(c, case["o"], case["k"], padding=case["p"], bias=case["bias"])
        if case["p"] == "same" and any(k % 2 == 0 for k in case["k"]):
            layer.padding = (1, 1)
            layer._reversed_padding_repeated_twice = [1, 1, 1, 1]
        side = 3 + case["share"] % 5
        shape = [c, side, side + 1]
    else:
        i = case["i"] if case["layer"] != "long" else min(case["i"], 20)
        layer = nn.Linear(i, case["o"], bias=case["bias"])
        shape = ([] if case["layer"] == "linear" else [case["share"]]) + [i]
    return layer.to(getattr(torch, case["dtype"])), shape


def mat(tensors, dim):
    m = tensors[0].double().reshape(dim, -1)
    if len(tensors) > 1:
        m = torch.cat([m, tensors[1].double().reshape(-1, 1)], 1)
    return m


def train(case, rec):
    from singd.optim.optimizer import SINGD

    hp, dtype = case["hp"], getattr(torch, case["dtype"])
    layer, shape = build(case)
    watch = Watch(layer)
    kw = {k: v for k, v in hp.items()}
    kw["preconditioner_dtype"] = tuple(
        None if d is None else getattr(torch, d) for d in hp["preconditioner_dtype"]
    )
    kw["structures"] = tuple(hp["structures"])
    opt = SINGD(layer, init_grad_scale=case["scale"], **kw)
    r = ref.LayerRef(layer, hp)
    name = next(iter(opt.Ks)) if isinstance(opt.Ks, dict) else ""
    pre = [dtype if d is None else d for d in kw["preconditioner_dtype"]]
    low = max([dtype, *pre], key=lambda d: torch.finfo(d).eps)
    if case["cast"]:
        low = max([low, getattr(torch, case["cast"])], key=lambda d: torch.finfo(d).eps)
    eps = torch.finfo(low).eps
    fmax = min(torch.finfo(d).max for d in [dtype, *pre])
    params = list(layer.parameters())
    gen = torch.Generator().manual_seed(case["seed"] + 5)
    buf_err = 0.0
    done = 0
    for t in range(case["steps"]):
        watch.ins, watch.gos = [], []
        for _ in range(case["micros"]):
            x = torch.randn(case["n"], *shape, generator=gen) * case["xsize"]
            with torch.autocast(
                "cpu", dtype=torch.bfloat16, enabled=case["cast"] is not None
            ):
                y = layer(x.to(dtype))
            w = torch.randn(y.shape, generator=gen) * case["gsize"]
            div = {None: 1, "batch": len(y), "batch+sequence": len(y) * shared(layer, y)}[
                hp["loss_average"]
            ]
            loss = (y.float() * w).sum() / div / case["micros"]
            (loss * case["scale"]).backward()
        K0, C0 = dense(opt, "Ks", name), dense(opt, "Cs", name)
        r.K, r.C = K0, C0
        m0 = [dense(opt, f"m_{f}s", name) for f in "KC"]
        if m0[0] is not None:
            r.mK, r.mC = m0
        scale = case["scale"]
        As = [ref.input_cov(layer, a.double(), hp["kfac_approx"]) for a in watch.ins]
        Bs = [
            ref.grad_cov(layer, g.double() / scale, hp["kfac_approx"], hp["loss_average"])
            for g in watch.gos
        ]
        aAs = [abs_cov(layer, a, hp, "in") for a in watch.ins]
        aBs = [abs_cov(layer, g / scale, hp, "out") for g in watch.gos]
        G = mat([p.grad for p in params], r.dim_C) / scale
        W = mat([p.detach() for p in params], r.dim_C)
        mags = magnitudes(r, hp, aAs, aBs)
        rows = case["n"] * shared(layer, y)
        if big(mags, G, scale, fmax, watch, rows):
            rec.count("too_large")
            break
        rec.count("huge_squares", mags["hC"].max().item() * scale**2 > fmax)
        opt.set_current_grad_scale(scale)
        opt.step()
        updated = r.precond_step(t, As, Bs)
        K1, C1 = dense(opt, "Ks", name), dense(opt, "Cs", name)
        if updated:
            b = hp["lr_cov"]
            floor = b * underflow(pre, hp, case, mags)
            for f, M0, M1, m, want, dt in [
                ("K", K0, K1, mags["mK"], r.K, pre[0]),
                ("C", C0, C1, mags["mC"], r.C, pre[1]),
            ]:
                rec.count("precond_updates_judged")
                # rounding when the factor is stored, and that of the update
                store = 2 * torch.finfo(dt).eps * max(M0.abs().max(), want.abs().max()).item()
                tol = b * C_PRE * eps * (M0.abs() @ m).max().item() + store + floor
                err = (M1 - want).abs().max().item()
                track(rec, f, err, tol)
                if not err <= tol:
                    raise Violation(
                        f"step {t}: {f} ({hp['structures'][f == 'C']}, {dt}) deviates from "
                        f"the exact update: {err:.3e} > {tol:.3e}",
                        key="precond",
                    )
        r.K, r.C = K1, C1
        if not K_abs(r, G) < fmax / 40 or max(K1.abs().max(), C1.abs().max()) ** 2 > fmax:
            rec.count("too_large")
            break
        delta = r.param_delta(G, W)
        W1 = mat([p.detach() for p in params], r.dim_C)
        nat = K_abs(r, G)
        buf_err = hp["momentum"] * (buf_err + eps * r.buf.abs().max().item()) + C_PAR * eps * (
            nat + hp["weight_decay"] * W.abs().max().item()
        )
        fi = torch.finfo(dtype)
        tiny = max(torch.finfo(d).tiny * torch.finfo(d).eps for d in [dtype, *pre])
        buf_err += 8 * tiny * (1 + (K1.abs() @ K1.abs().T).max() * (C1.abs() @ C1.abs().T).max() * len(K1) * len(C1)).item()
        tol = hp["lr"] * buf_err + 2 * fi.eps * max(W.abs().max(), W1.abs().max()).item()
        err = (W1 - (W + delta)).abs().max().item()
        rec.count("param_updates_judged")
        rec.mark(f"{case['layer']}:{case['dtype']}:{pre}")
        rec.mark(f"{hp['structures']}")
        track(rec, "params", err, tol)
        if not err <= tol:
            raise Violation(
                f"step {t}: parameters ({case['dtype']}, factors {pre}, "
                f"{hp['structures']}) deviate from the exact update: {err:.3e} > {tol:.3e}",
                key="params",
            )
        opt.zero_grad()
        done += 1
    rec.nontrivial = done >= 2


def track(rec, key, err, tol):
    if hasattr(rec, "hist"):
        rec.hist[key] = max(rec.hist.get(key, 0.0), err / tol)


def shared(layer, y):
    return y[0, 0].numel() if isinstance(layer, nn.Conv2d) else y[0, ..., 0].numel()


def dense(opt, key, name):
    table = opt.state_dict()[key]
    return progs.dense(table[name]) if name in table else None


def abs_cov(layer, t, hp, side):
    """Covariance of absolute values."""
    t = t.double().abs()
    if side == "in":
        return ref.input_cov(layer, t, hp["kfac_approx"])
    return ref.grad_cov(layer, t, hp["kfac_approx"], hp["loss_average"])


def magnitudes(r, hp, aAs, aBs):
    K, C, lam = r.K.abs(), r.C.abs(), hp["damping"]
    sK, sC = hp["structures"]
    hK = sum(ref.project(sK, K.T @ A @ K) for A in aAs)
    hC = sum(ref.project(sC, C.T @ B @ C) for B in aBs)
    kk, cc = ref.project(sK, K.T @ K), ref.project(sC, C.T @ C)
    out = {"hK": hK, "hC": hC, "tK": ref.avg_tr(hK), "tC": ref.avg_tr(hC)}
    if hp["kfac_like"]:
        nK, nC = hK + lam * kk, hC + lam * cc
    else:
        nK = out["tC"] * hK + lam * ref.avg_tr(cc) * kk
        nC = out["tK"] * hC + lam * ref.avg_tr(kk) * cc
    eyes = [torch.eye(len(M), dtype=torch.float64) for M in (nK, nC)]
    scale = 0.5 * (1.0 - hp["alpha1"] if hp["normalize_lr_cov"] else 1.0)
    out["mK"] = hp["alpha1"] * r.mK.abs() + scale * (nK + eyes[0])
    out["mC"] = hp["alpha1"] * r.mC.abs() + scale * (nC + eyes[1])
    return out


def underflow(pre, hp, case, mags):
    """Effect of gradients and statistics below the smallest numbers."""
    tiny = max(torch.finfo(d).tiny * torch.finfo(d).eps for d in pre)
    rows = 1e4
    gmax = math.sqrt(max(mags["tC"], 0.0)) + 1
    return 8 * tiny * (rows * gmax + (1 + mags["tK"]) * 40 + mags["tC"])


def big(mags, G, scale, fmax, watch, rows):
    """Whether quantities the documented algorithm has to represent are too large."""
    worst = max(mags[key].max().item() for key in ("hK", "hC", "mK", "mC"))
    # statistics carry the gradient scale until the pre-conditioner is updated, and
    # gradients are multiplied with the number of loss terms
    scaled = max(mags["hC"].max().item(), G.abs().max().item()) * 40 * scale
    terms = max(g.abs().max().item() for g in watch.gos) * rows * 4
    return max(worst * 40, scaled, terms) > fmax or worst > 2.5e3


def K_abs(r, G):
    K, C = r.K.abs(), r.C.abs()
    return (C @ C.T @ G.abs() @ K @ K.T).max().item()
