"""Runs a training program on the real optimizer next to the reference model.

The monitor re-synchronizes the reference with the observed pre-state at each step, so a
verdict never depends on accumulated rounding differences.
"""

import warnings

import torch

from vlib import progs, ref, state
from vlib.core import Violation

TOL = {
    torch.float64: dict(rel=1e-8, eps=1e-13, acc=1e-11),
    torch.float32: dict(rel=3e-4, eps=1e-6, acc=1e-5),
}
BIG = {torch.float64: 1e8, torch.float32: 1e3}
HUGE = {torch.float64: 1e150, torch.float32: 1e18}


def _absprod(*mats):
    out = mats[0].abs()
    for m in mats[1:]:
        out = out @ m.abs()
    return out.max().item() if out.numel() else 0.0


class Monitor:
    def __init__(self, spec, rec, watch=("precond", "params", "grads"), style=None, **extra):
        self.spec, self.rec, self.watch = spec, rec, watch
        self.dtype = getattr(torch, spec["dtype"])
        self.tol = TOL[self.dtype]
        self.model, self.mods = progs.build_model(
            spec["arch"], spec["seed"], dtype=self.dtype
        )
        self.layers = [self.mods[i] for i in progs.supported_idx(spec["arch"])]
        self.names = progs.names_of(self.model, self.layers)
        self.cap = ref.Capture(spec, dtype=self.dtype)
        self.cap.sync(self.model)
        self.opt = progs.make_opt(spec, self.model, self.mods, style=style, **extra)
        hps = progs.layer_hps(spec)
        self.hps = [dict(h) for h in spec["hps"]]
        self.refs = [
            ref.LayerRef(l, self.hps[a]) for l, a in zip(self.layers, spec["assign"])
        ]
        del hps
        self.t = 0
        self.alive, self.kept = True, False
        self._check_initial()

    # ------------------------------------------------------------------ helpers
    def K(self, i):
        return progs.dense(self.opt.Ks[self.names[i]])

    def C(self, i):
        return progs.dense(self.opt.Cs[self.names[i]])

    def _check_initial(self):
        for i, r in enumerate(self.refs):
            for obs, want, what in [(self.K(i), r.K, "K"), (self.C(i), r.C, "C")]:
                if obs.shape != want.shape or not torch.equal(obs, want):
                    raise Violation(
                        f"initial {what} of layer {i} is not the identity", key="init"
                    )

    def forward_backward(self, x, tseed, scale=1.0, n_total=None):
        y = self.model(x.to(self.dtype))
        loss = progs.loss_fn(self.spec, y, tseed, scale=scale, n_total=n_total)
        loss.backward()

    def set_hp(self, g, key, value):
        """User changes a hyper-parameter of a group during training."""
        self.hps[g][key] = value
        self.opt.param_groups[g][key] = (
            progs.lcov_fn(value) if key == "lr_cov" else value
        )

    # --------------------------------------------------------------------- step
    def step(
        self, n=None, micros=1, distract=(), gscale=1.0, apply=None, scaler=None, edits=()
    ):
        """One training step (``micros`` backward passes), judged by the reference.

        The losses are multiplied by ``gscale``, which is communicated as described by
        ``apply`` (``"before"``, ``"after"``: explicitly before/after the backward passes;
        ``"attr"``: like a gradient scaler; ``"scaler"``: by the scaler ``scaler``).
        """
        spec, rec, t = self.spec, self.rec, self.t
        self.cap.sync(self.model)
        As = [[] for _ in self.layers]
        Bs = [[] for _ in self.layers]
        grads = None
        n = n or spec["n"]
        if self.kept:  # gradients of earlier steps were not discarded
            grads = [
                [p.grad.detach().clone() for p in progs.params_of(l)] for l in self.layers
            ]
        for m in range(micros):
            x, ts = progs.batch(spec, t, m, n=n)
            for d in distract:
                d(self, x)
            kw = dict(scale=1.0, n_total=n * micros if micros > 1 else None)
            if apply == "before" and m == 0:
                self.opt.set_current_grad_scale(gscale)
            if apply == "twice" and m == 0:  # announced, but changed afterwards
                self.opt.set_current_grad_scale(gscale * 2.0 + 1.0)
            self.forward_backward(x, ts, **{**kw, "scale": gscale})
            for d in distract:
                d(self, x)
            g, ins, gos, _ = self.cap(x, ts, **kw)
            grads = (
                g if grads is None else [[a + b for a, b in zip(u, v)] for u, v in zip(grads, g)]
            )
            for i, l in enumerate(self.cap.layers):
                hp = self.refs[i].hp
                As[i].append(ref.input_cov(l, ins[i].double(), hp["kfac_approx"]))
                Bs[i].append(
                    ref.grad_cov(
                        l, gos[i].double(), hp["kfac_approx"], hp["loss_average"]
                    )
                )
        self._check_grads(grads, gscale)
        for e in edits:  # the user changes gradients or parameters before the step
            e(self)
        pre = []
        for i, r in enumerate(self.refs):
            r.K, r.C = self.K(i), self.C(i)
            W = r.param_mat([p.detach().clone() for p in progs.params_of(self.layers[i])])
            G = r.grad_mat([p.grad.detach() for p in progs.params_of(self.layers[i])])
            G = G / gscale
            pre.append((W, G, r.K, r.C))
            if G.numel() and not G.abs().max() < BIG[self.dtype]:
                self.alive = False
        if not self.alive:  # the training diverged, rounding dominates
            rec.count("truncated_programs")
            return False
        if apply in ("after", "twice"):
            self.opt.set_current_grad_scale(gscale)
        if apply == "scaler":
            scaler.step(self.opt)
        elif apply == "attr":
            emulate_scaler(self.opt, gscale, False)
        else:
            self.opt.step()
        rec.count("steps")
        for i, r in enumerate(self.refs):
            W, G, K0, C0 = pre[i]
            # there is nothing to update without a backward pass
            updated = bool(As[i]) and r.precond_step(t, As[i], Bs[i])
            K1, C1 = self.K(i), self.C(i)
            if "precond" in self.watch:
                self._check_precond(i, r, updated, K0, C0, K1, C1)
            # judge the parameter update with the observed pre-conditioner
            r.K, r.C = K1, C1
            want = r.param_delta(G, W)
            W1 = r.param_mat([p.detach() for p in progs.params_of(self.layers[i])])
            if not _absprod(r.C, r.C.T, G, r.K, r.K.T) < HUGE[self.dtype]:
                self.alive = False  # the natural gradient itself may overflow
            elif "params" in self.watch:
                self._check_params(i, r, W, W1, G, want)
            if not (
                torch.isfinite(W1).all()
                and torch.isfinite(K1).all()
                and torch.isfinite(C1).all()
            ):
                self.alive = False
            elif max(K1.abs().max(), C1.abs().max()) > BIG[self.dtype] or (
                W1.numel() and W1.abs().max() > BIG[self.dtype]
            ):
                self.alive = False
        if not self.alive:
            rec.count("truncated_programs")
        self.t += 1
        return self.alive

    def zero_grad(self, to_none=True, keep=False):
        self.kept = keep
        if not keep:
            self.opt.zero_grad(set_to_none=to_none)

    def skipped_step(self, fault, n=None, micros=1, gscale=1.0, scaler=None):
        """A step whose gradients are not finite; it must not have any effect."""
        spec, rec, t = self.spec, self.rec, self.t
        n = n or spec["n"]
        bad = fault["micro"] % micros
        before = state.full(self.model, self.opt)
        for m in range(micros):
            x, ts = progs.batch(spec, t, m, n=n)
            scale = gscale
            if m == bad and fault["kind"] == "loss":
                scale = scale * float(fault["value"])
            if m == bad and fault["kind"] == "input":
                poke(x, fault)
            self.forward_backward(x, ts, scale=scale)
        params = [p for l in self.layers for p in progs.params_of(l)]
        if fault["kind"] == "grad" or all(
            torch.isfinite(p.grad).all() for p in params
        ):
            g = params[fault["pos"] % len(params)].grad
            if g.numel():
                poke(g, fault)
        steps = self.opt.steps
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if scaler is not None:
                scaler.step(self.opt)
            else:
                emulate_scaler(self.opt, gscale, True)
        rec.count("skipped_steps")
        if not any("inf" in str(w.message).lower() for w in caught):
            raise Violation(f"step {t}: skipped without a warning", key="skip_warning")
        if self.opt.steps != steps + 1:
            raise Violation(
                f"step {t}: step counter went from {steps} to {self.opt.steps}",
                key="skip_counter",
            )
        after = state.full(self.model, self.opt)
        changed = state.diff(before, after, ignore=("/opt/steps", "grad_scales", "/H_"))
        if changed:
            raise Violation(f"step {t}: skipped step changed {changed[:5]}", key="skip")
        left = [k for k in after if "/H_" in k and isinstance(after[k], torch.Tensor)]
        if left:
            raise Violation(
                f"step {t}: statistics of the skipped batch were kept: {left[:3]}",
                key="skip_kept",
            )
        self.t += 1

    # ------------------------------------------------------------------ oracles
    def _check_grads(self, grads, gscale):
        if "grads" not in self.watch or gscale != 1.0:
            return
        for i, (l, g) in enumerate(zip(self.layers, grads)):
            for p, q in zip(progs.params_of(l), g):
                # same computation, only the order of accumulations may differ
                tol = 1e3 * torch.finfo(self.dtype).eps * q.abs().max().item()
                if (p.grad - q).abs().max().item() > tol:
                    raise Violation(
                        f"step {self.t}: gradient of layer {i} differs from plain "
                        f"autograd",
                        key="grads",
                    )

    def _check_precond(self, i, r, updated, K0, C0, K1, C1):
        if not updated:
            self.rec.count("precond_must_not_change")
            if not (torch.equal(K0, K1) and torch.equal(C0, C1)):
                raise Violation(
                    f"step {self.t}: pre-conditioner of layer {i} changed although its "
                    f"interval is {r.hp['T']}",
                    key="interval",
                )
            return
        t = self.tol
        for what, obs0, obs1, want, beta_m, struct in [
            ("K", K0, K1, r.dK, r.mK, r.hp["structures"][0]),
            ("C", C0, C1, r.dC, r.mC, r.hp["structures"][1]),
        ]:
            self.rec.count("precond_updates_judged")
            self.rec.mark(f"{what}:{struct}:{r.hp['kfac_approx']}")
            got = obs1 - obs0
            big = max(1.0, obs0.abs().max().item())
            b = r.lr_cov(self.t)
            tol = (
                t["rel"] * want.abs().max().item()
                + t["acc"] * b * big * max(1.0, beta_m.abs().max().item()) * len(obs0)
                + t["eps"] * big
            )
            err = (got - want).abs().max().item()
            if not err <= tol and torch.isfinite(want).all():
                raise Violation(
                    f"step {self.t}: update of {what} ({struct}) of layer {i} deviates "
                    f"from the documented rule: err={err:.3e} tol={tol:.3e} "
                    f"|update|={want.abs().max().item():.3e}",
                    key="precond",
                )

    def _check_params(self, i, r, W, W1, G, want):
        t = self.tol
        lr = r.hp["lr"]
        got = W1 - W
        floor = lr * _absprod(r.C, r.C.T, G, r.K, r.K.T)
        tol = (
            t["rel"] * want.abs().max().item()
            + t["acc"] * (floor + lr * r.hp["weight_decay"] * W.abs().max().item())
            + t["eps"] * W.abs().max().item()
        )
        err = (got - want).abs().max().item()
        self.rec.count("param_updates_judged")
        if not err <= tol and torch.isfinite(want).all():
            raise Violation(
                f"step {self.t}: parameter update of layer {i} deviates from the "
                f"documented rule: err={err:.3e} tol={tol:.3e} "
                f"|update|={want.abs().max().item():.3e}",
                key="params",
            )


def poke(tensor, fault):
    """Write the value of a fault into one entry."""
    pos = torch.tensor(fault["pos"] % tensor.numel())
    tensor[tuple(i.item() for i in torch.unravel_index(pos, tensor.shape))] = float(
        fault["value"]
    )


def emulate_scaler(opt, gscale, found_inf, device="cpu"):
    """What ``GradScaler.step`` does with optimizers that handle scales themselves."""
    opt.grad_scale = torch.tensor(gscale, dtype=torch.float32, device=device)
    opt.found_inf = torch.tensor(float(found_inf), device=device)
    try:
        opt.step()
    finally:
        del opt.grad_scale, opt.found_inf


# ----------------------------------------------------------------------------------
# plain trajectories (for metamorphic comparisons of two executions of the real code)
# ----------------------------------------------------------------------------------
def snapshot(model, opt, names):
    snap = {f"p:{n}": p.detach().clone() for n, p in model.named_parameters()}
    for n in names:
        snap[f"K:{n}"] = opt.Ks[n].to_dense().detach().clone()
        snap[f"C:{n}"] = opt.Cs[n].to_dense().detach().clone()
    return snap


def compare(a, b, rel, what, key, skip=(), rec=None):
    """Compare two snapshots entry-wise."""
    if a.keys() != b.keys():
        raise Violation(f"{what}: different entries", key=key)
    for k in a:
        if any(k.startswith(s) for s in skip):
            continue
        if rec is not None:
            rec.count("tensors_compared")
        if rel == 0.0:
            ok = torch.equal(a[k], b[k]) or (
                a[k].shape == b[k].shape
                and torch.equal(torch.isnan(a[k]), torch.isnan(b[k]))
                and torch.equal(torch.nan_to_num(a[k]), torch.nan_to_num(b[k]))
            )
            err = None if ok else progs.relerr(a[k], b[k])
        else:
            err = progs.relerr(a[k], b[k], floor=1e-2)
            ok = err <= rel
        if not ok:
            raise Violation(f"{what}: {k} differs (relative error {err})", key=key)


def sane(snap, big=1e3):
    return all(torch.isfinite(v).all() and (v.numel() == 0 or v.abs().max() < big) for v in snap.values())
