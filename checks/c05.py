"""Parameter groups: every layer is governed by its own group's settings only."""

import random

import torch

from vlib import engine, progs, workload
from vlib.core import Violation

ID = "C05"
LEVEL = "exploration"
TECHNIQUE = (
    "reference-model monitor plus differential execution of equivalent group layouts"
)
RULE = (
    "Random programs with 2-4 parameter groups of different settings, executed (a) next "
    "to the per-layer reference, and compared with executions that must be equivalent: "
    "(b) groups/parameters listed in another order, (c) settings given as constructor "
    "defaults and overridden per group, (d) one separate optimizer per group. "
    "Differential runs also vary the groups' pre-conditioner data types. "
    "Non-trivial: at least two groups with different settings and two judged steps."
)
ASSUMPTIONS = ["CPU tensors", "a layer's parameters are in the same group"]
MIN = {"param_updates_judged": 200, "tensors_compared": 1000}


def cases(rng, tier):
    n = 700 if tier == "quick" else 15000
    out = []
    while len(out) < n:
        dtype = rng.choice(["float64", "float64", "float32"])
        spec = progs.rand_spec(rng, dtype=dtype, groups=rng.choice([2, 2, 3, 4]))
        if len(spec["hps"]) < 2:
            continue
        mode = rng.choice(["ref", "ref", "order", "defaults", "separate"])
        if rng.random() < 0.12:
            kinds = progs.STRETCH if mode == "ref" else ["wide", "wide_conv", "batch", "micros"]
            progs.stretch(rng, spec, rng.choice(kinds))
            if len(spec["hps"]) < 2:
                continue
        for hp in spec["hps"]:
            hp["lr"] = min(hp["lr"], 0.1)
        if mode != "ref" and dtype == "float32" and rng.random() < 0.5:
            for hp in spec["hps"]:
                hp["preconditioner_dtype"] = [
                    rng.choice([None, "bfloat16"]) for _ in range(2)
                ]
        out.append(
            {
                "seed": spec["seed"],
                "spec": spec,
                "mode": mode,
                "hist": workload.rand_history(rng, spec, mutate=False, distract=False),
                "shuffle": rng.randrange(10**6),
            }
        )
    return out


def _groups(spec, layers):
    return [
        {
            "params": [
                p
                for l, a in zip(layers, spec["assign"])
                if a == g
                for p in l.parameters()
            ],
            **progs.to_kwargs(hp),
        }
        for g, hp in enumerate(spec["hps"])
    ]


def _train(case, build):
    """Yield snapshots; ``build(model, layers)`` returns the optimizers."""
    spec = case["spec"]
    dtype = getattr(torch, spec["dtype"])
    model, mods = progs.build_model(spec["arch"], spec["seed"], dtype=dtype)
    layers = [mods[i] for i in progs.supported_idx(spec["arch"])]
    names = progs.names_of(model, layers)
    opts = build(model, layers)
    owner = {n: o for o in opts for n in names if n in o.Ks}
    snaps = []
    for t, ev in enumerate(case["hist"]):
        x, ts = progs.batch(spec, t, n=ev["n"])
        progs.loss_fn(spec, model(x.to(dtype)), ts).backward()
        for o in opts:
            o.step()
        for o in opts:
            o.zero_grad()
        snap = {f"p:{n}": p.detach().clone() for n, p in model.named_parameters()}
        for n in names:
            snap[f"K:{n}"] = owner[n].Ks[n].to_dense().clone()
            snap[f"C:{n}"] = owner[n].Cs[n].to_dense().clone()
        for l, a, n in zip(layers, case["spec"]["assign"], names):
            wanted = case["spec"]["hps"][a].get("preconditioner_dtype", [None, None])
            for f, d in zip("KC", wanted):
                d = l.weight.dtype if d is None else getattr(torch, d)
                if snap[f"{f}:{n}"].dtype != d:
                    raise Violation(f"{f} of {n} is not of the group's type {d}", key="type")
        snaps.append(snap)
    return snaps


def run(case, rec):
    from singd.optim.optimizer import SINGD

    spec = case["spec"]
    rec.mark(case["mode"])
    rec.mark(f"{len(spec['hps'])} groups")
    rec.mark(f"stretch:{spec.get('stretch')}")
    if case["mode"] == "ref":
        mon = engine.Monitor(spec, rec, style="groups")
        workload.play(mon, case["hist"])
        rec.nontrivial = rec.counts.get("param_updates_judged", 0) >= 2
        return

    rng = random.Random(case["shuffle"])
    base = _train(case, lambda m, ls: [SINGD(m, params=_groups(spec, ls))])

    if case["mode"] == "order":

        def build(m, ls):
            groups = _groups(spec, ls)
            rng.shuffle(groups)
            for g in groups:
                rng.shuffle(g["params"])
            return [SINGD(m, params=groups)]

    elif case["mode"] == "defaults":

        def build(m, ls):
            groups = _groups(spec, ls)
            # the defaults are the settings of one group, which then omits them
            base_idx = rng.randrange(len(groups))
            defaults = {k: v for k, v in groups[base_idx].items() if k != "params"}
            for i, g in enumerate(groups):
                for k in list(g):
                    if k == "params":
                        continue
                    same = g[k] is defaults[k] or (
                        not callable(g[k]) and g[k] == defaults[k]
                    )
                    if same and (i == base_idx or rng.random() < 0.5):
                        del g[k]
            return [SINGD(m, params=groups, **defaults)]

    else:

        def build(m, ls):
            return [
                SINGD(
                    m,
                    params=g["params"],
                    **{k: v for k, v in g.items() if k != "params"},
                )
                for g in _groups(spec, ls)
            ]

    other = _train(case, build)
    tol = 1e-9 if spec["dtype"] == "float64" else 1e-3
    for t, (a, b) in enumerate(zip(base, other)):
        if not (engine.sane(a) and engine.sane(b)):
            break
        engine.compare(
            a, b, tol, f"{case['mode']}, step {t}", key=case["mode"], rec=rec
        )
        rec.count("snapshots_compared")
    rec.nontrivial = rec.counts.get("snapshots_compared", 0) >= 2
