"""Reducing structured matrices across processes equals reducing dense forms."""

import random
import time

import torch

from checks.c21 import relayout
from vlib import distrun, structs, userstructs
from vlib.core import Violation

ID = "C27"
LEVEL = "exploration"
TECHNIQUE = (
    "real gloo process groups: dense forms of all matrices of all processes logged before "
    "and after random sequences of reductions, offline check against the reduced dense forms"
)
RULE = (
    "Worlds of 1-4 processes execute batches of random programs: 1-4 matrices per process "
    "(shipped, recursive and minimal structures, any layout and type), and 1-6 blocking or "
    "asynchronous reductions (sum, average, largest, smallest, product) over random groups, "
    "with random delays, orders of completion and arithmetic in between. Non-trivial: a "
    "program with two processes and a reduction of a matrix of dimension two or more."
)
ASSUMPTIONS = ["gloo on the loopback device, CPU tensors",
               "asynchronous reductions are complete once their handles were waited for"]
MIN = {"reductions_judged": 800, "unchanged_judged": 800}
PROCS = 3
OPS = ["SUM", "SUM", "AVG", "AVG", "MAX", "MIN", "PRODUCT"]


def _program(rng, world):
    mats = []
    while len(mats) < rng.randint(1, 4):
        user = rng.random() < 0.25
        desc = userstructs.rand_user_desc(rng) if user else structs.rand_desc(rng)
        dim = rng.choice([1, 2, 3, 4, 5, 8, 13, rng.randint(10, 45)])
        dim = structs.edge_dim(rng, desc, dim)
        if not (userstructs if user else structs).valid_dim(desc, dim):
            continue
        mats.append(
            {
                "desc": desc,
                "user": user,
                "style": rng.choice(["vector", "dense", "columns"]),
                "dim": dim,
                "dtype": rng.choice(["float32", "float32", "float64", "float16", "bfloat16"]),
                "layout": rng.choice(["plain", "t", "strided", "expand", "dense", "eye"]),
                "seed": rng.randrange(10**6),
            }
        )
    events = []
    for _ in range(rng.randint(1, 6)):
        ranks = None
        if rng.random() < 0.4:
            ranks = sorted(rng.sample(range(world), rng.randint(1, world)))
        events.append(
            {
                "mat": rng.randrange(len(mats)),
                "op": rng.choice(OPS),
                "default": rng.random() < 0.2,
                "ranks": ranks,
                "all_call": rng.random() < 0.3,
                "async": rng.random() < 0.5,
                "wait": rng.random() < 0.4,
                "scale": rng.choice([None, None, 0.5, -1.0]),
            }
        )
    return {"mats": mats, "events": events, "seed": rng.randrange(10**6),
            "delay": rng.random() < 0.15}


def cases(rng, tier):
    worlds = [2, 3, 4, 2, 3, 1] if tier == "quick" else [2, 3, 4] * 25 + [1]
    per = 90 if tier == "quick" else 250
    return [
        {
            "seed": rng.randrange(10**6),
            "world": w,
            "programs": [_program(rng, w) for _ in range(per)],
        }
        for w in worlds
    ]


def make(m, rank):
    gen = torch.Generator().manual_seed(m["seed"] * 10 + rank)
    dtype = getattr(torch, m["dtype"])
    rand0 = structs.rand_fn(gen, dtype)

    def rand(*shape):
        t = rand0(*shape)
        if m["layout"] == "expand" and t.ndim == 2 and t.numel():
            return t[:, :1].expand(*shape)
        return relayout(t, m["layout"])

    if m["user"]:
        cls = userstructs.make_cls(m["desc"], m["style"], warn=False)
        if m["layout"] == "eye":
            return cls.eye(m["dim"], dtype=dtype)
        return cls.from_dense(userstructs.member(m["desc"], m["dim"], rand))
    cls = structs.make_cls(m["desc"])
    if m["layout"] == "eye":
        return cls.eye(m["dim"], dtype=dtype)
    if m["layout"] == "dense":
        S = rand(m["dim"], m["dim"])
        return cls.from_dense(S + S.T)
    # ``member`` clones, which keeps most strides but not overlapping memory
    M, _ = structs.member(m["desc"], m["dim"], rand)
    if m["layout"] in ("t", "strided", "expand"):
        for _, t in M.named_tensors():
            if m["layout"] == "expand" and t.ndim and t.numel():
                t.set_(t.reshape(-1)[:1].expand(t.shape).clone().expand(t.shape))
                continue
            t.set_(relayout(t.contiguous(), m["layout"]))
    return M


def rank_main(payload, rank, world):
    import torch.distributed as dist

    groups = {}
    wanted = sorted(
        {tuple(e["ranks"]) for p in payload for e in p["events"] if e["ranks"]}
    )
    for ranks in wanted:
        groups[ranks] = dist.new_group(list(ranks))
    out = []
    for prog in payload:
        rng = random.Random(f"{prog['seed']}-{rank}")
        mats = [make(m, rank) for m in prog["mats"]]
        log = [[M.to_dense().clone() for M in mats]]
        pending, notes = [], []
        for ev in prog["events"]:
            M = mats[ev["mat"]]
            # in-place operations require earlier reductions to be complete
            for p in [p for p in pending if p[0] == ev["mat"]]:
                finish(p, pending)
            if ev["scale"] is not None:
                M.mul_(ev["scale"])
            if prog["delay"]:
                time.sleep(rng.choice([0.0, 0.003, 0.02]))
            member = ev["ranks"] is None or rank in ev["ranks"]
            if member or ev["all_call"]:
                kw = {}
                if ev["ranks"] is not None:
                    kw["group"] = groups[tuple(ev["ranks"])]
                if not ev["default"]:
                    kw["op"] = getattr(dist.ReduceOp, ev["op"])
                if ev["async"]:
                    kw["async_op"] = True
                res = M.all_reduce(**kw)
                notes.append(describe(res, member))
                if ev["async"] and res is not None:
                    pending.append((ev["mat"], [h for h in res if h is not None]))
            else:
                notes.append(None)
            if ev["wait"]:
                rng.shuffle(pending)
                for p in list(pending):
                    finish(p, pending)
            if not pending:
                log.append([M.to_dense().clone() for M in mats])
            else:
                log.append(None)
        rng.shuffle(pending)
        for p in list(pending):
            finish(p, pending, rng)
        log.append([M.to_dense().clone() for M in mats])
        out.append({"log": log, "notes": notes,
                    "types": [str({t.dtype for _, t in M.named_tensors()}) for M in mats]})
    return out


def describe(res, member):
    if not member:
        return "outsider"
    if res is None:
        return "none"
    ok = isinstance(res, tuple) and all(hasattr(h, "wait") for h in res)
    return "handles" if ok else f"{type(res)}"


def finish(p, pending, rng=None):
    handles = list(p[1])
    if rng is not None:
        rng.shuffle(handles)
    for h in handles:
        h.wait()
    pending.remove(p)


def reduce(op, values):
    out = values[0].clone()
    for v in values[1:]:
        if op in ("SUM", "AVG"):
            out = out + v
        elif op == "PRODUCT":
            out = out * v
        else:
            out = torch.maximum(out, v) if op == "MAX" else torch.minimum(out, v)
    return out / len(values) if op == "AVG" else out


def run(case, rec):
    world = case["world"]
    results = distrun.launch("c27", case["programs"], world)
    for i, prog in enumerate(case["programs"]):
        judge(case, i, prog, [r[i] for r in results], world, rec)


def judge(case, i, prog, res, world, rec):
    nm = len(prog["mats"])
    state = [[res[r]["log"][0][k].double() for k in range(nm)] for r in range(world)]
    mag = [[s.abs().max().item() for s in row] for row in state]
    for r in range(world):
        for k, m in enumerate(prog["mats"]):
            if res[r]["types"][k] != str({getattr(torch, m["dtype"])}):
                raise Violation(f"reduction changed the type to {res[r]['types'][k]}", key="type")
    touched = set()
    for e, ev in enumerate(prog["events"]):
        k = ev["mat"]
        m = prog["mats"][k]
        if ev["scale"] is not None:
            for r in range(world):
                state[r][k] = state[r][k] * ev["scale"]
        ranks = ev["ranks"] if ev["ranks"] is not None else list(range(world))
        op = "AVG" if ev["default"] else ev["op"]
        want = reduce(op, [state[r][k] for r in ranks])
        top = max(mag[r][k] for r in ranks)
        for r in ranks:
            state[r][k] = want
            if op == "PRODUCT":
                mag[r][k] = max(1e-30, top) ** len(ranks)
            elif op == "SUM":
                mag[r][k] = top * len(ranks)
            else:
                mag[r][k] = top
        for r in range(world):
            note = res[r]["notes"][e]
            expect = ("handles" if ev["async"] else "none") if r in ranks else note
            if note != expect:
                raise Violation(f"program {i}: all_reduce returned {note}", key="returned")
        touched.add(k)
        label = m["desc"] if m["user"] else structs.label(m["desc"])
        rec.mark(f"{str(label)[:40]}:{op}:{ev['async']}")
        rec.mark(f"{m['layout']}:{m['dtype']}:{len(ranks)} of {world}")
        rec.nontrivial |= world > 1 and m["dim"] > 1
        compare(rec, prog, i, f"after event {e} ({op} over {ranks})",
                [x["log"][e + 1] for x in res], state, mag, k)
    compare(rec, prog, i, "at the end", [x["log"][-1] for x in res], state, mag, None)


def compare(rec, prog, i, when, logs, state, mag, k0):
    for r, mats in enumerate(logs):
        if mats is None:  # still pending on this process
            continue
        for k, got in enumerate(mats):
            m = prog["mats"][k]
            want = state[r][k]
            dt = getattr(torch, m["dtype"])
            if mag[r][k] > torch.finfo(dt).max / 4:
                rec.count("too_large")
                continue
            tol = 24 * torch.finfo(dt).eps * mag[r][k] + 8 * torch.finfo(dt).tiny
            err = (got.double() - want).abs().max().item() if want.numel() else 0.0
            rec.count("reductions_judged" if k == k0 else "unchanged_judged")
            if not err <= tol or got.shape != want.shape:
                label = m["desc"] if m["user"] else structs.label(m["desc"])
                raise Violation(
                    f"program {i}: matrix {k} ({label}, dim {m['dim']}, {m['layout']}, "
                    f"{m['dtype']}) of rank {r} {when}: error {err:.3e} > {tol:.3e}",
                    key="reduced",
                )
