"""Training is deterministic and optimizers are independent of each other."""

import hashlib
import json
import os
import random
import subprocess
import sys
import threading
import warnings
from pathlib import Path

import numpy
import torch

from vlib import engine, progs, state, traj
from vlib.core import Inconclusive, Violation

ID = "C18"
LEVEL = "exploration"
TECHNIQUE = (
    "differential trace monitor: bit-wise comparison of a program executed alone with the "
    "same program interleaved with others (random schedules, threads, other processes, "
    "several optimizers on one model), plus monitors of global state around every call"
)
RULE = (
    "Two to four random training programs. Modes: random interleaving of their events in "
    "one thread; concurrent threads with tiny switch intervals; a fresh interpreter in "
    "reversed order; one model whose layers (or their weights and biases) are "
    "distributed over several optimizers compared with one optimizer with groups. "
    "Non-trivial: at least four steps of at least two programs took place in between."
)
ASSUMPTIONS = [
    "operations of PyTorch on one thread are deterministic",
    "the warning filter set when a step is skipped is documented in the code (warn every time)",
]
MIN = {"snapshots_compared": 3000, "global_states_compared": 5000, "interleavings": 100,
       "threaded": 40, "split_models": 100, "fresh_programs": 20}
ROOT = Path(__file__).resolve().parent.parent


def program(rng, **kw):
    dtype = rng.choice(["float32", "float32", "float64"])
    spec = progs.rand_spec(rng, dtype=dtype, wide=rng.random() < 0.1, **kw)
    if rng.random() < 0.03 and not kw:
        progs.stretch(rng, spec, rng.choice(["wide", "wide_conv", "batch"]))
    for hp in spec["hps"]:
        if rng.random() < 0.2 and dtype == "float32":
            hp["preconditioner_dtype"] = [rng.choice([None, "bfloat16"]), None]
    events = []
    for _ in range(spec["steps"]):
        events += [rng.choice(["train", "train", "train", "eval", "micro", "save"])]
        events += rng.choice([[], ["skip"], ["reload"], []])
        if rng.random() < 0.2:
            events += [rng.choice(list(REJECTED))]
    spec["events"] = events + ["train"]
    if rng.random() < 0.3:  # gradient scales that are communicated in some steps
        spec["gscales"] = [rng.choice([None, 1.0, 2.0, 512.0]) for _ in range(3)]
    return traj.calm(spec)


def cases(rng, tier):
    n = 420 if tier == "quick" else 9000
    out = []
    for i in range(n):
        mode = ["inter", "threads", "split", "inter"][i % 4]
        case = {"seed": rng.randrange(10**6), "mode": mode}
        if mode == "inter" and rng.random() < 0.5:
            case["ambient"] = rng.sample(sorted(AMBIENT), rng.randint(1, 4))
        if mode == "split":
            case["specs"] = [program(rng, groups=3, steps=rng.randint(3, 7))]
        else:
            case["specs"] = [program(rng) for _ in range(rng.randint(2, 4))]
            if rng.random() < 0.4:  # equal names, shapes and data
                case["specs"][1] = json.loads(json.dumps(case["specs"][0]))
                if rng.random() < 0.5:
                    for hp in case["specs"][1]["hps"]:
                        hp["T"] = 1 + hp["T"] % 3
                        hp["damping"] += 0.1
        out.append(case)
    for _ in range(3 if tier == "quick" else 30):
        out.insert(
            rng.randrange(len(out)),
            {"seed": 1, "mode": "fresh", "specs": [program(rng) for _ in range(15)]},
        )
    return out


def globals_now(filters=True):
    """Global state that no call may change."""
    from singd.optim.optimizer import SINGD

    return {
        "torch rng": hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest(),
        "random": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "dtype": torch.get_default_dtype(),
        "grad": torch.is_grad_enabled(),
        "inference": torch.is_inference_mode_enabled(),
        "threads": torch.get_num_threads(),
        "autocast": (torch.is_autocast_enabled("cpu"), torch.is_autocast_cache_enabled()),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "anomaly": torch.is_anomaly_enabled(),
        "device": str(torch.get_default_device()),
        "filters": list(warnings.filters) if filters else None,
        "switch": sys.getswitchinterval(),
        "print": torch.get_printoptions() if hasattr(torch, "get_printoptions") else None,
        "structures": dict(SINGD.SUPPORTED_STRUCTURES),
        "supported": (SINGD.SUPPORTED_MODULES, SINGD.SUPPORTED_LOSS_AVERAGE,
                      tuple(SINGD.STATE_ATTRIBUTES)),
        "env": hashlib.sha1(repr(sorted(os.environ.items())).encode()).hexdigest(),
        "cwd": os.getcwd(),
        "precision": torch.get_float32_matmul_precision(),
        "denormals": bool((torch.full((4,), 1e-40) * 0.5 > 0).all()),
        "interop": torch.get_num_interop_threads(),
        "warn always": torch.is_warn_always_enabled(),
        "fill": torch.utils.deterministic.fill_uninitialized_memory,
        "check trace": torch.is_anomaly_check_nan_enabled(),
        "mkldnn": torch.backends.mkldnn.enabled,
        "einsum": (torch.backends.opt_einsum.enabled, torch.backends.opt_einsum.strategy),
        "module hooks": tuple(
            len(getattr(torch.nn.modules.module, name))
            for name in (
                "_global_forward_hooks",
                "_global_forward_pre_hooks",
                "_global_backward_hooks",
                "_global_backward_pre_hooks",
            )
        ),
        "optimizer hooks": tuple(
            len(getattr(sys.modules["torch.optim.optimizer"], name))
            for name in (
                "_global_optimizer_pre_hooks",
                "_global_optimizer_post_hooks",
            )
        ),
        "recursion": sys.getrecursionlimit(),
        "numpy errors": repr(numpy.geterr()),
        "numpy": hashlib.sha1(repr(numpy.random.get_state()).encode()).hexdigest(),
    }


def _bad_schedule(run, opt):
    """A training of its own that is interrupted by an exception."""
    from singd.optim.optimizer import SINGD

    def schedule(step):
        raise OverflowError

    model = torch.nn.Linear(2, 2)
    other = SINGD(model, lr_cov=schedule, T=1)
    model(torch.ones(1, 2)).sum().backward()
    other.step()


def _bad_forward(run, opt):
    run.model(torch.zeros(3, 1, 1, 1, 1, 17, dtype=run.dtype))


def _bad_state(run, opt):
    sd = opt.state_dict()
    opt.load_state_dict({**sd, "param_groups": sd["param_groups"] * 2})


def _new(**kw):
    from singd.optim.optimizer import SINGD

    return lambda run, opt: SINGD(run.model, **kw)


def _bad_backward(run, opt):
    """Back-propagation of another model fails."""
    from singd.optim.optimizer import SINGD

    model = torch.nn.Sequential(torch.nn.Linear(2, 2), torch.nn.Tanh())
    other = SINGD(model, T=1)
    y = model(torch.ones(1, 2)).sum()
    y.backward()
    try:
        y.backward()
    finally:
        other.zero_grad()


# calls that raise an exception, and must not have any effect
REJECTED = {
    "closure": lambda run, opt: opt.step(lambda: None),
    "schedule": _bad_schedule,
    "forward": _bad_forward,
    "state": _bad_state,
    "backward": _bad_backward,
    "new lr": _new(lr=-1.0),
    "new structure": _new(structures=("dense", "sparse")),
    "new approx": _new(kfac_approx="extend"),
    "new average": _new(loss_average="sequence"),
    "new model": lambda run, opt: type(opt)(torch.nn.ReLU()),
    "new type": lambda run, opt: type(opt)(run.model, params=3),
}


class Player:
    """Executes the events of one program one by one and records snapshots."""

    def __init__(self, spec, rec=None, guard=True, opts=None, reject=True):
        self.rec, self.guard, self.reject = rec, guard, reject
        if opts is None:
            self.run = self.call("constructor", lambda: traj.Run(spec))
            self.opts = [self.run.opt]
        else:
            self.run, self.opts = opts
        self.spec, self.i, self.trace = spec, 0, []
        self.saved = None

    def call(self, what, fn, filters=True):
        if not self.guard:
            return fn()
        before = globals_now(filters)
        out = fn()
        after = globals_now(filters)
        self.rec.count("global_states_compared")
        bad = [k for k in before if before[k] != after[k]]
        if bad:
            raise Violation(f"{what} changed global state: {bad}", key="globals")
        return out

    @property
    def done(self):
        return self.i >= len(self.spec["events"])

    def next(self):
        ev = self.spec["events"][self.i]
        r = self.run
        if ev in ("train", "micro", "skip"):
            x, ts = r.data(t=self.i)

            def fwd_bwd():
                y = r.model(x.to(r.dtype))
                traj.loss(self.spec, y, r.target(y.shape, ts)).backward()

            self.call("backward", fwd_bwd)
        if ev == "train":
            scale = self.spec.get("gscales", [None])[self.i % 3 if "gscales" in self.spec else 0]
            if scale is not None:
                for opt in self.opts:
                    self.call("grad_scale", lambda: opt.set_current_grad_scale(scale))
            for opt in self.opts:
                self.call("step", opt.step)
            self.call("zero_grad", r.model.zero_grad)
        elif ev == "skip":
            for opt in self.opts:
                self.call(
                    "skip", lambda: engine.emulate_scaler(opt, 1.0, True), filters=False
                )
            r.model.zero_grad()
        elif ev == "eval":
            with torch.no_grad():
                self.call("forward", lambda: r.model(r.data(t=self.i)[0].to(r.dtype)))
        elif ev == "save":
            self.saved = self.call("state_dict", lambda: [o.state_dict() for o in self.opts])
            self.saved = json_safe_copy(self.saved)
        elif ev == "reload" and self.saved is not None:
            for o, sd in zip(self.opts, json_safe_copy(self.saved)):
                self.call("load_state_dict", lambda: o.load_state_dict(sd))
        elif ev in REJECTED and self.reject:
            self.call(ev, lambda: self.refused(ev))
        self.i += 1
        self.trace.append(self.snap())

    def refused(self, ev):
        try:
            with torch.random.fork_rng(devices=[]):  # for the models created here
                REJECTED[ev](self.run, self.opts[0])
        except Exception as e:
            if self.rec is not None:
                self.rec.count("rejected_calls")
                self.rec.mark(f"{ev}: {type(e).__name__}")
        else:
            if self.rec is not None:
                self.rec.mark(f"{ev}: accepted")

    def snap(self):
        r = self.run
        snap = {f"p:{n}": p.detach().clone() for n, p in r.model.named_parameters()}
        for opt in self.opts:
            for n in opt.Ks:
                snap[f"K:{n}"] = opt.Ks[n].to_dense().detach().clone()
                snap[f"C:{n}"] = opt.Cs[n].to_dense().detach().clone()
        return snap


def json_safe_copy(sds):
    import copy

    return [copy.deepcopy(sd) for sd in sds]


def play(spec, rec=None, guard=True, reject=True):
    p = Player(spec, rec, guard, reject=reject)
    while not p.done:
        p.next()
    return p.trace


def judge(rec, got, want, what, key):
    for i, (a, b) in enumerate(zip(got, want)):
        rec.count("snapshots_compared")
        bad = state.diff(a, b)
        if bad or len(got) != len(want):
            raise Violation(f"{what}: event {i}: {bad[:3]} differ", key=key)


# global settings a user may have changed: how they are set and restored
AMBIENT = {
    "anomaly": (lambda: torch.autograd.set_detect_anomaly(True, check_nan=False),
                lambda: torch.autograd.set_detect_anomaly(False, check_nan=True)),
    "deterministic": (lambda: torch.use_deterministic_algorithms(True, warn_only=True),
                      lambda: torch.use_deterministic_algorithms(False)),
    "double": (lambda: torch.set_default_dtype(torch.float64),
               lambda: torch.set_default_dtype(torch.float32)),
    "half": (lambda: torch.set_default_dtype(torch.bfloat16),
             lambda: torch.set_default_dtype(torch.float32)),
    "warn": (lambda: torch.set_warn_always(True), lambda: torch.set_warn_always(False)),
    "precision": (lambda: torch.set_float32_matmul_precision("medium"),
                  lambda: torch.set_float32_matmul_precision("highest")),
    "einsum": (lambda: setattr(torch.backends.opt_einsum, "enabled", False),
               lambda: setattr(torch.backends.opt_einsum, "enabled", True)),
    "recursion": (lambda: sys.setrecursionlimit(1777), lambda: sys.setrecursionlimit(1000)),
    "filter": (lambda: warnings.simplefilter("ignore", FutureWarning), lambda: None),
    "cache": (lambda: torch.set_autocast_cache_enabled(False),
              lambda: torch.set_autocast_cache_enabled(True)),
    "numpy": (lambda: numpy.seterr(all="raise"), lambda: numpy.seterr(all="warn")),
}


def run(case, rec):
    names = case.get("ambient", [])
    limit = sys.getrecursionlimit()
    try:
        for name in names:
            AMBIENT[name][0]()
            rec.count("ambient_settings")
        return judge_case(case, rec)
    finally:
        for name in names:
            AMBIENT[name][1]()
        sys.setrecursionlimit(limit)


def judge_case(case, rec):
    mode = case["mode"]
    if mode == "fresh":
        return fresh(case, rec)
    specs = case["specs"]
    if mode == "split":
        return split(case, rec)
    # executed without the calls that are rejected
    alone = [play(s, rec, guard=mode == "inter", reject=False) for s in specs]
    gen = random.Random(case["seed"])
    if mode == "inter":
        players = [Player(s, rec) for s in specs]
        switches, last = 0, None
        while any(not p.done for p in players):
            p = gen.choice([p for p in players if not p.done])
            switches += p is not last
            last = p
            p.next()
        got = [p.trace for p in players]
        rec.count("interleavings")
        rec.count("switches", switches)
    else:
        # models are created before because that uses the global random number generator
        players, errors = [Player(s, guard=False) for s in specs], []
        start = threading.Barrier(len(specs))

        def work(p):
            try:
                start.wait()
                while not p.done:
                    p.next()
            except Exception as e:
                errors.append(e)

        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            ths = [threading.Thread(target=work, args=(p,)) for p in players]
            for th in ths:
                th.start()
            for th in ths:
                th.join()
        finally:
            sys.setswitchinterval(old)
        if errors:
            raise errors[0]
        got = [p.trace for p in players]
        rec.count("threaded")
    for i, (a, b) in enumerate(zip(got, alone)):
        judge(rec, a, b, f"program {i} with {len(specs) - 1} others ({mode})", mode)
    rec.nontrivial = sum(len(s["events"]) >= 4 for s in specs) >= 2


def split(case, rec):
    """One optimizer per group of layers instead of one optimizer with groups."""
    from singd.optim.optimizer import SINGD

    (spec,) = case["specs"]
    want = play(spec, rec)
    gen = random.Random(case["seed"])
    r = traj.Run.__new__(traj.Run)
    r.spec, r.dtype, r.t = spec, getattr(torch, spec["dtype"]), 0
    r.model, r.mods = progs.build_model(spec["arch"], spec["seed"], dtype=r.dtype)
    r.layers = [r.mods[i] for i in progs.supported_idx(spec["arch"])]
    opts = []
    for g, hp in enumerate(spec["hps"]):
        params = [
            p for l, a in zip(r.layers, spec["assign"]) if a == g for p in l.parameters()
        ]
        parts = [params]
        if gen.random() < 0.4:  # weights and biases are trained by different optimizers
            parts = [[p for p in params if p.ndim > 1], [p for p in params if p.ndim == 1]]
            rec.count("split_layers", sum(p.ndim == 1 for p in params))
        for part in filter(None, parts):
            opts.append(SINGD(r.model, params=part, **progs.to_kwargs(hp)))
    gen.shuffle(opts)
    player = Player(spec, rec, opts=(r, opts))
    while not player.done:
        player.next()
    judge(rec, player.trace, want, f"{len(opts)} optimizers for one model", "split")
    rec.count("split_models")
    rec.nontrivial = len(opts) >= 2 and len(spec["events"]) >= 4


def digest(trace):
    h = hashlib.sha256()
    for snap in trace:
        for k in sorted(snap):
            h.update(k.encode())
            h.update(snap[k].contiguous().view(torch.uint8).numpy().tobytes()
                     if snap[k].numel() else b"")
    return h.hexdigest()


CODE = """
import json, sys, warnings
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
warnings.simplefilter("ignore")
import numpy
import torch
from checks import c18
from vlib import core
core._reset()
specs = json.load(sys.stdin)
out = [c18.digest(c18.play(s, guard=False)) for s in reversed(specs)]
print("DIGESTS " + json.dumps(out[::-1]))
"""


def fresh(case, rec):
    from vlib.core import REPO

    want = [digest(play(s, guard=False)) for s in case["specs"]]
    for hashseed in ("0", "4242"):
        res = subprocess.run(
            [sys.executable, "-c", CODE, str(ROOT), str(REPO)],
            input=json.dumps(case["specs"]), capture_output=True, text=True,
            env={**os.environ, "PYTHONHASHSEED": hashseed}, timeout=200,
        )
        line = [l for l in res.stdout.splitlines() if l.startswith("DIGESTS ")]
        if not line:
            raise Inconclusive(f"fresh interpreter failed: {res.stderr[-300:]}")
        got = json.loads(line[0][8:])
        rec.count("fresh_programs", len(got))
        bad = [i for i, (a, b) in enumerate(zip(got, want)) if a != b]
        if bad:
            raise Violation(f"programs {bad} differ in a fresh interpreter", key="process")
    rec.nontrivial = True
