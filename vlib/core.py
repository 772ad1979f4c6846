"""Case runner: seeded workloads, three-valued verdicts, evidence and replays.

A check module defines

- ``ID``, ``LEVEL``, ``RULE``, ``ASSUMPTIONS``
- ``cases(rng, tier) -> list[dict]``: JSON-able workload descriptions
- ``run(case, rec)``: executes a workload against the real code and lets the monitors
  observe it. Raises ``Violation`` if the oracle refutes the property.
- ``MIN``: counters (monitor observations) that must at least be reached for a run to
  be conclusive.
"""

import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings
from pathlib import Path

ROOT = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))


class Violation(Exception):
    """The oracle refuted the property. ``key`` identifies the mechanism."""

    def __init__(self, msg, key="", **details):
        super().__init__(msg)
        self.msg, self.key, self.details = msg, key, details


class Inconclusive(Exception):
    """The workload could not be judged."""


class Rec:
    """What the monitors observed during one case."""

    def __init__(self):
        self.counts = {}
        self.marks = set()
        self.nontrivial = False
        self.signature = None

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def mark(self, name):
        """Record a distinct kind of thing that was observed."""
        self.marks.add(str(name))


def _sig(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


CASE_TIMEOUT = 240


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def _reset():
    import torch

    torch.set_num_threads(1)
    # oneDNN reads uninitialised memory in padded bfloat16 convolutions and hangs in some
    # grouped float16 ones: its results say nothing about the code under test
    torch.backends.mkldnn.set_flags(False)
    torch.set_default_dtype(torch.float32)
    torch.use_deterministic_algorithms(False)
    torch.set_grad_enabled(True)
    warnings.resetwarnings()
    warnings.simplefilter("ignore")


def _silent(*_args, **_kwargs):
    """The code under test may re-enable warnings."""


_MODULE = None


def _work(item):
    idx, case = item
    rec = Rec()
    out = {"idx": idx}
    t0 = time.time()
    try:
        import torch

        _reset()
        torch.manual_seed(case.get("seed", 0))
        random.seed(case.get("seed", 0))
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_TIMEOUT)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                warnings.showwarning = _silent
                _MODULE.run(case, rec)
        finally:
            signal.alarm(0)
            _reset()
    except Violation as e:
        out["violation"] = {"msg": e.msg, "key": e.key, "details": repr(e.details)}
    except Inconclusive as e:
        out["inconclusive"] = str(e)
    except _Timeout:
        out["inconclusive"] = f"case timed out after {CASE_TIMEOUT}s"
    except (MemoryError, OSError, ImportError) as e:
        out["inconclusive"] = f"environment: {e!r}"
    except Exception as e:  # the code under test raised on a valid workload
        tb = traceback.format_exc()
        out["violation"] = {
            "msg": f"unexpected {type(e).__name__}: {str(e)[:300]}",
            "key": "exception",
            "details": tb[-3000:],
        }
    out["counts"] = rec.counts
    out["marks"] = sorted(rec.marks)
    out["nontrivial"] = rec.nontrivial
    out["signature"] = rec.signature or _sig(case)
    out["wall"] = time.time() - t0
    return out


def load_known():
    path = ROOT / "known_findings.jsonl"
    known = []
    if path.exists():
        for line in path.read_text().splitlines():
            if line.strip():
                known.append(json.loads(line))
    return known


def main(module, argv):
    global _MODULE
    _MODULE = module
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    pid = module.ID

    import singd

    origin = Path(singd.__file__).resolve()
    if REPO.resolve() not in origin.parents:
        print(f"ERROR: singd imported from {origin}, expected {REPO}")
        return 2

    if argv[:1] == ["--replay"]:
        case = json.loads(Path(argv[1]).read_text())["case"]
        out = _work((0, case))
        print(json.dumps({k: v for k, v in out.items() if k != "marks"}, indent=1))
        if "violation" in out:
            print(out["violation"]["details"])
            print(f"VIOLATION property={pid} replay={argv[1]}")
            return 1
        return 2 if "inconclusive" in out else 0

    def expired(*_):
        print(f"INCONCLUSIVE: {pid} did not finish in time", flush=True)
        for child in mp.active_children():
            child.kill()
        os._exit(2)

    limit = 840 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", 6 * 3600))
    signal.signal(signal.SIGALRM, expired)
    signal.alarm(limit)

    rng = random.Random(f"{pid}-{seed}-{tier}")
    cases = module.cases(rng, tier)
    procs = getattr(module, "PROCS", 8)
    procs = max(1, min(procs, os.cpu_count() or 1))
    results = []
    if procs == 1:
        results = [_work(it) for it in enumerate(cases)]
    else:
        ctx = mp.get_context("fork")
        chunk = max(1, min(8, len(cases) // (procs * 6)))
        with ctx.Pool(procs, maxtasksperchild=getattr(module, "MAXTASKS", None)) as pool:
            results = list(pool.imap_unordered(_work, list(enumerate(cases)), chunk))
    signal.alarm(0)
    results.sort(key=lambda r: r["idx"])

    counts, marks, sigs = {}, set(), set()
    for r in results:
        for k, v in r["counts"].items():
            counts[k] = counts.get(k, 0) + v
        marks.update(r["marks"])
        if r["nontrivial"]:
            sigs.add(r["signature"])
    viols = [r for r in results if "violation" in r]
    incon = [r for r in results if "inconclusive" in r]

    known = {
        (k["property"], k["key"]): k for k in load_known() if k["status"] == "known"
    }
    new, seen_known = [], {}
    for r in viols:
        k = known.get((pid, r["violation"]["key"]))
        if k:
            seen_known.setdefault(k["key"], k)
        else:
            new.append(r)

    samples = []
    nontriv = [r for r in results if r["nontrivial"] and "violation" not in r]
    for r in nontriv[:: max(1, len(nontriv) // 3)][:3]:
        samples.append({"case": cases[r["idx"]], "observed": r["counts"]})

    missing = {
        k: [counts.get(k, 0), v]
        for k, v in getattr(module, "MIN", {}).items()
        if counts.get(k, 0) < v
    }
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": module.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": samples,
            "monitor_observations": counts,
            "distinct_kinds_observed": len(marks),
            "kinds_observed": sorted(marks)[:200],
            "inconclusive_cases": len(incon),
            "known_findings_seen": sorted(seen_known),
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    # runs against other trees (planted bugs) do not describe /repo
    evdir = ROOT / "evidence" if REPO == Path("/repo") else Path("/tmp/verif_evidence")
    evdir.mkdir(exist_ok=True)
    (evdir / f"{pid}.json").write_text(
        json.dumps(evidence, indent=1, default=str)
    )

    for k in seen_known.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    print(
        f"{pid}: {len(results)} cases, {len(sigs)} distinct non-trivial, "
        f"{len(new)} violations, {len(incon)} inconclusive, {time.time() - t0:.1f}s"
    )
    print("observed:", json.dumps(counts, sort_keys=True))
    slow = sorted(results, key=lambda r: -r["wall"])[:1]
    if slow and os.environ.get("VERIF_DEBUG"):
        print("slowest", slow[0]["wall"], cases[slow[0]["idx"]])

    if new:
        repdir = ROOT / "replays" / pid
        repdir.mkdir(parents=True, exist_ok=True)
        shown = {}
        for r in new:
            shown.setdefault((r["violation"]["key"], r["violation"]["msg"][:60]), r)
        for i, r in enumerate(list(shown.values())[:5]):
            path = repdir / f"{tier}-{seed}-{r['idx']}.json"
            path.write_text(
                json.dumps(
                    {
                        "property": pid,
                        "case": cases[r["idx"]],
                        "violation": r["violation"],
                    },
                    indent=1,
                )
            )
            print(f"  {r['violation']['key']}: {r['violation']['msg'][:400]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if incon:
        for r in incon[:5]:
            print("INCONCLUSIVE:", r["inconclusive"])
        if len(incon) > max(2, len(results) // 50):
            return 2
    if missing:
        print(f"INCONCLUSIVE: monitors observed too little: {missing}")
        return 2
    return 0
