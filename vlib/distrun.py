"""Real process groups (gloo on the loopback device) for distributed workloads.

``launch`` starts one Python process per rank. Every rank executes
``checks.<module>.rank_main(payload, rank, world, log)`` and stores what it returns.
"""

import datetime
import importlib
import os
import pickle
import shutil
import subprocess
import sys
import tempfile
import traceback
from pathlib import Path

from vlib.core import ROOT, Inconclusive, Violation

GLOO_TIMEOUT = 90


def launch(module, payload, world, timeout=200):
    """Execute a workload on ``world`` ranks and return their results."""
    tmp = Path(tempfile.mkdtemp(prefix="verif_dist_"))
    try:
        (tmp / "payload").write_bytes(pickle.dumps(payload))
        procs = []
        for rank in range(world):
            log = open(tmp / f"log{rank}", "w")
            procs.append(
                subprocess.Popen(
                    [
                        sys.executable,
                        "-c",
                        "import sys; from vlib import distrun; distrun.worker(sys.argv[1:])",
                        module,
                        str(tmp),
                        str(rank),
                        str(world),
                    ],
                    cwd=ROOT,
                    stdout=log,
                    stderr=subprocess.STDOUT,
                    env={
                        **os.environ,
                        "PYTHONPATH": os.pathsep.join(sys.path[:2] + [str(ROOT)]),
                    },
                )
            )
        try:
            for p in procs:
                p.wait(timeout)
        except subprocess.TimeoutExpired:
            pass
        finally:
            for p in procs:
                if p.poll() is None:
                    p.kill()
                    p.wait()
        results, errors = [], []
        ready = all((tmp / f"ready{r}").exists() for r in range(world))
        for rank in range(world):
            path = tmp / f"result{rank}"
            if path.exists():
                results.append(pickle.loads(path.read_bytes()))
            else:
                err = tmp / f"error{rank}"
                errors.append(
                    f"rank {rank}: "
                    + (
                        err.read_text()
                        if err.exists()
                        else "no result; " + (tmp / f"log{rank}").read_text()[-1500:]
                    )
                )
        if not ready:
            raise Inconclusive(f"process group did not start: {errors}")
        if errors:
            raise Violation(
                f"a process failed or hung: {errors[0][-600:]}",
                key="rank_failed",
                errors=errors,
            )
        return results
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def worker(argv):
    module, tmp, rank, world = argv[0], Path(argv[1]), int(argv[2]), int(argv[3])
    import warnings

    import torch
    import torch.distributed as dist

    torch.set_num_threads(1)
    torch.backends.mkldnn.set_flags(False)
    warnings.simplefilter("ignore")
    payload = pickle.loads((tmp / "payload").read_bytes())
    os.environ.setdefault("GLOO_SOCKET_IFNAME", "lo")
    dist.init_process_group(
        "gloo",
        init_method=f"file://{tmp}/store",
        rank=rank,
        world_size=world,
        timeout=datetime.timedelta(seconds=GLOO_TIMEOUT),
    )
    dist.barrier()
    (tmp / f"ready{rank}").write_text("")
    try:
        result = importlib.import_module(f"checks.{module}").rank_main(
            payload, rank, world
        )
        (tmp / f"result{rank}.tmp").write_bytes(pickle.dumps(result))
        (tmp / f"result{rank}.tmp").rename(tmp / f"result{rank}")
    except BaseException:
        (tmp / f"error{rank}").write_text(traceback.format_exc())
        os._exit(3)
    os._exit(0)


class CollectiveLog:
    """Records every collective operation of this rank."""

    def __init__(self):
        import torch.distributed as dist

        self.events = []
        self._orig = dist.all_reduce

        def all_reduce(tensor, *args, **kwargs):
            op = kwargs.get("op", args[0] if args else dist.ReduceOp.SUM)
            self.events.append((str(op), tuple(tensor.shape), str(tensor.dtype)))
            return self._orig(tensor, *args, **kwargs)

        self._dist, self._new = dist, all_reduce

    def __enter__(self):
        self._dist.all_reduce = self._new
        return self

    def __exit__(self, *exc):
        self._dist.all_reduce = self._orig


__all__ = ["launch", "worker", "CollectiveLog"]
