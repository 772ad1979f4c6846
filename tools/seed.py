"""Make, verify and store planted bugs from `tools/seedspecs/*.py`.

`python tools/seed.py [ID ...] [--no-tests] [--no-check] [--tier T]`
"""

import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET
from concurrent.futures import ThreadPoolExecutor
from glob import glob

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TESTS = open("/opt/vp/test.sh").read()
IGN = re.findall(r"--ignore=(\S+)", TESTS)


def load():
    specs = {}
    for f in sorted(glob(f"{V}/tools/seedspecs/s*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        mod = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(mod)
        for s in mod.SPECS:
            assert s["id"] not in specs, s["id"]
            specs[s["id"]] = s
    return specs


def sh(cmd, cwd=None, env=None, timeout=900):
    e = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "CUDA_VISIBLE_DEVICES": "",
         "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1", "PYTHONHASHSEED": "0",
         "MPLBACKEND": "Agg", "OPENBLAS_NUM_THREADS": "1", "HOME": "/root",
         "PATH": "/opt/venv/bin:/usr/local/bin:/usr/bin:/bin"}
    e.update(env or {})
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def original_lines(copy):
    """Check that the removed lines are all of the base commit."""
    _, diff = sh(["git", "-C", copy, "diff", "-U0"])
    bad, removed, f = [], 0, None
    base = sh(["git", "-C", copy, "rev-list", "--max-parents=0", "HEAD"])[1].strip()
    for line in diff.splitlines():
        if line.startswith("--- a/"):
            f = line[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))? ", line)
        if m:
            a, n = int(m[1]), int(m[2] or 1)
            if n:
                bl = sh(["git", "-C", copy, "blame", "-l", "-s", "--root", "-L", f"{a},{a+n-1}", "HEAD", "--", f])[1]
                for b in bl.splitlines():
                    removed += 1
                    if not b.lstrip("^").startswith(base):
                        bad.append(b)
    return removed, bad


def tests(copy):
    xml = f"{copy}/../{os.path.basename(copy)}.xml"
    cmd = [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
           "--continue-on-collection-errors", "--run-optional-tests=expensive",
           "--doctest-modules", *[f"--ignore={i}" for i in IGN], "-o",
           "junit_family=xunit2", f"--junitxml={xml}", "test", "singd"]
    _, out = sh(cmd, copy, {"PYTHONPATH": copy}, 1800)
    base = json.load(open("/opt/vp/BASELINE.json"))
    stable = base["stable"] if "stable" in base else base["passed"]
    ok = set()
    for tc in ET.parse(xml).iter("testcase"):
        if not any(c.tag in ("failure", "error", "skipped") for c in tc):
            ok.add((tc.get("classname"), tc.get("name")))
    os.remove(xml)
    names = {f"{c}::{n}" for c, n in ok}
    missing = [s for s in stable if norm(s) not in names]
    return missing, out[-600:]


def norm(s):
    return s if isinstance(s, str) else str(s)


def one(s, do_tests, do_check, tier):
    i = s["id"]
    copy = f"/tmp/seeds/{i}"
    shutil.rmtree(copy, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", copy], check=True)
    res = {"id": i, "property": s["property"]}
    try:
        for f, old, new in s["edits"]:
            p = f"{copy}/singd/{f}"
            t = open(p).read()
            n = t.count(old)
            if n != 1:
                res["error"] = f"{f}: {n} matches of {old!r}"
                return res
            open(p, "w").write(t.replace(old, new))
        _, diff = sh(["git", "-C", copy, "diff"])
        removed, bad = original_lines(copy)
        if bad or not removed:
            res["error"] = f"lines not original: {bad} removed={removed}"
            return res
        d = f"{V}/seeded/{i}"
        tmp = f"/tmp/seeds/{i}.demo"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        open(f"{tmp}/patch.diff", "w").write(diff)
        shutil.copy(f"{V}/tools/seedspecs/h.py", f"{tmp}/h.py")
        open(f"{tmp}/demo.py", "w").write(s["demo"].lstrip())
        open(f"{tmp}/demo.sh", "w").write(
            '#!/bin/bash\nhere="$(cd "$(dirname "$0")" && pwd)"\n'
            "export CUDA_VISIBLE_DEVICES= OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1\n"
            'exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f"{tmp}/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(f"{tmp}/meta.json", "w"), indent=1)
        r0, o0 = sh(["bash", f"{tmp}/demo.sh"], "/repo", {"PYTHONPATH": "/repo"}, 300)
        r1, o1 = sh(["bash", f"{tmp}/demo.sh"], copy, {"PYTHONPATH": copy}, 300)
        res["demo"] = (r0, r1)
        if r0 != 0 or r1 == 0:
            res["error"] = "demo: " + (o0 if r0 else o1)[-700:]
            return res
        res["demo_out"] = o1.strip().splitlines()[-1][:150] if o1.strip() else ""
        if do_tests:
            missing, out = tests(copy)
            if missing:
                res["error"] = f"tests: {len(missing)} {missing[:4]} {out[-300:]}"
                return res
        if do_tests or os.path.isdir(d):
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
        shutil.rmtree(tmp)
        if do_check:
            rc, out = sh(["bash", f"{V}/run.sh", s["property"], tier], V,
                         {"VERIF_REPO": copy, "VERIF_SEED": "1", "VERIF_NO_EVIDENCE": "1"}, 900)
            v = [x for x in out.splitlines() if x.startswith("VIOLATION")]
            res["check"] = (rc, (v or out.splitlines()[-1:] or [""])[0][:160])
        return res
    finally:
        shutil.rmtree(copy, ignore_errors=True)


def save(r, tier):
    path = f"{V}/tools/seed_results.json"
    table = json.load(open(path)) if os.path.exists(path) else {}
    table[r["id"]] = {"property": r["property"], "caught": r["check"][0] == 1, "tier": tier}
    json.dump(dict(sorted(table.items())), open(path, "w"), indent=0)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    do_tests, do_check = "--no-tests" not in sys.argv, "--no-check" not in sys.argv
    tier = "thorough" if "--thorough" in sys.argv else "quick"
    specs = load()
    sel = [s for k, s in specs.items() if not args or any(re.fullmatch(a, k) for a in args)]
    os.makedirs("/tmp/seeds", exist_ok=True)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', 6))) as ex:
        for r in ex.map(lambda s: one(s, do_tests, do_check, tier), sel):
            flag = "ERROR" if "error" in r else ("caught" if r.get("check", (0,))[0] == 1 else "MISSED" if "check" in r else "ok")
            print(flag, json.dumps(r)[:1200], flush=True)
            if flag in ("caught", "MISSED"):
                save(r, tier)


main()
