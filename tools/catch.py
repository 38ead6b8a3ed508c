"""Run checks against planted bugs, each applied to a scratch copy of /repo's sources.

usage: catch.py [--checks P01,P02] [--tier quick] [ID...]     (default: all, the check of the property itself)

A development tool: prints which checks report the violation, how long it took, and what they say.
The registered checks always run against /repo itself.
"""

import argparse
import json
import os
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(pid, src, tier, workers):
    env = dict(os.environ)
    mpl = tempfile.mkdtemp()
    env.update(
        PATH="/opt/venv/bin:" + env["PATH"], LANG="C.UTF-8", JAX_PLATFORMS="cpu", OMPI_MCA_ess_singleton_isolated="1", MPLBACKEND="Agg",
        PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=f"{VERIF}:{src}", MPLCONFIGDIR=mpl, VERIF_SEED="1", VERIF_NO_EVIDENCE="1",
    )
    t = time.time()
    p = subprocess.run(["/opt/venv/bin/python", "-m", "sim", pid, "--tier", tier, "--workers", str(workers)], cwd=VERIF, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    shutil.rmtree(mpl, ignore_errors=True)
    return p.returncode, p.stdout.decode(errors="replace"), time.time() - t


def one(args):
    sid, checks, tier, workers = args
    d = os.path.join(VERIF, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    top = tempfile.mkdtemp(prefix="catch-", dir="/tmp")
    try:
        subprocess.run(f"cd /repo && git archive HEAD | tar -x -C {top} && cp src/qp/_version.py {top}/src/qp/ && cd {top} && git init -q . && git apply {d}/patch.diff", shell=True, check=True)
        out = []
        for pid in checks or [meta["property"]]:
            rc, text, dt = run(pid, os.path.join(top, "src"), tier, workers)
            hit = rc == 1 and f"VIOLATION property={pid}" in text
            lines = [l for l in text.splitlines() if l.strip()]
            out.append((pid, "CAUGHT" if hit else ("missed" if rc == 0 else f"rc={rc}"), dt, [l[:220] for l in lines if not l.startswith("This is not")][-4:]))
        return sid, out
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("--checks", default="")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=2)
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    checks = [c for c in a.checks.split(",") if c]
    with ThreadPoolExecutor(a.jobs) as ex:
        for sid, out in ex.map(one, [(i, checks, a.tier, max(1, 8 // a.jobs)) for i in ids]):
            for pid, res, dt, lines in out:
                print(f"{sid}: {pid} {res} {dt:.0f}s", flush=True)
                for l in lines:
                    print("      ", l)
