import argparse
import os
import sys

from sim import core

ap = argparse.ArgumentParser()
ap.add_argument("pid", nargs="?")
ap.add_argument("--worker")
ap.add_argument("--replay")
ap.add_argument("--hashseed", default="0")
ap.add_argument("--runs", type=int)
ap.add_argument("--workers", type=int)
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
ap.add_argument("--hashes")
ap.add_argument("--setup", action="store_true")
a = ap.parse_args()
if a.setup:
    from sim import ffs

    print(ffs.build_shim())
elif a.worker:
    core.worker_main(a.worker)
elif a.replay:
    sys.exit(core.replay(a.replay, a.hashseed))
else:
    sys.exit(core.check(a.pid, a.tier, a.seed, runs=a.runs, workers=a.workers, hashes=a.hashes))
