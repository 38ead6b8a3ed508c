"""Build planted bugs from spec files and confirm them in scratch copies of /repo.

usage: plant.py [--keep] SPEC.py...      (a spec: ID, PROPERTY, EDITS, NEEDS, BREAKS, DEMO)

For each: the edits are made in a copy, which has to pass the stable tests; the demonstration
has to exit 0 in a clean copy and nonzero in the edited one. Then it is kept in /verif/seeded.
"""

import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BASE = "91a583d"
DEMO_SH = """#!/bin/bash
# run in /repo after the build: exit 0 on the unchanged tree, nonzero with the patch
export PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore OMP_NUM_THREADS=1
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 9
trap 'cd /; find "$W" -mindepth 1 -delete; rmdir "$W"' EXIT
cd "$W" || exit 9
timeout 250 /opt/venv/bin/python "$D/demo.py"
"""


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)


def blame(copy, path):
    """line number -> True for the lines of the original repository"""
    out = sh(f"git blame -s --root {BASE}..HEAD -- {path}", copy).stdout.decode()
    return [l.startswith("^") for l in out.splitlines()]


def one(spec):
    s = runpy.run_path(spec)
    pid = s["ID"]
    top = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    copy = os.path.join(top, "repo")
    try:
        sh(f"cp -a {REPO} {copy}", "/tmp")
        sh("git checkout -q -- . && git clean -qfd", copy)
        original = False
        for path, old, new in s["EDITS"]:
            full = os.path.join(copy, path)
            text = open(full).read()
            if text.count(old) != 1:
                return pid, f"edit matches {text.count(old)} times in {path}: {old[:60]!r}"
            with open(full, "w") as f:
                f.write(text.replace(old, new))
            bl = blame(copy, path) if False else None
        diff = sh("git diff", copy).stdout.decode()
        # do the removed lines stem from the original repository?
        for path in {e[0] for e in s["EDITS"]}:
            old_lines = subprocess.run(f"git show {BASE}:{path}", shell=True, cwd=copy, stdout=subprocess.PIPE).stdout.decode().splitlines()
            fd = sh(f"git diff -U0 -- {path}", copy).stdout.decode().splitlines()
            if any(l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] in old_lines for l in fd):
                original = True
        if not original:
            return pid, "changes no line of the original repository"
        dest = os.path.join(top, "seed")
        os.makedirs(dest)
        with open(os.path.join(dest, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        with open(os.path.join(dest, "demo.py"), "w") as f:
            f.write(s["DEMO"].lstrip("\n"))
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        bad = sh(f"bash {dest}/demo.sh", copy)
        good = sh(f"bash {dest}/demo.sh", REPO)
        if good.returncode != 0:
            return pid, "demo fails on the unchanged tree:\n" + good.stdout.decode()[-1500:]
        if bad.returncode == 0:
            return pid, "demo passes with the change:\n" + bad.stdout.decode()[-1500:]
        if "DEMO-VIOLATED" not in bad.stdout.decode():
            return pid, "demo fails for another reason:\n" + bad.stdout.decode()[-1500:]
        cwd = os.path.join(top, "cwd")
        os.makedirs(cwd)
        r = sh(
            f"/opt/venv/bin/python -m pytest -c {copy}/pyproject.toml --rootdir {copy} -q -W ignore --no-cov -p no:cacheprovider --timeout=300 "
            f"-o junit_family=xunit2 --junitxml={top}/junit.xml {copy}/tests",
            cwd, env=dict(PYTHONPATH=f"{copy}/src", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="2"),
        )
        sh(f"python3 /opt/vp/results.py {top}/res.json junit:{top}/junit.xml", top)
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open(f"{top}/res.json"))
        stable = names(base)
        passed = passing(res)
        missing = [t for t in stable if t not in passed]
        if missing:
            return pid, f"{len(missing)} stable tests fail: {missing[:4]}\n" + r.stdout.decode()[-1500:]
        final = os.path.join(VERIF, "seeded", pid)
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(dest, final)
        with open(os.path.join(final, "patch.diff"), "w") as f:
            f.write(diff)
        with open(os.path.join(final, "meta.json"), "w") as f:
            json.dump(dict(property=s["PROPERTY"], needs=s["NEEDS"], what_it_breaks=s["BREAKS"]), f, indent=1)
            f.write("\n")
        return pid, "ok"
    finally:
        shutil.rmtree(top, ignore_errors=True)


def names(doc):
    for k in ("stable", "passing", "passed", "tests"):
        if k in doc:
            v = doc[k]
            return list(v)
    raise SystemExit(f"unknown baseline format: {list(doc)}")


def passing(doc):
    for k in ("passed", "passing"):
        if k in doc:
            return set(doc[k])
    raise SystemExit(f"unknown results format: {list(doc)}")


if __name__ == "__main__":
    with ThreadPoolExecutor(4) as ex:
        for pid, msg in ex.map(one, sys.argv[1:]):
            print(f"{pid}: {msg}", flush=True)
