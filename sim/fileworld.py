"""Files on the simulated disk, and what each of them is to hold."""

import hashlib
import os

import qp

FORMATS = ["hdf5", "hf5", "h5", "pq", "fits", "fit"]
# these refuse to overwrite
NO_OVERWRITE = ["fits", "fit"]


def owned(fname):
    """The physical files of the ensemble file fname."""
    base, ext = os.path.splitext(fname)
    return [f"{base}{k}{ext}" for k in ("meta", "data", "ancil")] if ext == ".pq" else [fname]


class Disk:
    def __init__(self, root):
        self.root = root
        self.content = {}  # file name -> Model, or dict name -> Model

    def path(self, fname):
        p = os.path.join(self.root, fname)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def digest(self):
        out = {}
        for base, _, files in os.walk(self.root):
            for f in files:
                p = os.path.join(base, f)
                with open(p, "rb") as fh:
                    out[os.path.relpath(p, self.root)] = hashlib.sha256(fh.read()).hexdigest()[:12]
        return out

    def exists(self, fname):
        return any(os.path.exists(self.path(f)) for f in owned(fname))

    def remove(self, fname):
        for f in owned(fname):
            if os.path.exists(self.path(f)):
                os.unlink(self.path(f))
        self.content.pop(fname, None)

    def changed(self, before, after, allowed=(), leftovers=False):
        """Files that differ although they are not to: None or text.  leftovers: new files do not matter"""
        bad = sorted(k for k in set(before) | (set() if leftovers else set(after)) if before.get(k) != after.get(k) and k not in allowed)
        return f"files changed: {bad}" if bad else None


def gen_ids(rng, big=0.05, top=1100):
    n = rng.choice([1, 1, 2, 2, 3, 4, 5, 8]) if rng.random() > big else rng.choice([n for n in (17, 40, 90, 300, 1100) if n <= top])
    return [rng.randrange(500) for _ in range(n)]


def read(path):
    return qp.read(path)
