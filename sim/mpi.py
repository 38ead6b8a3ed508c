"""Seam for parallel jobs: every rank is a process of its own, one of which runs at a time, and h5py's parallel driver.

Ranks are forked from the simulator and talk to it over a pipe.  A rank runs until it asks for something: a scheduling
point, an operation on a file opened with driver="mpio", or its end.  The simulator then decides, by a seeded schedule,
whose request is served next.  Operations that change the structure of the file are collective, as in parallel HDF5:
they take place when all ranks have come to them, with the same arguments.  Writing rows is not: it takes place when the
rank is scheduled.
"""

import os
import pickle
import struct
import sys
import traceback

import numpy as np


class Killed(Exception):
    pass


# ---------------------------------------------------------------- in the rank


class _Pipe:
    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd

    def send(self, obj):
        data = pickle.dumps(obj)
        data = struct.pack("<Q", len(data)) + data
        while data:
            data = data[os.write(self.wfd, data) :]

    def recv(self):
        n = struct.unpack("<Q", self._exactly(8))[0]
        return pickle.loads(self._exactly(n))

    def _exactly(self, n):
        out = b""
        while len(out) < n:
            b = os.read(self.rfd, n - len(out))
            if not b:
                raise EOFError
            out += b
        return out


class Comm:
    """What a rank knows of the job"""

    def __init__(self, rank, size, pipe):
        self.rank, self.size, self._pipe = rank, size, pipe

    Get_rank = lambda self: self.rank  # noqa: E731
    Get_size = lambda self: self.size  # noqa: E731

    def barrier(self):
        self.ask("collective", "barrier", None, ())

    Barrier = barrier

    def point(self, tag=None):
        """Others may run on here"""
        self.ask("point", tag)

    def ask(self, *msg):
        self._pipe.send(msg)
        ok, val = self._pipe.recv()
        if not ok:
            raise val
        return val


class RDataset:
    def __init__(self, f, path):
        self._f, self.name = f, path

    def __setitem__(self, key, val):
        self._f._ask("write", self.name, key, np.array(val))

    def __getitem__(self, key):
        return self._f._ask("get", self.name, key)

    shape = property(lambda self: self._f._ask("attr", self.name, "shape"))
    dtype = property(lambda self: self._f._ask("attr", self.name, "dtype"))
    __len__ = lambda self: self.shape[0]  # noqa: E731


class RGroup:
    def __init__(self, f, path):
        self._f, self.name = f, path

    def _sub(self, key):
        return key if key.startswith("/") else self.name.rstrip("/") + "/" + key

    def create_group(self, key):
        self._f._collective("create_group", self._sub(key), ())
        return RGroup(self._f, self._sub(key))

    def require_group(self, key):
        self._f._collective("require_group", self._sub(key), ())
        return RGroup(self._f, self._sub(key))

    def create_dataset(self, key, shape=None, dtype=None, data=None, **kw):
        data = None if data is None else np.array(data)
        shape = None if shape is None else tuple(int(v) for v in np.atleast_1d(shape))
        self._f._collective("create_dataset", self._sub(key), (shape, None if dtype is None else np.dtype(dtype).str, data, kw))
        return RDataset(self._f, self._sub(key))

    def __setitem__(self, key, val):
        self._f._collective("set", self._sub(key), (np.array(val),))

    def __delitem__(self, key):
        self._f._collective("del", self._sub(key), ())

    def __getitem__(self, key):
        kind = self._f._ask("kind", self._sub(key))
        return (RGroup if kind == "group" else RDataset)(self._f, self._sub(key))

    def keys(self):
        return self._f._ask("keys", self.name)

    def __contains__(self, key):
        return key in self.keys()

    __iter__ = lambda self: iter(self.keys())  # noqa: E731
    __len__ = lambda self: len(self.keys())  # noqa: E731
    items = lambda self: [(k, self[k]) for k in self.keys()]  # noqa: E731
    values = lambda self: [self[k] for k in self.keys()]  # noqa: E731


class RFile(RGroup):
    def __init__(self, name, mode, comm):
        self._comm, self.filename = comm, os.path.abspath(name)
        super().__init__(self, "/")
        self._comm.ask("collective", "open", self.filename, (mode,))

    def _ask(self, *msg):
        return self._comm.ask("file", self.filename, *msg)

    def _collective(self, what, path, args):
        return self._comm.ask("collective", what, self.filename, (path, *args))

    def flush(self):
        self._collective("flush", "/", ())

    def close(self):
        self._collective("close", "/", ())

    __enter__ = lambda self: self  # noqa: E731

    def __exit__(self, *exc):
        self.close()


def patch_h5py():
    """In this process, h5py appears to be built for parallel jobs."""
    import h5py

    real_file, real_config = h5py.File, h5py.get_config

    class Config:
        def __getattr__(self, key):
            return True if key == "mpi" else getattr(real_config(), key)

    class File(real_file):
        def __new__(cls, name, mode="r", driver=None, comm=None, **kw):
            if driver == "mpio":
                return RFile(name, mode, comm)
            return super().__new__(cls)

    h5py.get_config = Config
    h5py.File = File


# ---------------------------------------------------------------- in the simulator


class Job:
    """programs: one function of a Comm per rank.  choices: list of numbers deciding whose request is served next.
    kill: {step: rank} at which a rank, and the job with it, dies; before_write(n) is called before the n-th write."""

    def __init__(self, programs, choices, ctx, kill_at=None, flush_at=()):
        self.ctx, self.n = ctx, len(programs)
        self.programs, self.choices, self.kill_at = programs, list(choices), kill_at
        self.flush_at = set(flush_at)
        self.files = {}
        self.results = [None] * self.n
        self.where = set()
        self.steps = 0

    def _rank(self, r, pipe):
        try:
            patch_h5py()
            comm = Comm(r, self.n, pipe)
            assert pipe.recv() == "go"
            try:
                out = ("done", self.programs[r](comm))
            except BaseException:  # pylint: disable=broad-except
                out = ("error", traceback.format_exc())
            pipe.send(out)
        finally:
            os._exit(0)

    def run(self):
        """None, or how the job ended before its end"""
        pipes, pids = [], []
        for r in range(self.n):
            a, b = os.pipe(), os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(a[0])
                os.close(b[1])
                self._rank(r, _Pipe(b[0], a[1]))
            os.close(a[1])
            os.close(b[0])
            pipes.append(_Pipe(a[0], b[1]))
            pids.append(pid)
        try:
            return self._serve(pipes)
        finally:
            for p in pids:
                try:
                    os.kill(p, 9)
                except OSError:
                    pass
                os.waitpid(p, 0)
            for p in pipes:
                os.close(p.rfd)
                os.close(p.wfd)

    def _serve(self, pipes):
        pending = {r: ("start",) for r in range(self.n)}
        waiting = {}
        self.last = ["start"] * self.n

        def resume(r, reply):
            pipes[r].send(reply)
            try:
                msg = pipes[r].recv()
            except EOFError:
                msg = ("error", "the process of the rank died")
            pending[r] = msg

        k = 0
        while pending or waiting:
            if not pending:
                self.ctx.fail("deadlock", f"ranks {sorted(waiting)} wait for others in {[m[1] for m in waiting.values()]}")
            ready = sorted(pending)
            choice = self.choices[k % len(self.choices)] if self.choices else 0
            k += 1
            r = ready[choice % len(ready)]
            if self.kill_at is not None and self.steps == self.kill_at:
                self.ctx.fault("rank killed")
                return f"rank {r} killed at step {self.steps}"
            self.steps += 1
            msg = pending.pop(r)
            self.where.add(tuple(sorted(m if isinstance(m, str) else str(m) for m in self.last)))
            if msg[0] == "start":
                resume(r, "go")
            elif msg[0] == "done":
                self.results[r] = msg[1]
                self.ctx.log("rank", r, "done")
                self._check_waiting(waiting, pending)
            elif msg[0] == "error":
                self.ctx.log("rank", r, "failed")
                return f"rank {r} failed: {msg[1]}"
            elif msg[0] == "point":
                self.last[r] = "point"
                resume(r, (True, None))
            elif msg[0] == "file":
                self.last[r] = msg[2]
                self.ctx.log("rank", r, *(str(m) for m in msg[2:5]))
                resume(r, self._file_op(*msg[1:]))
            elif msg[0] == "collective":
                self.last[r] = msg[1]
                waiting[r] = msg
                self.ctx.log("rank", r, "comes to", msg[1], str(msg[3][:1]))
                if len(waiting) == self.n:
                    reply = self._collective([waiting[q] for q in range(self.n)])
                    order = sorted(waiting)
                    waiting.clear()
                    for q in order:
                        # they run on one after the other, up to their next requests
                        resume(q, reply)
            else:
                raise RuntimeError(f"unknown request {msg[0]}")
        return None

    def _check_waiting(self, waiting, pending):
        if waiting and not pending:
            self.ctx.fail("deadlock", f"ranks {sorted(waiting)} wait in {[m[1] for m in waiting.values()]} while all others have ended")

    @staticmethod
    def _key(msg):
        return pickle.dumps(msg)

    def _collective(self, msgs):
        if any(self._key(m) != self._key(msgs[0]) for m in msgs):
            self.ctx.fail("collective-mismatch", f"ranks call with different arguments: {[(m[1], str(m[3])[:120]) for m in msgs]}")
        _, what, fname, args = msgs[0]
        if what == "barrier":
            return True, None
        import h5py

        try:
            if what == "open":
                if fname in self.files:
                    raise OSError("the file is open")
                self.files[fname] = h5py.File(fname, args[0])
                return True, None
            f, path = self.files[fname], args[0]
            if what == "close":
                self.files.pop(fname).close()
            elif what == "flush":
                f.flush()
            elif what in ("create_group", "require_group"):
                getattr(f, what)(path)
            elif what == "create_dataset":
                shape, dtype, data, kw = args[1:]
                f.create_dataset(path, shape, None if dtype is None else np.dtype(dtype), data=data, **kw)
            elif what == "set":
                f[path] = args[1]
            elif what == "del":
                del f[path]
        except Exception as x:  # pylint: disable=broad-except
            return False, type(x)(str(x))
        return True, None

    def _file_op(self, fname, what, path, *args):
        try:
            f = self.files[fname]
            if what == "write":
                if self.steps in self.flush_at:
                    f.flush()
                f[path][args[0]] = args[1]
                return True, None
            if what == "get":
                return True, f[path][args[0]]
            if what == "attr":
                return True, getattr(f[path], args[0])
            if what == "kind":
                return True, "group" if hasattr(f[path], "keys") else "dataset"
            if what == "keys":
                return True, list(f[path].keys())
        except Exception as x:  # pylint: disable=broad-except
            return False, type(x)(str(x))
        raise RuntimeError(what)
