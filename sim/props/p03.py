"""P03: a write that meets I/O errors raises or really is complete."""

import contextlib
import errno
import faulthandler
import io
import json
import os
import select
import signal
import time

import qp

from sim import compare, ffs, fileworld, zoo
from sim.core import Scenario as Base
from sim.props.p02 import gen_ens
from sim.world import Model, diff_model

ERR = dict(ENOSPC=errno.ENOSPC, EIO=errno.EIO, EINTR=errno.EINTR, EDQUOT=errno.EDQUOT, EACCES=errno.EACCES, EMFILE=errno.EMFILE, EROFS=errno.EROFS)
# what can be made to fail, and how
MENU = [
    ("write", "ENOSPC", 1), ("write", "ENOSPC", -1), ("write", "EIO", 1), ("write", "EIO", -1), ("write", "EDQUOT", -1), ("write", "short", 1), ("write", "short", 3), ("write", "short", -1), ("write", "EINTR", 1),
    ("open", "EIO", 1), ("open", "EACCES", 1), ("open", "EMFILE", -1), ("open", "ENOSPC", -1), ("open", "EROFS", -1),
    ("trunc", "EIO", 1), ("trunc", "ENOSPC", -1), ("close", "EIO", 1), ("close", "ENOSPC", -1), ("unlink", "EACCES", 1), ("unlink", "EROFS", -1), ("read", "EIO", 1), ("read", "EIO", -1), ("read", "short", 2), ("sync", "EIO", -1),
]
# PyTables does not survive failing writes: it loops until memory is used up
MENU_H5 = [m for m in MENU if m[0] in ("open", "unlink")]


def fault_list(kind, how, count, nth):
    f = dict(kind=kind, nth=nth, count=count)
    if how == "short":
        f["short"] = 100
    else:
        f["errno"] = ERR[how]
    return [f]


def in_child(body, timeout=60):
    """Run body(say) in a forked process: (messages, exit status, traceback at a fatal signal)."""
    r, w = os.pipe()
    fr, fw = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            os.close(fr)
            faulthandler.enable(file=fw, all_threads=False)
            body(lambda *x: os.write(w, (json.dumps(x) + "\n").encode()))
        finally:
            os._exit(0)
    os.close(w)
    os.close(fw)
    data, t0, hung = b"", time.monotonic(), False
    while True:
        left = timeout - (time.monotonic() - t0)
        if left <= 0 or not select.select([r], [], [], left)[0]:
            hung = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    tb = b""
    while True:
        b = os.read(fr, 65536)
        if not b:
            break
        tb += b
    os.close(fr)
    return {m[0]: m[1:] for m in map(json.loads, data.decode().splitlines())}, ("hung" if hung else st), tb.decode(errors="replace")


class Scenario(Base):
    pid = "P03"
    level = "exploration"
    runs = {"quick": 600, "thorough": 60000}
    rule = "a run writes an ensemble while seeded file operations fail with an error or transfer less than asked, once or from then on; non-trivial: the fault fired"
    state_measure = "distinct (format, something there before, failing operation and how, outcome of the write, what the file reads back as)"
    real = "qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits"
    stub = "results of failing system calls, decided by the plan in the LD_PRELOAD seam"
    assumptions = [
        "for h5 only failing opens and removals are injected: PyTables itself loops until memory is used up when writes fail",
        "a crash of the HDF5 library (it dies when closing a file it could not write) counts as a process crash: only the state of the disk is judged, and it is a listed finding",
    ]

    def gen(self, rng, tier, index):
        new = gen_ens(rng, tier)
        old = gen_ens(rng, tier) if rng.random() < 0.5 else None
        fmt = rng.choice(["hdf5", "hdf5", "pq", "pq", "hf5", "h5"] if old else ["hdf5", "hdf5", "pq", "pq", "hf5", "h5", "fits", "fit"])
        kind, how, count = rng.choice(MENU_H5 if fmt == "h5" else MENU)
        return dict(fmt=fmt, old=old, new=new, kind=kind, how=how, count=count, at=round(rng.random(), 4))

    def simplify(self, plan):
        for key in ("old", "new"):
            if plan[key]:
                n = len(plan[key][2])
                for m in (1, n // 2):
                    if 0 < m < n:
                        yield dict(plan, **{key: [plan[key][0], plan[key][1], plan[key][2][:m], plan[key][3]]})
                if plan[key][0] != "norm":
                    yield dict(plan, **{key: ["norm"] + plan[key][1:]})
        if plan["old"]:
            yield dict(plan, old=None)

    def run(self, plan, ctx):
        root = os.path.join(ctx.dir, "d")
        os.makedirs(root)
        disk = fileworld.Disk(root)
        fname = "t." + plan["fmt"]
        path = disk.path(fname)
        models = {}
        ctx.fs.set_root(root)
        zoo.make("norm", 0, [1, 2], "basic").write_to(disk.path("other." + plan["fmt"]))
        if plan["old"]:
            e = zoo.make(*plan["old"])
            e.write_to(path)
            models["old"] = Model.of(e, e)
        new = zoo.make(*plan["new"])
        models["new"] = Model.of(new, zoo.make(*plan["new"]))
        init = ffs.snapshot(root)

        def verdict(p=path):
            try:
                got = qp.read(p)
            except Exception as x:  # pylint: disable=broad-except
                return "raises", type(x).__name__
            why = {k: diff_model(got, m) for k, m in models.items()}
            ok = [k for k in sorted(why) if why[k] is None]
            return (ok[0] if ok else "wrong"), str(why)

        # how many operations of the kind are there
        def dry(say):
            ctx.fs.begin(journal=True, faults=[dict(kind=plan["kind"], nth=10**9, errno=5)])
            new.write_to(path)
            ctx.fs.end()
            say("n", ctx.fs.counts()[plan["kind"]])
            say("writes", [(off, len(data)) for op, _, _, off, data in ctx.fs.journal() if op == "write"])

        got, _, _ = in_child(dry)
        total = got["n"][0]
        intact = ffs.snapshot(root).get(fname, b"")
        ffs.materialise(init, root)
        if not total:
            ctx.log("no operation of this kind", plan["fmt"], plan["kind"])
            return
        nth = min(total - 1, int(plan["at"] * total))
        writes = got["writes"][0]

        def body(say):
            snap = compare.snap(new)
            out = io.StringIO()
            ctx.fs.begin(faults=fault_list(plan["kind"], plan["how"], plan["count"], nth))
            say("started")
            try:
                with contextlib.redirect_stdout(out):
                    new.write_to(path)
                res = "returned"
            except Exception as x:  # pylint: disable=broad-except
                res = "raised"
                say("exc", type(x).__name__)
            fired = ctx.fs.end()[0]
            say("write", res, fired, "Failed to convert column" in out.getvalue())
            say("unchanged", compare.diff_snap(snap, compare.snap(new)))
            say("read", *verdict())
            if plan["fmt"] in fileworld.NO_OVERWRITE:
                disk.remove(fname)
            try:
                new.write_to(path)
                d = diff_model(qp.read(path), models["new"])
            except Exception as x:  # pylint: disable=broad-except
                d = f"{type(x).__name__}: {x}"
            say("retry", d)

        # once for the state of the disk after the write alone, as another process sees it
        def only_write(say):
            ctx.fs.begin(faults=fault_list(plan["kind"], plan["how"], plan["count"], nth))
            try:
                new.write_to(path)
                say("write", "returned")
            except Exception:  # pylint: disable=broad-except
                say("write", "raised")
            say("fired", ctx.fs.end()[0])

        alone, _, _ = in_child(only_write)
        outside = verdict()
        damaged = ffs.snapshot(root).get(fname, b"")
        others = disk.changed(init_digest(init, fileworld.owned(fname)), init_digest(ffs.snapshot(root), fileworld.owned(fname)), leftovers=True)
        ffs.materialise(init, root)
        got, status, tb = in_child(body)
        where = f"{plan['fmt']}, {plan['kind']} {nth} of {total} {plan['how']} x{plan['count']}"
        died = status != 0 or "retry" not in got
        write = got.get("write", ["died", 1, False])
        ctx.log(where, write[0], got.get("read", ["-"])[0], "outside", outside[0], "died" if died else "lived")
        if write[1]:
            ctx.fault(f"{plan['kind']} {plan['how']}" + (" persistent" if plan["count"] < 0 else ""))
        ctx.hit(f"write {write[0]}")
        ctx.state(plan["fmt"], bool(plan["old"]), plan["kind"], plan["how"], write[0], outside[0])
        # a way in which the libraries below qp lose an error, a listed finding, told apart from errors lost by qp
        known = None
        if plan["fmt"] in ("hdf5", "hf5") and write[0] == "returned":
            if plan["kind"] == "write" and plan["count"] == 1 and plan["how"] in ("ENOSPC", "EIO") and nth < len(writes):
                off, length = writes[nth]
                if len(intact) == len(damaged) and intact[:off] == damaged[:off] and intact[off + length :] == damaged[off + length :]:
                    known = "hdf5-library-lost-a-write"
        # safety of the file: also when the process died
        if outside[0] == "wrong":
            ctx.fail(known or "mixture", f"{where}: the file reads as neither the old nor the new ensemble: {outside[1]}")
        ctx.check(others, "other-files-changed", where)
        if "read" in got and got["read"][0] == "wrong":
            ctx.fail(known or "mixture", f"{where}: read in the same process: {got['read'][1]}")
        if write[0] == "returned" and (got["read"][0] != "new" and "read" in got or alone.get("write") == ["returned"] and outside[0] != "new"):
            ctx.fail(known or "silent", f"{where}: the write returned, but the file reads as {got['read']} / {outside}")
        if "unchanged" in got:
            ctx.check(got["unchanged"][0], "ensemble-changed", where)
        if died:
            # the innermost frame tells the library that died from qp
            frames = [ln for ln in tb.splitlines() if ln.strip().startswith("File ")]
            top = frames[0] if frames else ""
            if plan["fmt"] in ("hdf5", "hf5") and status == signal.SIGSEGV and plan["kind"] in ("write", "close", "trunc", "sync") and "exc" in got and "write" not in got:
                ctx.fail("hdf5-library-crash", f"{where}: {top.strip()} status {status}")
            ctx.fail("process-died", f"{where}: {status} {top} {got}")
        ctx.check(got["retry"][0], "retry-failed", f"{where}: once the faults stopped")


def init_digest(state, own):
    import hashlib

    return {k: hashlib.sha256(bytes(v)).hexdigest() for k, v in state.items() if k not in own}
