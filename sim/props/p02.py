"""P02: after a crash during a write, a file is old, new or unreadable."""

import gc
import os
import sys

import qp

from sim import compare, ffs, fileworld, interrupt, zoo
from sim.core import Scenario as Base
from sim.world import Model, diff_model


def gen_ens(rng, tier):
    n = rng.choice([1, 2, 3, 5, 9, 30, 300])
    return [rng.choice(zoo.ALL), rng.randrange(3), [rng.randrange(400) for _ in range(n)], rng.choice(zoo.ANC_ALL)]


class Scenario(Base):
    pid = "P02"
    level = "exploration"
    runs = {"quick": 320, "thorough": 12000}
    rule = "a run writes an ensemble, over an earlier one or not, with every mutation of the disk journalled, and kills the process at seeded points: between two disk operations or in the middle of one; non-trivial: at least one crash strictly inside the write"
    state_measure = "distinct (format, what was there before, kind of disk operation cut at, what the file reads back as)"
    real = "qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits"
    stub = "the disk after the crash is rebuilt from the journal of system calls (checked to equal the real directory at full length)"
    assumptions = ["the process dies, the operating system does not: completed system calls are on disk in order"]

    def gen(self, rng, tier, index):
        new = gen_ens(rng, tier)
        old = None
        r = rng.random()
        if r < 0.5:
            old = gen_ens(rng, tier)
        elif r < 0.75:  # easily confused with the new one
            old = [new[0], new[1], new[2][:], rng.choice(zoo.ANC_ALL)]
            if rng.random() < 0.5:
                old[2] = [i + 1 for i in old[2]]
        fmt = rng.choice(fileworld.FORMATS[:4] if old else fileworld.FORMATS)
        cuts = [[round(rng.random(), 4), rng.choice([None, None, 0.5, 0.03, 0.97])] for _ in range(14)]
        if rng.random() < 0.5:  # the last steps are the delicate ones
            cuts += [[1 - k, None] for k in (0.01, 0.03, 0.08)]
        stops = [round(rng.random(), 4) for _ in range(5)] + [round(1 - 0.25 * rng.random(), 4) for _ in range(3)]
        return dict(fmt=fmt, old=old, new=new, again=rng.random() < 0.6, cuts=cuts, stops=stops)

    def simplify(self, plan):
        for key in ("old", "new"):
            if plan[key]:
                n = len(plan[key][2])
                for m in (1, n // 2):
                    if 0 < m < n:
                        yield dict(plan, **{key: [plan[key][0], plan[key][1], plan[key][2][:m], plan[key][3]]})
                if plan[key][0] != "norm":
                    yield dict(plan, **{key: ["norm"] + plan[key][1:]})
        if plan["old"]:
            yield dict(plan, old=None)

    def run(self, plan, ctx):
        root = os.path.join(ctx.dir, "d")
        os.makedirs(root)
        disk = fileworld.Disk(root)
        fname = "t." + plan["fmt"]
        models = {}
        ctx.fs.set_root(root)
        other = zoo.make("norm", 0, [1, 2], "basic")
        other.write_to(disk.path("other." + plan["fmt"]))
        if plan["old"]:
            e = zoo.make(*plan["old"])
            e.write_to(disk.path(fname))
            models["old"] = Model.of(e, e)
        new = zoo.make(*plan["new"])
        models["new"] = Model.of(new, zoo.make(*plan["new"]))
        init = ffs.snapshot(root)
        ctx.fs.begin(journal=True)
        new.write_to(disk.path(fname))
        ctx.fs.end()
        journal = ctx.fs.journal()
        final = ffs.snapshot(root)
        if {k: bytes(v) for k, v in ffs.replay(init, journal, root, len(journal)).items()} != final:
            raise RuntimeError("the journal does not explain the disk")
        own = fileworld.owned(fname)
        self.stops(plan, ctx, disk, new, models, init, root, fname, len(journal))
        for frac, torn in plan["cuts"]:
            at = min(len(journal), int(frac * (len(journal) + 1)))
            kind = journal[at][0] if at < len(journal) else "end"
            bytes_landed = None
            if torn is not None and kind == "write" and len(journal[at][4]) > 1:
                bytes_landed = max(1, int(torn * len(journal[at][4])))
            state = ffs.replay(init, journal, root, at, bytes_landed)
            ctx.check(
                disk.changed({k: v for k, v in init.items() if k not in own}, {k: bytes(v) for k, v in state.items() if k not in own}, leftovers=True), "other-files-touched", f"crash at {at}/{len(journal)}"
            )
            ffs.materialise(state, root)
            if 0 < at < len(journal):
                ctx.fault("crash inside a disk write" if bytes_landed else "crash between disk operations")
            verdict = "raises"
            try:
                got = qp.read(disk.path(fname))
            except Exception as x:  # pylint: disable=broad-except
                ctx.log(at, kind, bytes_landed, "raises", type(x).__name__)
            else:
                why = {k: diff_model(got, m) for k, m in models.items()}
                ok = [k for k in why if why[k] is None]
                verdict = ok[0] if ok else "wrong"
                ctx.log(at, kind, bytes_landed, verdict)
                if not ok:
                    ctx.fail("mixture", f"crash at operation {at} of {len(journal)} ({kind}, {bytes_landed} bytes of it): the file reads as neither: {why}")
            ctx.hit(f"reads {verdict}")
            ctx.state(plan["fmt"], plan["old"] and plan["old"][3], kind, verdict)
            # the file can be written again
            if plan["again"] and at < len(journal):
                self.again(plan, ctx, disk, fname, f"a crash at operation {at} of {len(journal)}")
            try:
                o = qp.read(disk.path("other." + plan["fmt"]))
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("other-file-lost", repr(x))
            ctx.check(compare.diff(o, other), "other-file-changed")

    def again(self, plan, ctx, disk, fname, after):
        again = zoo.make("hist", 1, [7, 8, 9], "mixed")
        if plan["fmt"] in fileworld.NO_OVERWRITE:
            disk.remove(fname)
        try:
            again.write_to(disk.path(fname))
            got = qp.read(disk.path(fname))
        except Exception as x:  # pylint: disable=broad-except
            ctx.fail("stuck", f"after {after} the file can not be written again: {type(x).__name__}: {x}")
        ctx.check(compare.diff(got, again), "rewrite-differs", f"after {after}")
        ctx.hit("rewritten afterwards")

    def stops(self, plan, ctx, disk, new, models, init, root, fname, total):
        """The process is interrupted in the middle of its own code, and closes its files on the way out"""
        if not plan["stops"]:
            return
        ffs.materialise(init, root)
        with interrupt.Interrupt(None, KeyboardInterrupt, interrupt.IO_ROOTS) as counter:
            new.write_to(disk.path(fname))
        for frac in plan["stops"]:
            ffs.materialise(init, root)
            at = int(frac * counter.count)
            with interrupt.Interrupt(at, KeyboardInterrupt, interrupt.IO_ROOTS) as stop:
                try:
                    new.write_to(disk.path(fname))
                except KeyboardInterrupt:
                    pass
            gc.collect()
            if "tables" in sys.modules:
                sys.modules["tables"].file._open_files.close_all()
            ctx.fault("interrupted, files closed on the way out")
            verdict = self.verdict(disk.path(fname), models)
            ctx.log("stop", at, counter.count, stop.where, verdict[0])
            ctx.state(plan["fmt"], "stop", stop.where, verdict[0])
            if verdict[0] == "wrong":
                ctx.fail("mixture-after-interrupt", f"interrupted at line {at} of {counter.count} (in {stop.where}): the file reads as neither: {verdict[1]}")
            if plan["again"]:
                self.again(plan, ctx, disk, fname, f"an interrupt at line {at} of {counter.count} (in {stop.where})")
            own = fileworld.owned(fname)
            state = ffs.snapshot(root)
            ctx.check(
                disk.changed({k: v for k, v in init.items() if k not in own}, {k: bytes(v) for k, v in state.items() if k not in own}, leftovers=True), "other-files-touched", f"interrupted at line {at}"
            )

    @staticmethod
    def verdict(path, models):
        try:
            got = qp.read(path)
        except Exception as x:  # pylint: disable=broad-except
            return "raises", type(x).__name__
        why = {k: diff_model(got, m) for k, m in models.items()}
        ok = [k for k in sorted(why) if why[k] is None]
        return (ok[0] if ok else "wrong"), why
