"""P01: a file gives back exactly the ensemble last written to it."""

import random

import qp

from sim import compare, fileworld, zoo
from sim.core import Scenario as Base
from sim.world import Model, diff_model

NAMES = ["a", "a.b", "sub/c", "a"]


def gen_make(rng, slot, reps=zoo.ALL, anc=zoo.ANC_ALL):
    return ["make", slot, rng.choice(reps), zoo.gen_shared(rng, 4), fileworld.gen_ids(rng), rng.choice(anc)]


class Scenario(Base):
    pid = "P01"
    runs = {"quick": 500, "thorough": 40000}
    rule = "a run is a seeded history of several clients' writes, reads, removals and changes of ensembles over up to six file names in six formats; non-trivial if some file name was written at least twice with different ensembles"
    state_measure = "distinct (format, representation, ancillary variant, size class, what the file held before) met"
    real = "qp, tables_io, h5py/HDF5, PyTables, pandas, pyarrow, astropy.io.fits and the file system"
    stub = "none (operations on files pass through the fault seam, with no fault in this check)"
    assumptions = ["ancillary columns are numeric (tables_io drops unicode columns)", "one row axis (ensembles of shape (n,))"]

    def gen(self, rng, tier, index):
        ops = [gen_make(rng, s) for s in range(3)]
        files = [f"{n}.{rng.choice(fileworld.FORMATS)}" for n in NAMES[: rng.randint(2, 4)]]
        for _ in range(rng.randint(5, 14)):
            r = rng.random()
            s = rng.randrange(3)
            if r < 0.14:
                ops.append(gen_make(rng, s))
            elif r < 0.2:
                ops.append(["slice", s, rng.randrange(3), rng.randrange(3), rng.randint(1, 6), rng.choice([1, 2, -1])])
            elif r < 0.25:
                ops.append(["pick", s, rng.randrange(3), rng.randrange(-2, 4)])
            elif r < 0.3:
                ops.append(["double", s, rng.randrange(3)])
            elif r < 0.35:
                ops.append(["ancil", s, rng.choice(zoo.ANC_ALL)])
            elif r < 0.4:
                ops.append(["eval", s])
            elif r < 0.75:
                ops.append(["write", s, rng.choice(files)])
            elif r < 0.94:
                ops.append(["read", s, rng.choice(files)])
            else:
                ops.append(["rm", rng.choice(files)])
        return dict(ops=ops)

    def run(self, plan, ctx):
        disk, slots = fileworld.Disk(ctx.dir), {}
        seen = {}

        def check_file(fname, why):
            m = disk.content.get(fname)
            if m is None:
                return None
            before = disk.digest()
            try:
                e = qp.read(disk.path(fname))
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("unreadable", f"{why} {fname}: {type(x).__name__}: {x}")
            ctx.check(diff_model(e, m), "read-differs", f"{why} {fname}")
            ctx.check(disk.changed(before, disk.digest()), "read-changes-files", f"{why} {fname}")
            return e

        for op in plan["ops"]:
            kind = op[0]
            done = "skip"
            if kind == "make":
                _, s, rep, shared, ids, anc = op
                e = zoo.make(rep, shared, ids, anc)
                slots[s] = e
                done = f"{rep} n={len(ids)}"
                ctx.hit(f"rep {rep}")
            elif kind in ("slice", "pick", "double") and op[2] in slots:
                src = slots[op[2]]
                key = slice(op[3], op[4], op[5]) if kind == "slice" else op[3] if kind == "pick" else None
                n = int(src.npdf)
                if kind == "double":
                    slots[op[1]] = qp.concatenate([src, src])
                    done = "ok"
                elif kind == "pick" and -n <= key < n or kind == "slice" and range(n)[key]:
                    slots[op[1]] = src[key]
                    done = "ok"
            elif kind == "ancil" and op[1] in slots:
                slots[op[1]].set_ancil(zoo.ancil(op[2], list(range(int(slots[op[1]].npdf)))))
                done = op[2]
            elif kind == "eval" and op[1] in slots:
                slots[op[1]].pdf(zoo.XS)
                slots[op[1]].cdf(zoo.XS)
                done = "ok"
            elif kind == "rm":
                disk.remove(op[1])
                done = "ok"
            elif kind == "write" and op[1] in slots:
                e, fname = slots[op[1]], op[2]
                m = Model.of(e)
                old = disk.content.get(fname)
                refuses = fname.rsplit(".", 1)[1] in fileworld.NO_OVERWRITE and disk.exists(fname)
                snap, before = compare.snap(e), disk.digest()
                try:
                    e.write_to(disk.path(fname))
                    ok = True
                except Exception as x:  # pylint: disable=broad-except
                    if not refuses:
                        ctx.fail("write-raised", f"{fname}: {type(x).__name__}: {x}")
                    ok = False
                m = m.answering(e)
                ctx.check(compare.diff_snap(snap, compare.snap(e)), "write-changes-ensemble", fname)
                ctx.check(disk.changed(before, disk.digest(), fileworld.owned(fname) if ok else ()), "write-changes-other-files", fname)
                if ok:
                    disk.content[fname] = m
                    ext = fname.rsplit(".", 1)[1]
                    ctx.hit(f"write {ext}")
                    ctx.state(ext, m.gen_class.name, m.anc is None, min(m.npdf, 4), old and (old.gen_class.name, old.anc is None, min(old.npdf, 4)))
                    seen[fname] = seen.get(fname, 0) + 1
                    if seen[fname] > 1:
                        ctx.nontrivial = True
                        ctx.hit("overwrites" if old else "writes after removal")
                done = "ok" if ok else "refused"
                check_file(fname, "after writing")
            elif kind == "read" and op[2] in disk.content:
                slots[op[1]] = check_file(op[2], "reading")
                done = "ok"
            ctx.log(*op[:3], done)
        for fname in sorted(disk.content):
            check_file(fname, "at the end")
            ctx.log("final", fname)
