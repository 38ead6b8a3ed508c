"""P09: a dictionary file gives back every ensemble under its own name."""

import os

import qp

from sim import compare, interrupt, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.fileworld import gen_ids
from sim.history import World, gen_slice
from sim.world import Model, diff_model

NAMES = ["a", "b", "a.b", "meta", "data", "ancil", "x y", "A", "zz", "a_meta", "0", "\u00e4", "a ", " a", "zz\n"]


class Scenario(Base):
    pid = "P09"
    runs = {"quick": 450, "thorough": 40000}
    rule = "a run is a seeded history of writing and reading dictionaries of ensembles - different representations, sizes and ancillary data, some sharing arrays or the same object under several names - over two files, with changes of the ensembles, interrupted attempts and single-ensemble files in between; non-trivial if a file that held another dictionary was written"
    state_measure = "distinct (names of the dictionary, representations, ancillary data or not, whether the file held another dictionary)"
    real = "qp, tables_io, h5py/HDF5"
    stub = "none"
    technique = "seeded histories of several clients, with injected exceptions"
    assumptions = ["names are non-empty and have no slash; at least one ensemble per dictionary"]

    def gen(self, rng, tier, index):
        reps = rng.sample(zoo.ALL, 3)
        names = rng.sample(NAMES, 5)
        ops = [["make", d, rng.choice(reps), zoo.gen_shared(rng, 2), gen_ids(rng), rng.choice(zoo.ANC_ALL)] for d in range(4)]
        for _ in range(rng.randint(5, 14)):
            d, s = rng.randrange(5), rng.randrange(5)
            k = rng.choices(["wd", "rd", "keep", "make", "slice", "append", "remake", "concat", "addanc", "ancil", "anc_from", "single", "interrupted"], [26, 14, 6, 6, 6, 5, 5, 4, 6, 3, 4, 4, 5])[0]
            if k in ("wd", "interrupted"):
                pick = rng.sample(names, rng.randint(1, 4))
                ops.append([k, rng.randrange(2), [[x, rng.randrange(5)] for x in pick]] + ([rng.random(), rng.choice(["interrupt", "memory"])] if k == "interrupted" else []))
            elif k in ("rd", "single"):
                ops.append([k, rng.randrange(2), s])
            elif k == "keep":
                ops.append([k, rng.randrange(2), d, rng.randrange(4)])
            elif k == "make":
                ops.append([k, d, rng.choice(reps), zoo.gen_shared(rng, 2), gen_ids(rng), rng.choice(zoo.ANC_ALL)])
            elif k == "slice":
                ops.append(gen_slice(rng, d, s))
            elif k == "concat":
                ops.append([k, d, [s, rng.randrange(5)]])
            elif k == "addanc":
                ops.append([k, s, rng.randrange(20)])
            elif k == "ancil":
                ops.append([k, s, rng.choice(zoo.ANC_ALL), rng.randrange(50)])
            else:
                ops.append([k, d, s])
        return dict(ops=ops)

    def run(self, plan, ctx):
        w = World(ctx)
        files = {}

        def path(f):
            return os.path.join(ctx.dir, f"dict{f}.hdf5")

        def verify(f, why):
            want = files.get(f)
            if want is None:
                return None
            try:
                got = qp.read_dict(path(f))
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("unreadable", f"{why}: {type(x).__name__}: {x}")
            ctx.check(None if sorted(got) == sorted(want) else f"names {sorted(got)} instead of {sorted(want)}", "names-differ", why)
            for n, m in want.items():
                ctx.check(diff_model(got[n], m), "ensemble-differs", f"{why}: {n}")
            # what was read is the client's: changing one does not touch another
            for n in sorted(got):
                before = {o: compare.snap(got[o]) for o in got if o != n}
                got[n].add_to_ancil({"own": [0.5] * want[n].npdf})
                for o, sn in before.items():
                    ctx.check(compare.diff_snap(sn, compare.snap(got[o])), "ensembles-linked", f"{why}: {o} by changing {n}")
            return qp.read_dict(path(f))

        for op in plan["ops"]:
            k, done, changed = op[0], "skip", []
            try:
                if k in ("wd", "interrupted"):
                    d = {n: w.slots[s].ens for n, s in op[2] if s in w.slots}
                    ms = {n: w.slots[s].model for n, s in op[2] if s in w.slots}
                    if d:
                        snaps = {n: compare.snap(e) for n, e in d.items()}
                        names = list(d)
                        done = "written"
                        if k == "interrupted":
                            with interrupt.Interrupt(int(op[3] * 30 * len(d)), interrupt.KINDS[op[4]]) as hook:
                                try:
                                    qp.write_dict(path(op[1]), d)
                                except (KeyboardInterrupt, MemoryError):
                                    done = "interrupted"
                            if hook.fired:
                                ctx.fault(op[4])
                        else:
                            qp.write_dict(path(op[1]), d)
                        old = files.get(op[1])
                        if done == "written":
                            ctx.nontrivial |= old is not None and sorted(old) != sorted(ms)
                            ctx.state(sorted(ms), sorted(m.gen_class.name + str(m.anc is None) for m in ms.values()), old is None)
                            files[op[1]] = ms
                        else:
                            files.pop(op[1], None)  # old, new or neither
                        ctx.check(None if list(d) == names else "the dictionary passed in", "argument-modified")
                        for n, e in d.items():
                            ctx.check(compare.diff_snap(snaps[n], compare.snap(e)), "ensemble-changed", f"{n} by writing")
                        for f in files:
                            verify(f, f"after {op}")
                        ctx.hit("dictionaries written")
                elif k == "rd":
                    done = "read" if verify(op[1], "reading") else "skip"
                elif k == "keep":
                    if op[1] in files:
                        n = sorted(files[op[1]])[op[3] % len(files[op[1]])]
                        w.slots[op[2]] = type(w.slots[0])(qp.read_dict(path(op[1]))[n], files[op[1]][n]) if 0 in w.slots else w.slots.get(op[2])
                        if w.slots[op[2]] is None:
                            del w.slots[op[2]]
                        done = "kept"
                elif k == "single":
                    # the same name holds a single ensemble for a while
                    if op[2] in w.slots:
                        sl = w.slots[op[2]]
                        sl.ens.write_to(path(op[1]))
                        files.pop(op[1], None)
                        ctx.check(diff_model(qp.read(path(op[1])), sl.model), "ensemble-differs", "single")
                        done = "written"
                else:
                    done, changed = w.do(op)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op[:2], done)
            for s in changed:
                w.check_slot(s, "wrong-result", f"after {op}", probe=False)
        for f in sorted(files):
            verify(f, "at the end")
        for s in sorted(w.slots):
            w.check_slot(s, "ensemble-changed", "at the end")
        w.check_args()
