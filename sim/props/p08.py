"""P08: chunks stay valid and iterations do not disturb one another."""

import os

import qp

from sim import calls, compare, interrupt, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.world import Model, diff_model, extra_columns


def gen_ens(rng):
    n = rng.choice([1, 2, 3, 5, 8, 12, 20])
    return [rng.choice(zoo.ALL), rng.randrange(3), [rng.randrange(500) for _ in range(n)], rng.choice(zoo.ANC_ALL)]


class Iteration:
    def __init__(self, f, gen, model, ranges):
        self.f, self.gen, self.model, self.ranges, self.k, self.over = f, gen, model, ranges, 0, False


class Scenario(Base):
    pid = "P08"
    runs = {"quick": 500, "thorough": 40000}
    rule = "a run is a seeded history of several iterations over up to three files, in progress at once, advanced, finished, abandoned in three ways or interrupted at a line of the library, with changes of the chunks they delivered and rewriting, reading and removal of files in between; non-trivial if at least two iterations were in progress at once"
    state_measure = "distinct (operation, iterations in progress on the file, on other files, chunks kept)"
    real = "qp, tables_io, h5py/HDF5"
    stub = "none"
    technique = "seeded interleavings of iterations, with injected exceptions"
    assumptions = ["a file is rewritten or removed only while no iteration over it is in progress"]

    def gen(self, rng, tier, index):
        files = rng.choice([1, 2, 3])
        same = gen_ens(rng)
        ops = [["write", f, *(same if rng.random() < 0.3 else gen_ens(rng))] for f in range(files)]
        for _ in range(rng.randint(8, 26)):
            k = rng.choices(["start", "next", "finish", "abandon", "interrupt", "mut", "write", "read", "delete", "chunkwrite", "meta"], [14, 36, 5, 8, 5, 16, 8, 5, 2, 3, 2])[0]
            it, f = rng.randrange(4), rng.randrange(files)
            if k == "start":
                size = rng.choice([1, 1, 1, 2, 3])
                ops.append([k, it, f, rng.choice([1, 2, 3, 5, 40]), rng.randrange(size), size])
            elif k in ("next", "finish"):
                ops.append([k, it])
            elif k == "abandon":
                ops.append([k, it, rng.choice(["del", "close", "throw"])])
            elif k == "interrupt":
                ops.append([k, it, rng.random(), rng.choice(["interrupt", "memory"])])
            elif k == "mut":
                ops.append([k, rng.randrange(12), rng.choice(["addanc", "ancil", "append", "eval", "write", "ownanc"]), rng.randrange(30), calls.gen_call(rng, "hist", ("point", "grid"))])
            elif k == "write":
                ops.append([k, f, *gen_ens(rng)])
            else:
                ops.append([k, f])
        return dict(ops=ops)

    def run(self, plan, ctx):
        files, its, kept = {}, {}, []

        def path(f):
            return os.path.join(ctx.dir, f"f{f}.hdf5")

        def busy(f):
            return sum(1 for i in its.values() if i.f == f and not i.over)

        def total():
            return sum(1 for i in its.values() if not i.over)

        def advance(i):
            """One chunk; checks it against the model of the file"""
            it = its[i]
            want = it.ranges[it.k] if it.k < len(it.ranges) else None
            try:
                a, b, c = next(it.gen)
            except StopIteration:
                it.over = True
                ctx.check(None if want is None else f"ended although {want} is next", "chunk-missing", f"iteration {i}")
                return None
            ctx.check(None if (a, b) == want else f"{a}:{b} instead of {want}", "wrong-range", f"iteration {i}")
            m = it.model.select(range(a, b))
            ctx.check(diff_model(c, m, probe=it.k == 0), "wrong-chunk", f"iteration {i}, rows {a}:{b}")
            kept.append([c, m, f"rows {a}:{b} of iteration {i}", compare.snap(c)])
            if len(kept) > 12:
                kept.pop(0)
            it.k += 1
            return c

        for op in plan["ops"]:
            k, done, changed = op[0], "skip", None
            ctx.state(k, busy(op[1]) if k in ("write", "delete", "read") else 0, total(), min(len(kept), 3))
            try:
                if k == "write":
                    if not busy(op[1]):
                        e = zoo.make(*op[2:])
                        e.write_to(path(op[1]))
                        files[op[1]] = Model.of(e, e)
                        done = "written"
                elif k == "start":
                    _, i, f, chunk, rank, size = op
                    if f in files and i not in its:
                        m = files[f]
                        ranges = [(a, min(a + chunk, m.npdf)) for j, a in enumerate(range(0, m.npdf, chunk)) if j % size == rank]
                        kw = dict(rank=rank, parallel_size=size) if size > 1 else {}
                        its[i] = Iteration(f, qp.iterator(path(f), chunk_size=chunk, **kw), m, ranges)
                        done = f"{len(ranges)} chunks"
                        ctx.nontrivial |= total() > 1
                elif k == "next" and op[1] in its:
                    if not its[op[1]].over:
                        done = "end" if advance(op[1]) is None else "chunk"
                elif k == "finish" and op[1] in its:
                    while not its[op[1]].over:
                        advance(op[1])
                    del its[op[1]]
                    done = "finished"
                elif k == "abandon" and op[1] in its:
                    it = its[op[1]]
                    if op[2] == "close":
                        it.gen.close()
                    elif op[2] == "throw" and not it.over:
                        try:
                            it.gen.throw(KeyboardInterrupt("simulated"))
                        except KeyboardInterrupt:
                            pass
                    it.gen = None
                    del its[op[1]], it
                    done = op[2]
                    ctx.fault("iteration abandoned")
                elif k == "interrupt" and op[1] in its and not its[op[1]].over:
                    it = its[op[1]]
                    with interrupt.Interrupt(int(op[2] * 60), interrupt.KINDS[op[3]]) as hook:
                        try:
                            got = next(it.gen)
                        except (KeyboardInterrupt, MemoryError) as x:
                            if "simulated" not in str(x):
                                raise
                            got = None
                            it.over = True
                        except StopIteration:
                            it.over = True
                            got = None
                    if hook.fired:
                        ctx.fault(op[3])
                    done = f"interrupted in {hook.where}" if hook.fired else "ran through"
                    if got is not None:
                        a, b, c = got
                        ctx.check(None if (a, b) == it.ranges[it.k] else f"{a}:{b} instead of {it.ranges[it.k]}", "wrong-range", f"iteration {op[1]}")
                        ctx.check(diff_model(c, it.model.select(range(a, b)), probe=False), "wrong-chunk", f"iteration {op[1]}, rows {a}:{b}")
                        it.k += 1
                    if it.over:
                        its.pop(op[1])
                    it = got = None
                elif k == "mut" and kept:
                    entry = kept[op[1] % len(kept)]
                    c, m = entry[0], entry[1]
                    how, seed = op[2], op[3]
                    done = how
                    if how == "addanc":
                        t = extra_columns(seed, m.npdf)
                        c.add_to_ancil(t)
                        entry[1] = m.add_anc(t)
                    elif how == "ancil":
                        t = zoo.ancil("basic", [seed + j for j in range(m.npdf)])
                        c.set_ancil(t)
                        entry[1] = m.with_anc(t)
                    elif how == "ownanc" and c.ancil is not None:
                        # the client's chunk, the client's table: written to in place
                        t = {x: v.copy() for x, v in m.anc_table().items()}
                        for v in c.ancil.values():
                            v[...] = 1
                        for v in t.values():
                            v[...] = 1
                        entry[1] = m.with_anc(t)
                    elif how == "append":
                        other = kept[seed % len(kept)]
                        if m.compatible(other[1]) and m.same_ancil_columns(other[1]) and m.npdf < 60:
                            c.append(other[0])
                            entry[1] = Model.concat([m, other[1]])
                    elif how == "write":
                        c.write_to(os.path.join(ctx.dir, f"chunk{seed}.hdf5"))
                    else:
                        if not (m.gen_class.name == "spline" and op[4]["fn"] in ("ppf", "isf")):
                            try:
                                calls.invoke(c, op[4])
                            except Exception:  # pylint: disable=broad-except
                                calls.invoke(m.fresh(), op[4])  # raises as well
                                raise
                    entry[3] = compare.snap(c)
                    changed = entry
                elif k == "read" and op[1] in files:
                    ctx.check(diff_model(qp.read(path(op[1])), files[op[1]]), "read-differs", f"{total()} iterations in progress")
                    done = "read"
                elif k == "meta" and op[1] in files:
                    ctx.check(None if qp.data_length(path(op[1])) == files[op[1]].npdf and qp.is_qp_file(path(op[1])) else "wrong", "look-differs")
                    qp.read_metadata(path(op[1]))
                    done = "looked"
                elif k == "delete" and op[1] in files and not busy(op[1]):
                    os.unlink(path(op[1]))
                    del files[op[1]]
                    done = "deleted"
                elif k == "chunkwrite" and not busy(op[1]) and kept:
                    # a file written in chunks from what an iteration over another (or the same) file delivers
                    c, m, _, _ = kept[-1]
                    groups, fout = c.initializeHdf5Write(path(op[1]), m.npdf)
                    for j in range(m.npdf):
                        c[j].writeHdf5Chunk(groups, j, j + 1)
                    c.finalizeHdf5Write(fout)
                    files[op[1]] = m
                    done = "written in chunks"
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                if k == "mut" and op[2] == "eval":
                    done = "raises"
                else:
                    ctx.fail("raised", f"{op} with {total()} iterations in progress: {type(x).__name__}: {x}")
            ctx.log(*op[:4], done)
            ctx.hit(k if done != "skip" else "skipped")
            for entry in kept:
                if entry is not changed:
                    ctx.check(compare.diff_snap(entry[3], compare.snap(entry[0])), "chunk-changed", f"{entry[2]}, by {op}")
                else:
                    ctx.check(diff_model(entry[0], entry[1], probe=False), "chunk-changed", f"{entry[2]}, by {op}")
        for i in sorted(its):
            if not its[i].over:
                ctx.fault("iteration abandoned")
                its[i].gen = None
        its.clear()
        for entry in kept:
            ctx.check(diff_model(entry[0], entry[1]), "chunk-changed", f"{entry[2]}, at the end")
        for f in sorted(files):
            try:
                ctx.check(diff_model(qp.read(path(f)), files[f]), "read-differs", f"file {f} at the end")
                new = zoo.make("norm", 0, [f, f + 1], "basic")
                new.write_to(path(f))
                ctx.check(compare.diff(qp.read(path(f)), new), "read-differs", f"file {f} rewritten")
                os.unlink(path(f))
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("file-in-use", f"file {f} after all iterations: {type(x).__name__}: {x}")
        for entry in kept:
            ctx.check(diff_model(entry[0], entry[1], probe=False), "chunk-changed", f"{entry[2]}, after the file was removed")
