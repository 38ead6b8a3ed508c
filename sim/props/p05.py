"""P05: chunked and parallel writing give the same file as writing at once."""

import os

import numpy as np

import qp

from sim import compare, mpi, zoo
from sim.core import Scenario as Base
from sim.core import Violation
from sim.world import Model, diff_model

HOW = ["slice", "slice", "fresh", "rows", "iter", "reuse", "refill", "refill", "concat", "corrected"]


def gen_rows(rng):
    n = rng.choice([1, 2, 3, 4, 6, 9, 14, 25, 60]) if rng.random() > 0.03 else rng.choice([300, 1100])
    return [rng.randrange(500) for _ in range(n)]


def gen_chunks(rng, n):
    """Ranges which together cover 0..n, in any order, some of them twice"""
    k = rng.choice([1, 2, 3, 5, min(n, 40)])
    cuts = sorted({0, n} | {rng.randrange(n + 1) for _ in range(k - 1)})
    if rng.random() < 0.3:
        size = rng.randint(1 + n // 60, n)
        cuts = sorted(set(range(0, n, size)) | {n})
    out = [[a, b] for a, b in zip(cuts, cuts[1:])]
    if rng.random() < 0.6:
        rng.shuffle(out)
    if rng.random() < 0.15:
        out.append(rng.choice(out))
    return out


class Chunks:
    """Gives the rows a:b of an ensemble, made in different ways"""

    def __init__(self, e, m, source):
        self.e, self.m, self.source, self.reused, self.refilled = e, m, source, None, None

    def get(self, a, b, how):
        if how == "slice":
            return self.e[a:b]
        if how == "rows":
            return qp.concatenate([self.e[i] for i in range(a, b)])
        if how == "concat":
            mid = (a + b) // 2
            return qp.concatenate([self.e[x:y] for x, y in ((a, mid), (mid, b)) if x < y])
        if how == "iter":
            for x, y, c in qp.iterator(self.source, chunk_size=1 if a else b):
                if (x, y) == (a, b):
                    return c
            return qp.read(self.source)[a:b]
        if how == "reuse" and self.m.gen_class.name != "hist":
            part = self.m.select(range(a, b))
            if self.reused is None:
                self.reused = part.fresh()
            else:
                self.reused.update_objdata(part.table(), part.anc_table())
            return self.reused
        if how == "refill":
            # one object whose whole contents are replaced for each chunk
            part = self.m.select(range(a, b))
            if self.refilled is None:
                self.refilled = part.fresh()
            else:
                self.refilled.update(part.data(), part.anc_table())
            return self.refilled
        return self.m.select(range(a, b)).fresh()


class Scenario(Base):
    pid = "P05"
    runs = {"quick": 450, "thorough": 30000}
    rule = "a run writes one to three ensembles to files chunk by chunk, with chunks of seeded sizes made in seven ways, in one process (several files in progress at once) or as a job of up to five ranks whose requests are served in a seeded order; non-trivial if some file was written in at least two chunks"
    state_measure = "distinct (representation, ancillary variant, way the chunk was made) and sets of requests the ranks were waiting for"
    real = "qp, tables_io, h5py/HDF5 (serial); every rank is a process of its own"
    stub = "MPI and the mpio driver of HDF5: collective operations (which all ranks have to reach with equal arguments) and independent writes, applied by the simulator to one serial file"
    technique = "seeded interleavings of the ranks of a simulated parallel job"
    lists = ("ops",)
    assumptions = ["all chunks of a file come from one ensemble, so that columns and types agree", "writes of rows by different ranks are atomic"]

    def gen(self, rng, tier, index):
        ens, files = [], []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ens.append([rng.choice(zoo.ALL), zoo.gen_shared(rng, 4), gen_rows(rng), rng.choice(zoo.ANC_ALL)])
        if rng.random() < 0.35:
            n = len(ens[0][2])
            size = rng.choice([1, 2, 2, 3, 4, 5])
            chunks = gen_chunks(rng, n)
            deal = rng.choice(["iterator", "blocks", "any"])
            # all ranks run the same program: their chunks come about in the same way
            how = rng.choice(["slice", "fresh", "rows", "concat", "iter"])
            owners = [rng.randrange(size) for _ in chunks]
            return dict(
                mode="mpi", ens=ens[:1], size=size, deal=deal, chunk=rng.randint(1, n + 2), ops=[[r, a, b, how] for r, (a, b) in zip(owners, chunks)],
                choices=[rng.randrange(60) for _ in range(97)], old=rng.random() < 0.4, flush=[rng.randrange(60) for _ in range(rng.choice([0, 0, 3]))], points=rng.randrange(2),
            )
        progs = []
        for f, e in enumerate(ens):
            chunks = gen_chunks(rng, len(e[2]))
            progs.append([["init", f, rng.choice(["whole", "chunk", "row"])]] + [["chunk", f, a, b, rng.choice(HOW)] for a, b in chunks] + [["fin", f, rng.choice(["whole", "chunk", "row", "last"])]])
        ops = []
        while any(progs):
            p = rng.choice([p for p in progs if p])
            ops.append(p.pop(0))
            if rng.random() < 0.12:
                ops.append([rng.choice(["write", "read", "eval"]), rng.randrange(len(ens))])
        # the order of the files is what is interleaved; a shorter list leaves rows unwritten, see run()
        return dict(mode="serial", ens=ens, ops=ops, old=rng.random() < 0.4)

    def simplify(self, plan):
        for i, e in enumerate(plan["ens"]):
            for other in ("norm",):
                if e[0] != other:
                    yield dict(plan, ens=plan["ens"][:i] + [[other, *e[1:]]] + plan["ens"][i + 1 :])
            if e[3] not in ("none", "basic"):
                yield dict(plan, ens=plan["ens"][:i] + [[*e[:3], "basic"]] + plan["ens"][i + 1 :])
        if plan["old"]:
            yield dict(plan, old=False)

    def verify(self, ctx, path, m, written, why):
        """The file holds m (in the rows that were written: a minimised plan may leave some out)"""
        if not all(written):
            return
        try:
            got = qp.read(path)
        except Exception as x:  # pylint: disable=broad-except
            ctx.fail("unreadable", f"{why}: {type(x).__name__}: {x}")
        ctx.check(diff_model(got, m), "read-differs", why)
        ctx.check(None if qp.is_qp_file(path) is True else "is_qp_file is not True", "not-recognised", why)
        ctx.check(None if qp.data_length(path) == m.npdf else f"data_length {qp.data_length(path)} != {m.npdf}", "length-differs", why)
        parts = [c for _, _, c in qp.iterator(path, chunk_size=max(1, m.npdf // 2))]
        ctx.check(diff_model(qp.concatenate(parts), m, probe=False), "iteration-differs", why)
        at_once = path.replace(".hdf5", "_once.hdf5")
        m.fresh().write_to(at_once)
        ctx.check(compare.diff(got, qp.read(at_once)), "read-differs", why + " (from the file written at once)")

    def run(self, plan, ctx):
        es = [zoo.make(*e) for e in plan["ens"]]
        ms = [Model.of(e, zoo.make(*x)) for e, x in zip(es, plan["ens"])]
        snaps = [compare.snap(e) for e in es]
        paths = [os.path.join(ctx.dir, f"out{i}.hdf5") for i in range(len(es))]
        sources = [os.path.join(ctx.dir, f"in{i}.hdf5") for i in range(len(es))]
        for i, e in enumerate(es):
            e.write_to(sources[i])
            if plan["old"]:
                zoo.make("hist", 1, [5, 6, 7], "wide").write_to(paths[i])
        for e in plan["ens"]:
            ctx.hit(f"rep {e[0]}")
        if plan["mode"] == "mpi":
            self.run_mpi(plan, ctx, es, ms, paths, sources)
        else:
            self.run_serial(plan, ctx, es, ms, paths, sources)
        for i, e in enumerate(es):
            ctx.check(compare.diff_snap(snaps[i], compare.snap(e)), "ensemble-changed", f"ensemble {i}")

    def run_serial(self, plan, ctx, es, ms, paths, sources):
        chunks = [Chunks(e, m, s) for e, m, s in zip(es, ms, sources)]
        written = [np.zeros(m.npdf, dtype=bool) for m in ms]
        open_, last, count = {}, {}, [0] * len(es)
        kept = []
        for op in plan["ops"]:
            k, i = op[:2]
            try:
                if k == "init" and i not in open_:
                    first = dict(whole=es[i], chunk=es[i][: max(1, ms[i].npdf // 2)], row=es[i][0])[op[2]]
                    open_[i] = first.initializeHdf5Write(paths[i], ms[i].npdf)
                    last[i] = first
                elif k == "chunk" and i in open_:
                    c = chunks[i].get(*op[2:])
                    m = ms[i].select(range(op[2], op[3]))
                    if op[4] == "corrected" and m.anc is not None:
                        # written with columns of other rows at first
                        wrong = ms[i].select([(r + 1) % ms[i].npdf for r in range(op[2], op[3])])
                        c.set_ancil(wrong.anc_table())
                        c.writeHdf5Chunk(open_[i][0], op[2], op[3])
                        c.add_to_ancil(m.anc_table())
                    c.writeHdf5Chunk(open_[i][0], op[2], op[3])
                    ctx.check(diff_model(c, m, probe=False), "chunk-changed", f"by {op}")
                    if c is not chunks[i].reused and c is not chunks[i].refilled:
                        kept.append((c, m, op))
                    written[i][op[2] : op[3]] = True
                    last[i] = c
                    count[i] += 1
                    ctx.nontrivial |= count[i] > 1
                    ctx.state(ms[i].gen_class.name, ms[i].anc is None, op[4])
                    ctx.hit("chunks")
                elif k == "fin" and i in open_:
                    final = dict(whole=es[i], chunk=es[i][ms[i].npdf // 2 :], row=es[i][-1], last=last[i])[op[2]]
                    final.finalizeHdf5Write(open_.pop(i)[1])
                    ctx.log(*op)
                    self.verify(ctx, paths[i], ms[i], written[i], f"file {i}")
                    open_.setdefault(("done", i), True)
                    continue
                elif k == "write":
                    es[i].write_to(os.path.join(ctx.dir, "other.hdf5"))
                elif k == "read":
                    ctx.check(diff_model(qp.read(sources[i]), ms[i]), "read-differs", "of another file in between")
                elif k == "eval":
                    es[i].pdf(zoo.XS)
            except Violation:
                raise
            except Exception as x:  # pylint: disable=broad-except
                ctx.fail("raised", f"{op}: {type(x).__name__}: {x}")
            ctx.log(*op)
        for c, m, op in kept:
            ctx.check(diff_model(c, m), "chunk-changed", f"after {op}, at the end")
        for i, m in enumerate(ms):
            if ("done", i) in open_:
                self.verify(ctx, paths[i], m, written[i], f"file {i} at the end")

    def run_mpi(self, plan, ctx, es, ms, paths, sources):
        e, m, path, source, size = es[0], ms[0], paths[0], sources[0], plan["size"]
        n = m.npdf
        written = np.zeros(n, dtype=bool)
        todo = [[] for _ in range(size)]
        if plan["deal"] == "any":
            for r, a, b, how in plan["ops"]:
                todo[r % size].append([a, b, how])
                written[a:b] = True
        elif plan["deal"] == "blocks":
            for r in range(size):
                a, b = n * r // size, n * (r + 1) // size
                if a < b:
                    todo[r] = [[a, b, "slice"]]
            written[:] = True
        else:
            written[:] = True

        def program(r):
            def run(comm):
                chunks = Chunks(e, m, source)
                out = None
                if plan["deal"] == "iterator":
                    work = qp.iterator(source, chunk_size=plan["chunk"], rank=r, parallel_size=size)
                else:
                    work = ((a, b, chunks.get(a, b, how)) for a, b, how in todo[r])
                from_file = plan["deal"] == "iterator" or plan["deal"] == "any" and plan["ops"] and plan["ops"][0][3] == "iter"
                last = qp.read(source)[0] if from_file else e[0]
                for a, b, c in work:
                    if out is None:
                        out = c.initializeHdf5Write(path, n, comm)
                    if plan["points"]:
                        comm.point()
                    c.writeHdf5Chunk(out[0], a, b)
                    last = c
                if out is None:  # a rank with nothing to write
                    out = last.initializeHdf5Write(path, n, comm)
                last.finalizeHdf5Write(out[1])

            return run

        job = mpi.Job([program(r) for r in range(size)], plan["choices"], ctx, flush_at=plan["flush"])
        end = job.run()
        ctx.check(end, "job-failed")
        ctx.hit("jobs")
        ctx.hit("requests served", job.steps)
        ctx.nontrivial = size > 1
        for w in job.where:
            ctx.state(w)
        ctx.check(None if not job.files else "the file is still open", "not-closed")
        self.verify(ctx, path, m, written, f"{size} ranks, {plan['deal']}")
